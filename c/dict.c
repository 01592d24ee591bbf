/* contracts for src/hob3lbase/dict.c (the real text is included below): red-black trees of any size.
 * Nodes are elements 1.. of an array (element 0 stands for NULL).  Ghost state per node: member of the tree, position in the
 * order, and the bounds of the subtree (LO, HI), so that order, linking, colours and heights are local facts of each node; they
 * are assumed for every node (at the instances used) and proved for an arbitrary one. */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <dict.c>
#ifdef HV_CBMC
#define BIG (1LL << 40)
typedef int64_t z_t;
static cp_dict_t *g_nd; static z_t g_ne;
static int64_t *g_in, *g_ord, *g_lo, *g_hi;
static z_t g_g;                 /* an arbitrary node */
static z_t g_L, g_H;            /* bounds of the whole tree */
static z_t g_was, g_ordwas;     /* membership and order of the arbitrary node before */
static z_t g_m;                 /* node whose membership changes */
static cp_dict_t g_o;           /* contents of the arbitrary node before (when it is no member) */
static cp_dict_aug_t g_aug;
static z_t g_B;                 /* bound of the stored heights; an insertion adds at most 2 to it */
static z_t g_r, g_n0, g_dir, g_p, g_i; static bool g_added;
static z_t ID(cp_dict_t *p) { return p == NULL ? 0 : (z_t)(p - g_nd); }
#define RAW(f)   ((z_t)((f) - g_nd))
#define PA(n)    RAW(g_nd[n].parent)
#define E0(n)    RAW(g_nd[n].edge[0])
#define E1(n)    RAW(g_nd[n].edge[1])
#define ST(n)    (g_nd[n].stat)
#define IN(n)    ((n) >= 1 && (n) < g_ne && g_in[n] == 1)
#define RED(n)   ((n) != 0 && ST(n) % 2 == 1)
#define H2(n)    ((n) == 0 ? 0 : ST(n) - ST(n) % 2)
/* child c of n: linked back, bounds, no red child of a red node (except x) */
#define CHILD(n, c, lo, hi, x) (c == 0 || (IN(c) && PA(c) == n && g_lo[c] == (lo) && g_hi[c] == (hi) && (c == x || (x == -1 && n == r) || !(ST(n) % 2 == 1 && ST(c) % 2 == 1))))
/* instance of "is a red-black search tree with root r" at n; x: a red node that may have a red parent (-1: the root may be red
 * and have a red child) */
static bool V(z_t n, z_t r, z_t x)
{
    return !IN(n) || (
        g_L <= g_lo[n] && g_lo[n] < g_ord[n] && g_ord[n] < g_hi[n] && g_hi[n] <= g_H &&
        CHILD(n, E0(n), g_lo[n], g_ord[n], x) && CHILD(n, E1(n), g_ord[n], g_hi[n], x) &&
        H2(E0(n)) == H2(E1(n)) && ST(n) == H2(E0(n)) + (ST(n) % 2 == 1 ? 1 : 2) && ST(n) - ST(n) % 2 <= (size_t)g_B &&
        (PA(n) == 0 ? (n == r && g_lo[n] == g_L && g_hi[n] == g_H) : (n != r && IN(PA(n)) && (E0(PA(n)) == n || E1(PA(n)) == n))));
}
static bool red(z_t n) { return RED(n); }
static bool in(z_t n) { return IN(n); }
#define SAME (g_nd[g_g].parent == g_o.parent && g_nd[g_g].edge[0] == g_o.edge[0] && g_nd[g_g].edge[1] == g_o.edge[1] && g_nd[g_g].stat == g_o.stat)
/* no other node is touched; nothing but the named node changes membership; the order stays */
static bool frame(void) { return (g_was || g_g == g_m || SAME) && (g_g == g_m || (g_in[g_g] == 1) == g_was) && g_ord[g_g] == g_ordwas; }
static void event(cp_dict_aug_t *aug, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t t)
{
    (void)aug;
    z_t y = ID(a), x = ID(b);
    if (t == CP_DICT_AUG_LEFT || t == CP_DICT_AUG_RIGHT) {
        /* the pair was rotated: a took the place of b */
        HV_ENSURE("aug.rotation_names_the_pair", b->parent == a);
        g_lo[y] = g_lo[x]; g_hi[y] = g_hi[x];
        if (t == CP_DICT_AUG_LEFT) g_hi[x] = g_ord[y]; else g_lo[x] = g_ord[y];
        if (PA(y) == 0) g_r = y;
    }
    else if (t == CP_DICT_AUG_ADD) {
        HV_ENSURE("aug.added_node", y == g_m && a->parent != NULL && in(PA(y)) && !g_added);
        g_in[y] = 1; g_added = true;
        z_t p = PA(y);
        if (E1(p) == y) { g_lo[y] = g_ord[p]; g_hi[y] = g_hi[p]; }
        else { g_lo[y] = g_lo[p]; g_hi[y] = g_ord[p]; }
        /* directly before or after the node of the reference, or at the end of the whole order */
        HV_ENSURE("insert.next_to_the_reference", g_p == 0 ? (g_i == 0 ? g_hi[y] == g_H : g_lo[y] == g_L) : (g_i == 0 ? g_hi[y] == g_ord[g_p] : g_lo[y] == g_ord[g_p]));
        HV_ASSUME(g_lo[y] < g_ord[y] && g_ord[y] < g_hi[y]);
    }
}
static void init(void)
{
    g_ne = (z_t)hv_range(2, (uint64_t)BIG);
    g_nd = hv_dyn((size_t)g_ne, sizeof(cp_dict_t)); hv_dyn_null(g_nd); hv_dyn_ptr(g_nd, 0, g_nd); hv_dyn_ptr(g_nd, 8, g_nd); hv_dyn_ptr(g_nd, 16, g_nd);
    g_in = hv_dyn((size_t)g_ne, 8); g_ord = hv_dyn((size_t)g_ne, 8); g_lo = hv_dyn((size_t)g_ne, 8); g_hi = hv_dyn((size_t)g_ne, 8);
    g_L = hv_irange(-BIG, BIG); g_H = hv_irange(-BIG, BIG); HV_ASSUME(g_L < g_H);
    g_g = hv_irange(1, BIG); HV_ASSUME(g_g < g_ne);
    g_was = g_in[g_g] == 1; g_ordwas = g_ord[g_g]; g_o = g_nd[g_g];
    g_B = hv_irange(2, 1LL << 60);
    g_aug.event = event;
}
static cp_dict_t *node(z_t *i) { *i = hv_irange(1, BIG); HV_ASSUME(*i < g_ne); return &g_nd[*i]; }
/* the validity of n and of its neighbours */
static void near(z_t n, z_t r, z_t x) { HV_ASSUME(V(n, r, x)); HV_ASSUME(n == 0 || V(E0(n), r, x)); HV_ASSUME(n == 0 || V(E1(n), r, x)); }
#define RESULT(W, r) \
    HV_ENSURE(W ".ordered_linked_and_balanced", V(g_g, r, 0)); \
    HV_ENSURE(W ".exactly_the_members", frame()); \
    HV_REACH(W)
/* the balancing loop of insertion at node x */
bool inv_bi(cp_dict_t **root, cp_dict_t *x)
{
    z_t X = ID(x), r = ID(*root);
    if (hv_assuming()) {
        HV_ASSUME(in(X) && red(X));
        z_t p = PA(X), q = p == 0 ? 0 : PA(p);
        near(X, r, X); near(p, r, X); near(q, r, X); 
        if (q != 0) { HV_ASSUME(V(PA(q), r, X)); near(E0(q), r, X); near(E1(q), r, X); }
    }
    return in(X) && red(X) && in(r) && PA(r) == 0 && V(g_g, r, X) && V(X, r, X) && frame();
}
void h_balance_insert(void)
{
    init(); z_t X, r; cp_dict_t *x = node(&X), *root = node(&r); g_m = 0;
    HV_ASSUME(in(X) && red(X) && in(r) && PA(r) == 0 && V(g_g, r, X) && V(X, r, X));
    _balance_insert(&g_aug, &root, x);
    r = ID(root);
    HV_ENSURE("balance.root", in(r) && PA(r) == 0);
    HV_ENSURE("balance.only_a_red_root_is_left", V(g_g, r, -1));
    HV_ENSURE("balance.no_other_node_changed", frame());
    HV_REACH("balance");
}
static z_t pick_node(void) { z_t n = hv_irange(1, BIG); HV_ASSUME(n < g_ne); return n; }
/* contract of _balance_insert */
void k_balance_insert(cp_dict_aug_t *aug, cp_dict_t **root, cp_dict_t *x)
{
    (void)aug; z_t X = ID(x), r = ID(*root);
    HV_ENSURE("balance.pre", in(X) && red(X) && in(r) && PA(r) == 0);
    HV_ENSURE("balance.pre_tree_but_for_the_new_red_node", V(g_g, r, X) && V(X, r, X) && frame());
    hv_havoc(g_nd); hv_havoc(g_lo); hv_havoc(g_hi);
    r = pick_node(); *root = &g_nd[r];
    HV_ASSUME(in(r) && PA(r) == 0 && V(g_g, r, -1) && V(r, r, -1) && V(E0(r), r, -1) && V(E1(r), r, -1) && frame());
    g_B = g_B + 2;
}
/* contract of get_black_height: the stored height is right */
size_t k_height(cp_dict_t *p)
{
    z_t n = ID(p);
    HV_ENSURE("height.pre", n == 0 || (E0(n) == 0 && E1(n) == 0 && ST(n) == 1) || (in(n) && V(g_g, n, 0)));
    return H2(n) / 2;
}
size_t k_height_rec(cp_dict_t *p)
{
    z_t n = ID(p);
    HV_ENSURE("height.pre", n == 0 || in(n));
    return H2(n) / 2;
}
void h_height(void)
{
    init(); z_t r = hv_irange(0, BIG), n = hv_irange(0, BIG); HV_ASSUME(r < g_ne && n < g_ne);
    HV_ASSUME(n == 0 || (E0(n) == 0 && E1(n) == 0 && ST(n) == 1) || in(n));
    HV_ASSUME(V(n, r, 0) && (!in(n) || (V(E0(n), r, 0) && V(E1(n), r, 0))));
    HV_ENSURE("height.stored_height_is_the_number_of_black_nodes", get_black_height(n == 0 ? NULL : &g_nd[n]) == H2(n) / 2);
    HV_REACH("height");
}
/* cp_dict_start: the end of the subtree in a direction */
bool inv_start(cp_dict_t *n, cp_dict_t *p)
{
    z_t N = ID(n), P = ID(p), r = g_r;
    if (hv_assuming()) { HV_ASSUME(P == 0 || (V(P, r, 0) && V(E0(P), r, 0) && V(E1(P), r, 0))); HV_ASSUME(N == 0 || V(N, r, 0)); }
    if (N == 0 && P == 0) return g_n0 == 0;
    return g_n0 != 0 && in(P) && (N == P || (g_dir == 0 ? E0(P) : E1(P)) == N) && (N == 0 || in(N)) &&
        (g_dir == 0 ? g_lo[P] == g_lo[g_n0] && g_hi[P] <= g_hi[g_n0] : g_hi[P] == g_hi[g_n0] && g_lo[P] >= g_lo[g_n0]);
}
static bool end_of(z_t n, z_t p, z_t dir)
{
    return n == 0 ? p == 0 : in(p) && (dir == 0 ? E0(p) == 0 && g_lo[p] == g_lo[n] && g_hi[p] <= g_hi[n] : E1(p) == 0 && g_hi[p] == g_hi[n] && g_lo[p] >= g_lo[n]);
}
void h_start(void)
{
    init(); g_n0 = hv_irange(0, BIG); g_r = hv_irange(0, BIG); HV_ASSUME(g_n0 < g_ne && g_r < g_ne); g_dir = hv_irange(0, 1);
    HV_ASSUME(g_n0 == 0 || in(g_n0));
    cp_dict_t *p = cp_dict_start(g_n0 == 0 ? NULL : &g_nd[g_n0], (unsigned)g_dir);
    HV_ENSURE("start.end_of_the_subtree", end_of(g_n0, ID(p), g_dir));
    HV_REACH("start");
}
cp_dict_t *k_start(cp_dict_t *n, unsigned dir)
{
    z_t N = ID(n);
    HV_ENSURE("start.pre", (N == 0 || in(N)) && dir <= 1);
    z_t p = hv_irange(0, BIG); HV_ASSUME(p < g_ne && end_of(N, p, dir) && V(p, g_r, 0));
    return &g_nd[p];
}
/* cp_dict_step: the neighbour in the order */
bool inv_step(cp_dict_t *n, cp_dict_t *p)
{
    z_t N = ID(n), P = ID(p), r = g_r;
    if (hv_assuming()) { HV_ASSUME(V(N, r, 0)); HV_ASSUME(P == 0 || V(P, r, 0)); }
    return in(N) && PA(N) == P && (P == 0 || in(P)) && (g_dir == 0 ? g_hi[N] == g_hi[g_n0] && g_lo[N] <= g_lo[g_n0] : g_lo[N] == g_lo[g_n0] && g_hi[N] >= g_hi[g_n0]);
}
/* s follows n (dir 0) or precedes it (dir 1): nothing is between them by the bounds of the subtrees */
static bool next_to(z_t n, z_t s, z_t dir)
{
    return dir == 0 ?
        (E1(n) != 0 ? in(s) && E0(s) == 0 && g_lo[s] == g_ord[n] && g_ord[s] > g_ord[n] : s == 0 ? g_hi[n] == g_H : in(s) && g_ord[s] == g_hi[n]) :
        (E0(n) != 0 ? in(s) && E1(s) == 0 && g_hi[s] == g_ord[n] && g_ord[s] < g_ord[n] : s == 0 ? g_lo[n] == g_L : in(s) && g_ord[s] == g_lo[n]);
}
void h_step(void)
{
    init(); g_n0 = pick_node(); g_r = pick_node(); g_dir = hv_irange(0, 1); z_t r = g_r;
    HV_ASSUME(in(g_n0) && in(r)); HV_ASSUME(V(g_n0, r, 0) && V(E0(g_n0), r, 0) && V(E1(g_n0), r, 0));
    cp_dict_t *p = cp_dict_step(&g_nd[g_n0], (unsigned)g_dir);
    HV_ENSURE("step.direct_neighbour_in_the_order", next_to(g_n0, ID(p), g_dir));
    HV_REACH("step");
}
cp_dict_t *k_step(cp_dict_t *n, unsigned dir)
{
    z_t N = ID(n);
    HV_ENSURE("step.pre", in(N) && dir <= 1);
    z_t s = hv_irange(0, BIG); HV_ASSUME(s < g_ne && next_to(N, s, dir) && (s == 0 || V(s, g_r, 0)));
    return &g_nd[s];
}
/* insertion */
void h_insert(void)
{
    init(); z_t Y, r = hv_irange(0, BIG), P = hv_irange(0, BIG); cp_dict_t *y = node(&Y); HV_ASSUME(r < g_ne && P < g_ne);
    g_m = Y; g_r = r;
    HV_ASSUME(!in(Y) && PA(Y) == 0 && E0(Y) == 0 && E1(Y) == 0 && ST(Y) % 2 == 0 && Y != r);
    HV_ASSUME(r == 0 ? !in(g_g) && P == 0 : in(r) && PA(r) == 0);
    HV_ASSUME(V(g_g, r, 0) && V(r, r, 0));
    HV_ASSUME(P == 0 || (in(P) && V(P, r, 0) && V(E0(P), r, 0) && V(E1(P), r, 0)));
    cp_dict_ref_t ref; ref.parent = &g_nd[P]; ref.child = (unsigned)hv_irange(0, 1); ref.path = 0;
    g_p = P; g_i = ref.child; g_added = false;
    cp_dict_t *root = &g_nd[r];
    cp_dict_insert_ref_aug(y, &ref, &root, &g_aug);
    HV_ENSURE("insert.there_is_a_root", root != NULL);
    if (r == 0) {
        HV_ENSURE("insert.single_node", root == y && !g_added);
        g_in[Y] = 1; g_lo[Y] = g_L; g_hi[Y] = g_H; HV_ASSUME(g_L < g_ord[Y] && g_ord[Y] < g_H);
    }
    else HV_ENSURE("insert.notified_once", g_added);
    r = ID(root);
    HV_ENSURE("insert.is_a_member", in(Y));
    HV_ENSURE("insert.root", in(r) && PA(r) == 0);
    RESULT("insert", r);
}
/* search: the comparison is with the orders of the nodes; the nodes from the root to a member with the key form a chain */
static int64_t *g_anc; static z_t g_key;
static int cmp(void *a, cp_dict_t *n, void *u)
{
    (void)a; (void)u; z_t N = ID(n);
    HV_ENSURE("find.compares_a_member", in(N));
    return g_key < g_ord[N] ? -1 : g_key > g_ord[N] ? +1 : 0;
}
static z_t g_k, g_dup;
#define ANC(n) (g_anc[n] == 1)
/* the nodes above the member k: k lies within the bounds of each, and its side is the one of the chain */
static bool side(z_t n, z_t c) { return g_ord[g_k] < g_ord[n] ? E0(n) == c : E1(n) == c; }
/* instance of the chain at n (below the root: see the group "chain") */
static bool chain(z_t n) { return !ANC(n) || n == g_k || (g_ord[g_k] < g_ord[n] ? E0(n) != 0 && ANC(E0(n)) : E1(n) != 0 && ANC(E1(n))); }
/* step of the argument: if the chain goes up from c, then k is on that side of the parent and within its bounds */
void h_chain(void)
{
    init(); z_t r = pick_node(), c = pick_node(); g_k = pick_node();
    HV_ASSUME(in(g_k) && V(g_k, r, 0) && in(c) && V(c, r, 0) && PA(c) != 0 && V(PA(c), r, 0));
    HV_ENSURE("chain.starts_within_the_bounds", g_lo[g_k] < g_ord[g_k] && g_ord[g_k] < g_hi[g_k]);
    HV_ASSUME(g_lo[c] < g_ord[g_k] && g_ord[g_k] < g_hi[c]);
    z_t p = PA(c);
    HV_ENSURE("chain.parent_contains_it", in(p) && g_lo[p] < g_ord[g_k] && g_ord[g_k] < g_hi[p] && side(p, c) && p != g_k);
    HV_REACH("chain");
}
/* the free place below p in direction i, and the key belongs there */
static bool place(z_t p, z_t i)
{
    return in(p) && (i == 0 ? E0(p) == 0 && (g_dup > 0 ? g_lo[p] <= g_key : g_lo[p] < g_key) && (g_dup < 0 ? g_key <= g_ord[p] : g_key < g_ord[p])
                            : E1(p) == 0 && (g_dup > 0 ? g_ord[p] <= g_key : g_ord[p] < g_key) && (g_dup < 0 ? g_key <= g_hi[p] : g_key < g_hi[p]));
}
bool inv_find(cp_dict_t *n, cp_dict_t *p, cp_dict_t *e, unsigned i)
{
    z_t N = ID(n), P = ID(p), E = ID(e), r = g_r;
    if (hv_assuming()) { HV_ASSUME(N == 0 || (V(N, r, 0) && V(E0(N), r, 0) && V(E1(N), r, 0) && chain(N) && (g_k == 0 || g_ord[N] != g_key || N == g_k))); /* orders of members are distinct */ }
    return i <= 1 && (E == 0 || (in(E) && g_ord[E] == g_key && g_dup != 0)) &&
        (N == 0 ? (P == 0 ? r == 0 && E == 0 : place(P, i)) :
         in(N) && (g_dup > 0 ? g_lo[N] <= g_key : g_lo[N] < g_key) && (g_dup < 0 ? g_key <= g_hi[N] : g_key < g_hi[N])) &&
        (g_k == 0 || E == g_k || (N != 0 && ANC(N)));
}
void h_find(void)
{
    init(); z_t r = hv_irange(0, BIG); HV_ASSUME(r < g_ne); g_r = r; g_key = hv_irange(-BIG, BIG); HV_ASSUME(g_L < g_key && g_key < g_H);
    g_anc = hv_dyn((size_t)g_ne, 8); g_dup = hv_irange(-2, 2); g_k = hv_irange(0, BIG); HV_ASSUME(g_k < g_ne);
    HV_ASSUME(r == 0 ? g_k == 0 : in(r) && PA(r) == 0 && V(r, r, 0));
    /* k: the member with the key, if there is one (orders are unique, so equal orders mean the same node) */
    HV_ASSUME(g_k == 0 || (in(g_k) && g_ord[g_k] == g_key && ANC(r)));
    cp_dict_ref_t ref;
    cp_dict_t *n = cp_dict_find_ref_(&ref, NULL, &g_nd[r], cmp, NULL, (int)g_dup);
    z_t N = ID(n);
    HV_ENSURE("find.only_a_member_with_the_key", N == 0 || (in(N) && g_ord[N] == g_key));
    HV_ENSURE("find.finds_it", g_k == 0 || g_dup == -1 || g_dup == 1 || N == g_k || (N != 0 && g_ord[N] == g_key));
    HV_ENSURE("find.place_for_the_key", (g_dup == 0 && N != 0) || (ID(ref.parent) == 0 ? r == 0 : place(ID(ref.parent), ref.child)));
    HV_REACH("find");
}
/* cp_dict_root */
bool inv_root(cp_dict_t *n)
{
    z_t N = ID(n);
    if (hv_assuming()) { HV_ASSUME(V(N, g_r, 0)); }
    return in(N);
}
void h_root(void)
{
    init(); z_t n = hv_irange(0, BIG); g_r = pick_node(); HV_ASSUME(n < g_ne && (n == 0 || in(n)) && in(g_r));
    cp_dict_t *p = cp_dict_root(&g_nd[n]);
    HV_ENSURE("root.is_the_root", n == 0 ? p == NULL : ID(p) == g_r);
    HV_REACH("root");
}
cp_dict_t *k_root(cp_dict_t *n)
{
    z_t N = ID(n);
    HV_ENSURE("root.pre", N == 0 || (in(N) && in(g_r) && PA(g_r) == 0));
    return &g_nd[N == 0 ? 0 : g_r];
}
#endif
