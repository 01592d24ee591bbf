/* contracts for src/hob3lbase/heap.c and the heap part of src/hob3lbase/vec.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#ifdef HEAP_VEC
#include <vec.c>
#else
#include <heap.c>
#endif
#ifdef HV_CBMC
#define BIG (1ULL << 40)
/* elements 0..g_ne-1 and their keys: every total preorder on the elements is the order of some integer keys */
static int64_t *g_key; static size_t g_ne; static int g_user; static size_t *g_el;       /* g_el[e]: the index of element e (heap.c stores it in the element; ghost for vec.c) */
#ifdef HEAP_VEC
typedef size_t slot_t;
static struct { slot_t *data; size_t size, alloc; } g_h; typedef cp_v_t heap_t;
#define ID(P)      g_d[P]
#define EIDX(P)    (*(P))
#else
typedef size_t *slot_t;
static cp_heap_t g_h; typedef cp_heap_t heap_t;
#define ID(P)      ((size_t)(g_d[P] - g_el))
#define EIDX(P)    ((size_t)((P) - g_el))
#endif
static slot_t *g_d;
/* ghosts: an arbitrary position, an arbitrary element, whether it is contained; the place being repaired; an arbitrary element outside and the entry behind the end */
static size_t g_g, g_e, g_n, g_tot, g_p0, g_o, g_ov, g_x; static bool g_in, g_fo, g_fx;
static int cmp(size_t const *a, size_t const *b, void *user)
{
    HV_ENSURE("order.comparison_gets_elements_and_user", user == &g_user);
    int64_t x = g_key[EIDX(a)], y = g_key[EIDX(b)];
    int r = hv_i32(); HV_ASSUME((r < 0) == (x < y) && (r > 0) == (x > y)); return r;
}
static bool le(size_t p, size_t q) { return ID(p) < g_ne && ID(q) < g_ne && g_key[ID(p)] <= g_key[ID(q)]; }
static size_t par(size_t p) { return (p - 1) / 2; }
static bool posok(size_t p) { return p >= g_tot || (ID(p) < g_ne && g_el[ID(p)] == p); }       /* the element at p knows its index */
static bool has(void) { return g_el[g_e] < g_tot && ID(g_el[g_e]) == g_e; }       /* contained: its index leads back to it */
/* heap order holds at edge (parent(p), p), except possibly at p == up, and below p == dn; above the gap, grandchildren are in order */
static bool ord(size_t p, size_t up, size_t dn)
{
    if (p == 0 || p >= g_n) return 1;
    if (p == up || par(p) == dn) return 1;
    return le(par(p), p);
}
static bool grand(size_t p, size_t at) { return p == 0 || p >= g_n || par(p) != at || at == 0 || le(par(at), p); }
static bool frame(void) { return (!g_fo || g_el[g_o] == g_ov) && (!g_fx || ID(g_x) == g_o); }
#define NONE ((size_t)-2)
bool inv_up(size_t pos, slot_t *q, heap_t *vec)
{
    size_t dn = pos == g_p0 ? g_p0 : NONE;
    if (hv_assuming()) {
        HV_ASSUME(pos < g_n && posok(pos) && ord(g_p0, pos, dn));
        HV_ASSUME(pos == 0 || (posok(par(pos)) && ord(par(pos), pos, dn)));
    }
    return vec == (heap_t*)&g_h && pos < g_n && q == &g_d[pos] && g_h.data == g_d && g_h.size == g_n && posok(g_g) && has() == g_in && ord(g_g, pos, dn) && grand(g_g, pos) && (pos == g_p0 || pos < g_p0) && frame();
}
bool inv_down(size_t pos, slot_t *q, heap_t *vec)
{
    if (hv_assuming()) {
        HV_ASSUME(pos < g_n && posok(pos));
        HV_ASSUME(posok(2 * pos + 1) && grand(2 * pos + 1, pos));
        HV_ASSUME(posok(2 * pos + 2) && grand(2 * pos + 2, pos));
    }
    return vec == (heap_t*)&g_h && pos < g_n && q == &g_d[pos] && g_h.data == g_d && g_h.size == g_n && posok(g_g) && has() == g_in && ord(g_g, NONE, pos) && grand(g_g, pos) && frame();
}
static bool all_up(size_t p) { return posok(p) && ord(p, g_p0, g_p0) && grand(p, g_p0); }      /* precondition of up, instance p */
static bool all_down(size_t p) { return posok(p) && ord(p, NONE, g_p0) && grand(p, g_p0); }   /* postcondition of up, precondition of down */
static bool same(void) { return has() == g_in && frame() && g_h.size == g_n && g_h.data == g_d; }
static bool valid(size_t p) { return posok(p) && ord(p, NONE, NONE); }       /* instance of "is a heap" at p */
static void init(void)
{
    g_tot = g_n = hv_range(0, BIG); g_ne = hv_range(1, BIG); size_t cap = hv_range(1, BIG);
    HV_ASSUME(g_n < cap);
    g_el = hv_dyn(g_ne, sizeof(size_t)); g_key = hv_dyn(g_ne, sizeof(int64_t)); g_d = hv_dyn(cap, sizeof(slot_t));
#ifndef HEAP_VEC
    hv_dyn_ptr(g_d, 0, g_el);
#endif
    g_h.data = g_d; g_h.size = g_n; g_h.alloc = cap;
    g_g = hv_range(0, BIG); g_e = hv_range(0, BIG); HV_ASSUME(g_e < g_ne);
    g_p0 = hv_range(0, BIG);
}
#define RESULT(W) \
    HV_ENSURE(W ".parent_not_greater", ord(g_g, NONE, NONE)); \
    HV_ENSURE(W ".index_of_element", posok(g_g)); \
    HV_ENSURE(W ".exactly_the_expected_elements", has() == g_in && g_h.size == g_n && g_h.data == g_d); \
    HV_REACH(W)
#ifdef HEAP_VEC
#define UPDATE(P) cp_v_heap_update(&g_h, cmp, &g_user, P)
#else
#define UPDATE(P) cp_heap_update(&g_h, cmp, &g_user, P)
#endif
typedef int cmp_t(void const *, void const *, void *);
static void c_common(void *vec, void *c, void *u, size_t pos)
{
    HV_ENSURE("contract.called_on_this_heap", vec == (void*)&g_h && c == (void*)cmp && u == &g_user && pos == g_p0 && pos < g_n);
    HV_ENSURE("contract.exactly_the_expected_elements", same());
    hv_havoc(g_d); hv_havoc(g_el);
    HV_ASSUME(same());
}
#ifdef HEAP_VEC
void c_up(heap_t *vec, size_t esz, cmp_t *c, void *u, size_t pos) 
{ 
    (void)esz;
#else
void c_up(heap_t *vec, int (*c)(size_t const *, size_t const *, void *), void *u, size_t pos) 
{ 
#endif
    HV_ENSURE("contract.up_precondition", all_up(g_g)); c_common(vec, (void*)c, u, pos); HV_ASSUME(all_down(g_g)); 
}
#ifdef HEAP_VEC
void c_down(heap_t *vec, size_t esz, cmp_t *c, void *u, size_t pos) 
{ 
    (void)esz;
#else
void c_down(heap_t *vec, int (*c)(size_t const *, size_t const *, void *), void *u, size_t pos) 
{ 
#endif
    HV_ENSURE("contract.down_precondition", all_down(g_g)); c_common(vec, (void*)c, u, pos); HV_ASSUME(valid(g_g)); 
}
#ifdef HEAP_VEC
void c_update(heap_t *vec, size_t esz, cmp_t *c, void *u, size_t pos) 
{ 
    (void)esz;
#else
void c_update(heap_t *vec, int (*c)(size_t const *, size_t const *, void *), void *u, size_t pos) 
{ 
#endif
    HV_ENSURE("contract.update_precondition", all_up(g_g)); c_common(vec, (void*)c, u, pos); HV_ASSUME(valid(g_g)); 
}
static void assume_frame(void)
{
    g_fo = hv_bool(); g_fx = hv_bool(); g_o = hv_range(0, BIG); g_ov = hv_range(0, UINT64_MAX); g_x = hv_range(0, 2 * BIG);
    HV_ASSUME(g_o < g_ne && g_ov >= g_tot && g_x >= g_n && g_x < g_h.alloc); HV_ASSUME(frame());
}
/* the two sifts */
void h_up(void)
{
    init(); HV_ASSUME(g_p0 < g_n); assume_frame(); g_in = has();
    HV_ASSUME(all_up(g_g) && all_up(g_p0));
#ifdef HEAP_VEC
    cp_v_heap_up_((cp_v_t*)&g_h, sizeof(slot_t), (cmp_t*)cmp, &g_user, g_p0);
#else
    cp_heap_up_(&g_h, cmp, &g_user, g_p0);
#endif
    HV_ENSURE("up.only_the_edges_below_the_place_are_left", all_down(g_g));
    HV_ENSURE("up.exactly_the_expected_elements", same());
    HV_REACH("up");
}
void h_down(void)
{
    init(); HV_ASSUME(g_p0 < g_n); assume_frame(); g_in = has();
    HV_ASSUME(all_down(g_g));
#ifdef HEAP_VEC
    cp_v_heap_down_((cp_v_t*)&g_h, sizeof(slot_t), (cmp_t*)cmp, &g_user, g_p0);
#else
    cp_heap_down_(&g_h, cmp, &g_user, g_p0);
#endif
    HV_ENSURE("down.parent_not_greater", valid(g_g));
    HV_ENSURE("down.exactly_the_expected_elements", same());
    HV_REACH("down");
}
/* update: one element's priority changed arbitrarily: valid except around it */
void h_update(void)
{
    init(); HV_ASSUME(g_p0 < g_n);
    HV_ASSUME(posok(g_g) && ord(g_g, g_p0, g_p0) && grand(g_g, g_p0)); g_in = has();
    UPDATE(g_p0);
    RESULT("update");
}
/* lemma: in a heap the first element is a minimum (induction along the path to the root) */
bool inv_min(size_t p) { if (hv_assuming()) HV_ASSUME(valid(p)); return p < g_n && le(p, g_g); }
void h_min(void)
{
    init(); HV_ASSUME(g_g < g_n && valid(g_g));
    size_t p = g_g; while (p > 0) p = par(p);
    HV_ENSURE("min.first_is_not_greater_than_any", le(0, g_g));
#ifndef HEAP_VEC
    HV_ENSURE("min.yields_first", cp_heap_min(&g_h) == g_d[0]);
    g_h.size = 0; HV_ENSURE("min.none_if_empty", cp_heap_min(&g_h) == NULL);
#endif
    HV_REACH("min");
}
/* make */
static size_t g_w, g_half;
bool inv_make(heap_t *vec)
{
    size_t s = g_h.size;
    bool ok = vec == (heap_t*)&g_h && g_h.data == g_d && s >= 2 && s <= g_tot + 1;
    if (!hv_assuming()) return ok && g_n == s - 1 && posok(g_g) && has() == g_in && ord(g_g, NONE, NONE);
    g_n = s - 1; ok = ok && posok(g_g) && has() == g_in && ord(g_g, NONE, NONE);
    g_n = s; g_p0 = s - 1;
    return ok;
}
#ifndef HEAP_VEC
bool inv_index(size_t i)
{
    if (hv_assuming() && i < g_tot) HV_ASSUME((i == g_g || g_g >= g_tot || g_d[i] != g_d[g_g]) && ((g_d[i] == &g_el[g_e]) == (g_in && i == g_w)));      /* preconditions: elements are distinct, e is at g_w or nowhere */
    return i <= g_tot && !(g_g < i && !posok(g_g)) && g_h.data == g_d && g_h.size == g_tot && (g_in ? g_w >= i || g_el[g_e] == g_w : g_el[g_e] == g_ov);
}
#endif
void h_make(void)
{
    init(); g_w = hv_range(0, BIG); g_in = hv_bool();
#ifdef HEAP_VEC
    HV_ASSUME(posok(g_g)); g_in = has();       /* ghost indices of the elements as they are */
    g_n = 1; cp_v_heap_make(&g_h, cmp, &g_user);
#else
    g_ov = g_el[g_e];
    if (g_in) HV_ASSUME(g_w < g_tot && g_d[g_w] == &g_el[g_e]);
    else if (g_ov < g_tot) HV_ASSUME(g_d[g_ov] != &g_el[g_e]);
    g_n = 1; cp_heap_make_(&g_h, cmp, &g_user);
#endif
    HV_ENSURE("make.size_kept", g_h.size == g_tot);
    g_n = g_tot;
    RESULT("make");
}
#ifndef HEAP_VEC
/* insert */
static size_t *g_nx;
void *c_ins(cp_alloc_t *m, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    (void)m;
    HV_ENSURE("insert.appends_the_element", v == (cp_v_t*)&g_h && esz == sizeof(slot_t) && pos == g_n && n == 1 && *(slot_t const *)data == g_nx);
    g_d[g_n] = g_nx; g_h.size++; g_p0 = g_n; g_n++; g_tot++; return &g_d[g_p0];
}
void h_insert(void)
{
    init(); size_t nx = hv_range(0, BIG); HV_ASSUME(nx < g_ne); g_nx = &g_el[nx];
    HV_ASSUME(valid(g_g) && (g_g >= g_n || g_d[g_g] != g_nx));       /* not contained yet */
    g_in = has() || g_e == nx; 
    if (g_el[g_e] < g_n) HV_ASSUME(g_d[g_el[g_e]] != g_nx);
    HV_ASSUME(!(g_e != nx && g_el[g_e] == g_n));                   /* indices of elements outside are not inside */
    cp_heap_insert(&g_h, cmp, &g_user, g_nx);
    RESULT("insert");
}
/* remove */
void h_remove(void)
{
    init(); size_t at = hv_range(0, BIG); HV_ASSUME(at < g_n);
    HV_ASSUME(valid(g_g) && valid(at) && valid(g_n - 1));
    size_t *r = g_d[at]; g_in = has() && r != &g_el[g_e];
    g_o = ID(at); g_x = g_ov = --g_n; g_tot--; g_fo = g_fx = 1; g_p0 = at;
    size_t *y = hv_bool() && at == 0 ? cp_heap_extract(&g_h, cmp, &g_user) : cp_heap_remove(&g_h, cmp, &g_user, at);
    HV_ENSURE("remove.yields_the_element", y == r && *y == CP_HEAP_NO_IDX);
    RESULT("remove");
}
void h_extract_empty(void)
{
    init(); g_h.size = 0;
    HV_ENSURE("extract.none_if_empty", cp_heap_extract(&g_h, cmp, &g_user) == NULL && g_h.size == 0);
    HV_REACH("extract_empty");
}
/* replace */
void h_replace(void)
{
    init(); size_t nx = hv_range(0, BIG); HV_ASSUME(nx < g_ne); g_nx = &g_el[nx]; HV_ASSUME(g_p0 < g_n);
    HV_ASSUME(valid(g_g) && valid(g_p0) && (g_g >= g_n || g_d[g_g] != g_nx));      /* not contained yet */
    size_t *r = g_d[g_p0]; g_in = (has() && r != &g_el[g_e]) || g_e == nx; g_o = ID(g_p0);
    HV_ASSUME(r != g_nx && (g_e == nx || g_el[g_e] >= g_n || g_d[g_el[g_e]] != g_nx));
    g_ov = CP_HEAP_NO_IDX; g_fo = 1;
    HV_ASSUME(has() || g_el[g_e] >= g_n);                         /* indices of elements outside are not inside */
    size_t *y = cp_heap_replace(&g_h, cmp, &g_user, g_p0, g_nx);
    HV_ENSURE("replace.yields_the_old_element", y == r && *y == CP_HEAP_NO_IDX);
    RESULT("replace");
}
static unsigned g_c; static size_t *g_res;
void d_insert(cp_heap_t *h, int (*c)(size_t const *, size_t const *, void *), void *u, size_t *x) { HV_ENSURE("replace.inserts_if_not_contained", h == &g_h && c == cmp && u == &g_user && x == g_nx && g_p0 == CP_HEAP_NO_IDX); g_c++; }
size_t *d_remove(cp_heap_t *h, int (*c)(size_t const *, size_t const *, void *), void *u, size_t i) { HV_ENSURE("replace.removes_if_null", h == &g_h && c == cmp && u == &g_user && i == g_p0 && i != CP_HEAP_NO_IDX && g_nx == NULL); g_c++; return g_res; }
void d_update(cp_heap_t *h, int (*c)(size_t const *, size_t const *, void *), void *u, size_t i) { HV_ENSURE("replace.updates_if_same", h == &g_h && c == cmp && u == &g_user && i == g_p0 && g_nx == g_d[i]); g_c++; }
void h_replace_special(void)
{
    init(); unsigned k = (unsigned)hv_range(0, 2);
    if (k == 0) { g_nx = &g_el[0]; g_p0 = CP_HEAP_NO_IDX; } else { HV_ASSUME(g_p0 < g_n); g_nx = k == 1 ? NULL : g_d[g_p0]; g_res = &g_el[0]; }
    size_t *y = cp_heap_replace(&g_h, cmp, &g_user, g_p0, g_nx);
    HV_ENSURE("replace.special_cases", g_c == 1 && (k == 1 ? y == g_res : y == NULL));
    HV_REACH("replace_special");
}
#else
void c_swap(void *a, void *b, size_t n)
{
    HV_ENSURE("swap.two_different_elements", n == sizeof(slot_t) && a != b);
    slot_t x = *(slot_t*)a, y = *(slot_t*)b; *(slot_t*)a = y; *(slot_t*)b = x;
    g_el[y] = (size_t)((slot_t*)a - g_d); g_el[x] = (size_t)((slot_t*)b - g_d);       /* ghost */
}
void h_remove(void)
{
    init(); HV_ASSUME(g_n > 0);
    HV_ASSUME(valid(g_g) && valid(0) && valid(g_n - 1));
    slot_t r = g_d[0]; g_in = has() && r != g_e;
    g_o = r; g_x = g_ov = --g_n; g_tot--; g_fo = g_fx = 1; g_p0 = 0;
    cp_v_heap_extract_((cp_v_t*)&g_h, sizeof(slot_t), (int(*)(void const *, void const *, void *))cmp, &g_user);
    HV_ENSURE("remove.first_element_behind_the_end", g_d[g_n] == r);
    RESULT("remove");
}
#endif
#endif
int main(void) { return 0; }
