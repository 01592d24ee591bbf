#include <stdlib.h>
#include <assert.h>
#include <stdio.h>
#include "hv.h"
#include <hob3lbase/base-def.h>
#include <hob3lbase/list.h>

typedef struct node node_t;
struct node { node_t *next, *prev; };

/* The operations are macros: these are one-line callers of the real macro text. */
void w_init(node_t *x)
HV_REQUIRES(x != NULL)
HV_ASSIGNS(*x)
;
void w_init(node_t *x) { cp_list_init(x); }

/* frame: only the four links that the splice may change */
void w_chain(node_t *p, node_t *n)
HV_REQUIRES(p != NULL && n != NULL && p->next != NULL && n->prev != NULL)
HV_ASSIGNS(p->next, n->prev, p->next->prev, n->prev->next)
;
void w_chain(node_t *p, node_t *n) { cp_list_chain(p, n); }

void w_remove(node_t *q)
HV_REQUIRES(q != NULL && q->next != NULL && q->prev != NULL)
HV_ASSIGNS(*q, q->next->prev, q->prev->next)
;
void w_remove(node_t *q) { cp_list_remove(q); }

bool w_member(node_t *q)
HV_REQUIRES(q != NULL && q->next != NULL && q->prev != NULL)
HV_ASSIGNS()
;
bool w_member(node_t *q) { return cp_list_is_member(q); }

/* A heap of rings.  The operation touches the named nodes and their neighbours only (its frame,
 * enforced), so a universe with the named nodes p,n, their neighbours and one arbitrary further
 * node w with its neighbours decides the statement for every node of rings of any length. */
#define K 7
static node_t N[K];
static node_t old[K];
static bool wf(node_t const *x) { return x->next->prev == x && x->prev->next == x; }
static void mk(void)
{
    for (unsigned i = 0; i < K; i++) {
        N[i].next = &N[hv_range(0, K-1)];
        N[i].prev = &N[hv_range(0, K-1)];
    }
}
static void snap(void) { for (unsigned i = 0; i < K; i++) old[i] = N[i]; }

/* random well-formed universe for the native search: links from a permutation */
#ifdef HV_NATIVE
#define MK() do{ mk(); if (hv_native_random) perm(); }while(0)
extern int hv_native_random; extern void hv_set_at(size_t i, uint64_t v); extern size_t hv_pos(void);
static void perm(void)
{
    size_t base = hv_pos() - 2*K; unsigned a[K];
    for (unsigned i = 0; i < K; i++) a[i] = i;
    for (unsigned i = K-1; i > 0; i--) { unsigned j = (unsigned)(N[i].next - N) % (i+1); unsigned t = a[i]; a[i] = a[j]; a[j] = t; }
    for (unsigned i = 0; i < K; i++) { N[i].next = &N[a[i]]; N[a[i]].prev = &N[i]; }
    for (unsigned i = 0; i < K; i++) { hv_set_at(base + 2*i, (uint64_t)(N[i].next - N)); hv_set_at(base + 2*i + 1, (uint64_t)(N[i].prev - N)); }
}
#else
#define MK() mk()
#endif

void h_chain(void)
{
    MK();
    node_t *p = &N[hv_range(0, K-1)], *n = &N[hv_range(0, K-1)], *w = &N[hv_range(0, K-1)];
    node_t *a = p->next, *b = n->prev;
    HV_ASSUME(wf(p) && wf(n) && wf(a) && wf(b) && wf(w) && wf(w->next) && wf(w->prev));
    snap();
    node_t const *own = &old[w - N];
    w_chain(p, n);
    HV_ENSURE("chain.p_is_followed_by_n", p->next == n && n->prev == p);
    HV_ENSURE("chain.split_off_parts_are_joined", (n == a) || (b->next == a && a->prev == b));
    HV_ENSURE("chain.every_node_stays_linked_both_ways", wf(w));
    HV_ENSURE("chain.forward_order_of_all_other_nodes_is_kept", w == p || w == b || w->next == own->next);
    HV_ENSURE("chain.backward_order_of_all_other_nodes_is_kept", w == n || w == a || w->prev == own->prev);
    HV_REACH("chain");
    if (p != n && n != a && w != p && w != n && w != a && w != b) HV_REACH("chain_far");
}

/* inserting a singleton q after / before p, using the documented idiom */
void h_insert(void)
{
    MK();
    node_t *p = &N[hv_range(0, K-1)], *q = &N[hv_range(0, K-1)], *w = &N[hv_range(0, K-1)];
    HV_ASSUME(p != q && w != q);
    w_init(q);
    HV_ENSURE("init.singleton_ring", q->next == q && q->prev == q);
    HV_ASSUME(wf(p) && wf(p->next) && wf(w) && wf(w->next) && wf(w->prev));
    HV_ASSUME(p->next != q && p->prev != q && w->next != q && w->prev != q);
    snap();
    node_t *a = p->next; node_t const *own = &old[w - N];
    w_chain(p, q);
    HV_ENSURE("insert.between_p_and_its_successor", p->next == q && q->prev == p && q->next == a && a->prev == q);
    HV_ENSURE("insert.every_node_stays_linked_both_ways", wf(w));
    HV_ENSURE("insert.others_keep_order", (w == p || w->next == own->next) && (w == a || w->prev == own->prev));
    HV_ENSURE("insert.is_member", w_member(q));
    HV_REACH("insert");
}

void h_remove(void)
{
    MK();
    node_t *q = &N[hv_range(0, K-1)], *w = &N[hv_range(0, K-1)];
    HV_ASSUME(wf(q) && wf(q->next) && wf(q->prev) && wf(w) && wf(w->next) && wf(w->prev));
    snap();
    node_t *a = q->next, *b = q->prev; node_t const *own = &old[w - N];
    w_remove(q);
    HV_ENSURE("remove.leaves_a_singleton", q->next == q && q->prev == q && !w_member(q));
    HV_ENSURE("remove.neighbours_are_joined", a == q || (b->next == a && a->prev == b));
    HV_ENSURE("remove.every_node_stays_linked_both_ways", wf(w));
    HV_ENSURE("remove.others_keep_order", w == q || ((w == b || w->next == own->next) && (w == a || w->prev == own->prev)));
    HV_REACH("remove");
    if (a == b && a != q) HV_REACH("remove_from_pair");
}

void h_member(void)
{
    MK();
    node_t *q = &N[hv_range(0, K-1)];
    HV_ASSUME(wf(q));
    HV_ENSURE("is_member.iff_not_alone", w_member(q) == (q->next != q || q->prev != q));
    HV_REACH("member");
}

/* iteration: one step each (body of the loop header), i.e. start, continue condition, advance */
static unsigned walk(node_t *s, node_t **seen, bool rev, unsigned max)
{
    unsigned c = 0;
    if (rev) { for (cp_list_each_rev(i, s)) { if (c >= max) return max + 1; seen[c++] = i; } }
    else     { for (cp_list_each(i, s))     { if (c >= max) return max + 1; seen[c++] = i; } }
    return c;
}
void h_iterate(void)
{
    unsigned len = (unsigned)hv_range(1, K), st = (unsigned)hv_range(0, K-1);
    HV_ASSUME(st < len);
    for (unsigned i = 0; i < K; i++) { w_init(&N[i]); }
    for (unsigned i = 1; i < len; i++) w_chain(&N[i-1], &N[i]);
    node_t *seen[K+1];
    unsigned c = walk(&N[st], seen, false, K);
    HV_ENSURE("each.visits_all_others_once", c == len - 1);
    for (unsigned i = 0; i < K-1; i++) HV_ENSURE("each.in_ring_order", i >= c || seen[i] == &N[(st + 1 + i) % len]);
    c = walk(&N[st], seen, true, K);
    HV_ENSURE("each_rev.visits_all_others_once", c == len - 1);
    for (unsigned i = 0; i < K-1; i++) HV_ENSURE("each_rev.in_reverse_order", i >= c || seen[i] == &N[(st + 2*len - 1 - i) % len]);
    HV_REACH("iterate");
}
