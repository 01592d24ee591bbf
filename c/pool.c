/* contracts for src/hob3lbase/pool.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <pool.c>
/* Memory is described by its state: of a block b, the bytes b->heap .. b->brk are zero and unused ("free zone"),
 * the rest was handed out since the last clear.  wf() is the block invariant. */
typedef cp_pool_block_t blk;
static size_t g_off[4];                     /* brk - heap of the blocks, as made */
static size_t off(blk *b) { return (size_t)(b->brk - b->heap); }
static bool wf(blk *b, size_t room) { return b->heap_size <= room && b->brk >= b->heap && off(b) <= b->heap_size; }
#ifdef HV_CBMC
#define ROOM (1ULL << 47)
#else
#define ROOM 5000
#endif
/* the free zone try_block_calloc may rely on, and the request */
static blk *g_b; static size_t g_old, g_n, g_s, g_a, g_hs; static bool g_chk;
bool c_is0(void *data, size_t size)
{
    char *p = data;
    HV_ENSURE("zeroed.checked_range_is_free_zone", g_b != NULL && p >= g_b->heap && p + size <= g_b->heap + g_old);
    HV_ENSURE("zeroed.whole_request_is_free_zone", size >= g_n * g_s);
    g_chk = 1; return 1;
}
/* a block with arbitrary state */
static blk *some_block(blk *b, size_t k)
{
    size_t hs = hv_range(0, ROOM), o = hv_range(0, hs);
#ifdef HV_NATIVE
    b = malloc(sizeof(*b) + hs); memset(b, 0, sizeof(*b)); memset(b->heap, 0, o); memset(b->heap + o, 0xa5, hs - o);
#endif
    b->heap_size = hs; b->brk = b->heap + o; b->next = NULL; g_off[k] = o; return b;
}
static blk *blk0(size_t k) { static blk b0, b1, b2, b3; return k == 0 ? &b0 : k == 1 ? &b1 : k == 2 ? &b2 : &b3; }
#ifdef HV_NATIVE
static size_t small(void) { extern int hv_native_random; extern void hv_fix_last(uint64_t v); size_t v = hv_u64(); if (hv_native_random) { if (v & 0x700) v &= 127; hv_fix_last(v); } return v; }
#endif
static size_t addr(void *p) { return (size_t)p & ~(size_t)0; }
void h_try(void)
{
    blk *b = some_block(blk0(0), 0), *nx = hv_bool() ? blk0(1) : NULL; b->next = nx;
#ifdef HV_CBMC
    size_t n = hv_u64(), s = hv_u64();
#else
    size_t n = small(), s = small();
#endif
    size_t a = 1, hs = b->heap_size, o = g_off[0];
    for (unsigned k = 0; k < 63; k++) { if (hv_bool()) break; a *= 2; }
    HV_ASSUME(n > 0 && s > 0);
    g_b = b; g_old = o; g_n = n; g_s = s;
    char *r = try_block_calloc(b, n, s, a);
    HV_ENSURE("alloc.block_header_unchanged", b->heap_size == hs && b->next == nx);
    if (r == NULL) {
        HV_ENSURE("alloc.refusal_changes_nothing", b->brk == b->heap + o);
        if (n <= hs / s && n * s <= o) HV_ENSURE("alloc.refused_only_if_it_does_not_fit", o - n * s < (addr(b->heap + (o - n * s)) & (a - 1)));
        HV_REACH("refused"); return;
    }
    HV_ENSURE("alloc.size_does_not_wrap", n <= hs / s);
    HV_ENSURE("alloc.within_the_block", r >= b->heap);
    HV_ENSURE("alloc.disjoint_from_earlier_allocations", r + n * s <= b->heap + o);
    HV_ENSURE("alloc.later_allocations_end_below", b->brk >= b->heap && b->brk <= r);
    HV_ENSURE("alloc.aligned", (addr(r) & (a - 1)) == 0);
#ifdef HV_NATIVE
    for (size_t i = 0; i < n * s; i++) HV_ENSURE("alloc.zeroed", r[i] == 0);
#endif
    HV_REACH("allocated");
}
void h_try_none(void)
{
    size_t n = hv_u64(), s = hv_u64(), a = hv_u64(); HV_ASSUME(n > 0 && s > 0);
    HV_ENSURE("alloc.no_block_no_memory", try_block_calloc(NULL, n, s, a) == NULL);
    HV_REACH("end");
}
/* clearing a block: the zero bytes afterwards are those of the free zone and those that were wiped */
static size_t g_from, g_to; static unsigned g_wipes;
void *c_memset(void *p, int c, size_t n)
{
    char *q = p;
    HV_ENSURE("clear.wipes_with_zero", c == 0);
    HV_ENSURE("clear.wipes_inside_the_block", q >= g_b->heap && q + n <= g_b->heap + g_hs && g_wipes == 0);
    g_wipes++; g_from = (size_t)(q - g_b->heap); g_to = g_from + n; return p;
}
void h_clear_block(void)
{
    blk *b = some_block(blk0(0), 0); g_b = b; g_hs = b->heap_size; size_t o = g_off[0], hs = g_hs, g = hv_range(0, ROOM);
    HV_ASSUME(g < hs);
    block_clear(b);
    HV_ENSURE("clear.whole_block_free", b->brk == b->heap + hs && b->heap_size == hs);
#ifdef HV_CBMC
    HV_ENSURE("clear.every_byte_zero", g < o || (g >= g_from && g < g_to));
#else
    HV_ENSURE("clear.every_byte_zero", b->heap[g] == 0);
#endif
    HV_ENSURE("clear.list_link_unchanged", b->next == NULL);
    HV_REACH("end");
}
#ifdef HV_NATIVE
void h_calloc(void)
{
    static cp_pool_t p; cp_pool_init(&p);
    struct { unsigned char *p; size_t n; } r[40]; size_t k = 0;
    if (hv_bool()) p.block_size = hv_range(1, 70000);
    for (unsigned i = 0; i < 40; i++) {
        unsigned w = hv_range(0, 30);
        if (w == 0) { cp_pool_clear(&p); k = 0; continue; }
        size_t n = hv_range(0, w < 4 ? 3000 : 40), s = hv_range(1, w < 6 ? 200 : 60), a = 1; for (unsigned j = hv_range(0, w < 3 ? 12 : 5); j > 0; j--) a *= 2;
        unsigned char *q = cp_pool_calloc("", 1, &p, n, s, a);
        if (n == 0) { HV_ENSURE("pool.empty_array_is_null", q == NULL); continue; }
        HV_ENSURE("pool.result_not_null", q != NULL);
        HV_ENSURE("alloc.aligned", ((size_t)q & (a - 1)) == 0);
        for (size_t x = 0; x < n * s; x++) HV_ENSURE("alloc.zeroed", q[x] == 0);
        for (size_t x = 0; x < k; x++) HV_ENSURE("alloc.disjoint_from_earlier_allocations", q + n * s <= r[x].p || r[x].p + r[x].n <= q);
        memset(q, 0x5a, n * s); r[k].p = q; r[k++].n = n * s;
    }
    cp_pool_fini(&p);
}
void h_next(void) { h_calloc(); }
void h_clear(void) { h_calloc(); }
void h_push_pop(void) { h_calloc(); }
void h_fini(void) { h_calloc(); }
#else
/* a byte of checked memory */
static size_t g_g, g_sz; static char const *g_m;
bool inv_is0(char const *i, char const *e, void *data)
{
    size_t k = (size_t)(i - g_m);
    return k <= g_sz && data == g_m && (g_g >= k || g_m[g_g] == 0);
}
void h_is0(void)
{
    size_t n = hv_range(0, 1ULL << 40), g = hv_range(0, 1ULL << 40); HV_ASSUME(g < n);
    char *d = hv_dyn(n, 1); g_m = d; g_sz = n; g_g = g;
    bool r = cp_mem_is0(d, n);
    if (r) HV_ENSURE("zeroed.true_only_if_every_byte_is_zero", d[g] == 0);
    HV_REACH("end");
}
/* growing an array that lives in a pool */
static cp_pool_t *g_pp; static char g_src[4], g_dst[4]; static size_t g_ao, g_cn, g_cz, g_z0, g_z1; static unsigned g_ncpy;
void *c_pcalloc(cp_alloc_t *m, size_t n, size_t s)
{
    HV_ENSURE("grow.new_array_of_the_new_size", m == g_pp->alloc && n == g_n && s == g_s); g_cz++; return hv_bool() ? (void*)g_dst : NULL;
}
void *c_memcpy(void *d, void const *q, size_t n)
{
    HV_ENSURE("grow.old_contents_copied", d == g_dst && q == g_src && n == g_ao * g_s && n > 0); g_ncpy++; return d;
}
void *c_wipe(void *d, int c, size_t n)
{
    g_z0 = (size_t)((char*)d - g_dst); g_z1 = g_z0 + n;
    HV_ENSURE("grow.wipes_only_the_new_part", c == 0 && g_z0 >= g_ao * g_s && g_z1 <= g_n * g_s && g_z1 >= g_z0); return d;
}
static void grow(void *(*f)(cp_alloc_t *, void *, size_t, size_t, size_t))
{
    static cp_pool_t p; g_pp = &p;
    size_t ao = hv_range(0, 1ULL << 40), an = hv_range(0, 1ULL << 40), s = hv_range(1, 1ULL << 20);
    void *old = ao == 0 && hv_bool() ? NULL : g_src; g_n = an; g_ao = ao; g_s = s;
    void *r = f(p.alloc, old, ao, an, s);
    if (an <= ao) { HV_ENSURE("grow.no_growth_same_memory", r == old && g_cz == 0 && g_ncpy == 0); HV_REACH("same"); return; }
    HV_ENSURE("grow.one_new_array", g_cz == 1 && (r == NULL || r == g_dst));
    if (r != NULL) HV_ENSURE("grow.old_contents_kept", g_ncpy == (ao > 0));
    HV_REACH("grown");
}
void h_remalloc(void) { grow(pool_remalloc); }
void h_recalloc(void) { grow(pool_recalloc); }
/* lists of blocks */
void h_push_pop(void)
{
    cp_pool_block_list_t l = {0}; blk *b = some_block(blk0(0), 0), *c = some_block(blk0(1), 1);
    bool two = hv_bool(); if (two) l.head = c;
    char *brk = b->brk; size_t hs = b->heap_size;
    block_push(&l, b);
    HV_ENSURE("list.pushed_in_front", l.head == b && b->next == (two ? c : NULL) && b->brk == brk && b->heap_size == hs && c->next == NULL);
    blk *r = block_pop(&l);
    HV_ENSURE("list.popped_from_front", r == b && r->next == NULL && l.head == (two ? c : NULL) && b->brk == brk && b->heap_size == hs && c->next == NULL);
    if (!two) { HV_ENSURE("list.empty", block_pop(&l) == NULL && l.head == NULL); HV_REACH("empty"); }
    HV_REACH("end");
}
/* a new block to allocate from */
static blk *g_new; static unsigned g_cnt, g_fin; static size_t g_bs; static cp_pool_block_list_t *g_fl;
static size_t g_got;
void *c_xcalloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s)
{
    HV_ENSURE("block.allocated_from_the_system", m == &cp_alloc_global && g_cnt == 0 && (n == 1 || s == 1));
    g_cnt++; g_got = n * s; g_new = calloc(1, sizeof(blk)); return g_new;
}
void c_fini(cp_pool_block_list_t *l)
{
    HV_ENSURE("block.only_free_blocks_discarded", l == g_fl);
    g_fin++; l->head = NULL;
}
void h_next(void)
{
    cp_pool_t p = {0}; size_t bs = hv_range(1, ROOM); HV_ASSUME(bs > sizeof(blk));
    blk *u = some_block(blk0(0), 0), *f = NULL, *f2 = NULL; g_fl = &p.free;
    if (hv_bool()) { p.used.head = u; }
    if (hv_bool()) { f = some_block(blk0(1), 1); f->brk = f->heap + f->heap_size; p.free.head = f;
        if (hv_bool()) { f2 = some_block(blk0(2), 2); f2->brk = f2->heap + f2->heap_size; f->next = f2; } }
    blk *uh = p.used.head; size_t fh = f ? f->heap_size : 0; char *ub = u->brk;
    blk *r = block_next("", 1, &p, bs);
    HV_ENSURE("block.never_null", r != NULL);
    HV_ENSURE("block.not_linked", r->next == NULL);
    HV_ENSURE("block.large_enough", r->heap_size >= bs - sizeof(blk));
    HV_ENSURE("block.entirely_free", r->brk == r->heap + r->heap_size);
    if (g_cnt) HV_ENSURE("block.heap_within_allocation", r == g_new && r->heap_size <= g_got - sizeof(blk) && g_got >= sizeof(blk));
    else HV_ENSURE("block.reused_from_free_list", f != NULL && r == f && r->heap_size == fh && p.free.head == f2);
    HV_ENSURE("block.not_also_in_a_list", p.free.head != r && p.used.head == uh && u->brk == ub);
    HV_REACH("end");
}
/* the public allocation function: the parts above by their contracts */
static blk *g_b1, *g_first; static size_t g_tries, g_nexts; static void *g_r; static cp_pool_t *g_p; static size_t g_pbs0;
static bool g_fresh; static bool g_easy;
void *c_try(blk *b, size_t n, size_t s, size_t a)
{
    HV_ENSURE("pool.request_passed_on", n == g_n && s == g_s && a == g_a);
    HV_ENSURE("pool.current_block_used", b == g_p->used.head);
    g_tries++; g_r = NULL;
    if (b == NULL) return NULL;
    HV_ENSURE("pool.block_invariant", wf(b, ROOM) && g_r == NULL);
    if (g_fresh && g_easy) {
        HV_ENSURE("pool.fresh_block_is_large_enough", b->heap_size / s >= n && b->heap_size >= n * s + (a - 1));
        size_t o = hv_range(0, ROOM); HV_ASSUME(o <= off(b)); b->brk = b->heap + o; g_r = b->brk;
    }
    else if (hv_bool()) { size_t o = hv_range(0, ROOM); HV_ASSUME(o < off(b)); b->brk = b->heap + o; g_r = b->brk; }
    return g_r;
}
blk *c_next(char const *f, int l, cp_pool_t *p, size_t bs)
{
    HV_ENSURE("pool.block_size_usable", p == g_p && bs == p->block_size);
    if (bs <= sizeof(blk) || bs > ROOM) HV_STOP();      /* system out of memory: fails loudly */
    blk *b = blk0(1 + g_nexts); HV_ENSURE("pool.bounded_number_of_blocks", g_nexts < 3); g_nexts++;
    b->next = NULL; b->heap_size = hv_range(0, ROOM); HV_ASSUME(b->heap_size >= bs - sizeof(blk)); b->brk = b->heap + b->heap_size; g_fresh = 1;
    return b;
}
bool g_died;
void c_panic(char const *f, int l, char const *m, ...)
{
    HV_ENSURE("pool.reasonable_requests_succeed", !g_easy);
    g_died = 1; HV_STOP();
}
bool inv_grow(size_t nmemb, size_t size1, cp_pool_t *pool) { return pool == g_p && pool->block_size >= g_pbs0 && pool->block_size > 0; }
void h_calloc(void)
{
    static cp_pool_t p; g_p = &p; p.free.head = NULL; p.used.head = NULL;
    size_t n = hv_u64(), s = hv_u64(), a = hv_u64();
    HV_ASSUME(s > 0);
#ifdef EASY
    HV_ASSUME(n > 0 && n <= (1ULL << 16) && s <= (1ULL << 16) && a >= 1 && a <= 4096); g_easy = 1;
    g_pbs0 = 1 << 20;
    p.block_size = hv_bool() ? 0 : hv_range(1 << 20, 1ULL << 40);
#else
    p.block_size = hv_u64(); g_pbs0 = p.block_size;
#endif
    g_n = n; g_s = s; g_a = a;
    blk *b = NULL; if (hv_bool()) { b = some_block(blk0(0), 0); p.used.head = b; }
    void *r = cp_pool_calloc("", 1, &p, n, s, a);
    if (n == 0) { HV_ENSURE("pool.empty_array_is_null", r == NULL && g_tries == 0 && p.used.head == b); HV_REACH("empty"); return; }
    HV_ENSURE("pool.result_is_the_allocation", r != NULL && r == g_r && g_tries >= 1);
    HV_ENSURE("pool.new_blocks_in_front_of_used", g_nexts == 0 ? p.used.head == b : p.used.head == blk0(g_nexts) && p.used.head->next == (g_nexts == 1 ? b : blk0(g_nexts - 1)));
    HV_REACH("end");
}
/* emptying and ending a pool (lists of up to 3 blocks) */
static unsigned g_clr; static blk *g_clrd[4]; static unsigned g_freed; static void *g_fr[4];
void c_clear(blk *b) { HV_ENSURE("clear.block_invariant", wf(b, ROOM)); b->brk = b->heap + b->heap_size; g_clr++; }
void c_free(char const *f, int l, cp_alloc_t *m, void *p)
{
    HV_ENSURE("fini.given_back_to_the_system", m == &cp_alloc_global && p != NULL);
    for (unsigned i = 0; i < g_freed; i++) HV_ENSURE("fini.freed_once", g_fr[i] != p);
    if (g_freed < 4) g_fr[g_freed] = p;
    g_freed++;
}
void h_clear(void)
{
    static cp_pool_t p; p.free.head = p.used.head = NULL; p.block_size = hv_u64(); size_t bs = p.block_size;
    unsigned nu = 0, nf = 0;
    for (unsigned k = 0; k < 3; k++) { if (!hv_bool()) break; blk *b = some_block(blk0(k), k); b->next = p.used.head; p.used.head = b; nu++; }
    if (hv_bool()) { blk *b = some_block(blk0(3), 3); b->brk = b->heap + b->heap_size; p.free.head = b; nf++; }
    cp_pool_clear(&p);
    HV_ENSURE("clear.no_used_blocks_left", p.used.head == NULL && p.block_size == bs);
    unsigned k = 0; bool seen[4] = {0};
    for (blk *b = p.free.head; b != NULL; b = b->next) {
        HV_ENSURE("clear.no_block_twice", k < nu + nf); k++;
        HV_ENSURE("clear.all_free_blocks_empty", b->brk == b->heap + b->heap_size);
    }
    HV_ENSURE("clear.all_blocks_kept", k == nu + nf && g_clr == nu);
    HV_REACH("end");
}
void h_fini(void)
{
    static cp_pool_t p; p.free.head = p.used.head = NULL;
    unsigned nu = 0, nf = 0;
    for (unsigned k = 0; k < 3; k++) { if (!hv_bool()) break; blk *b = some_block(blk0(k), k); b->next = p.used.head; p.used.head = b; nu++; }
    if (hv_bool()) { blk *b = some_block(blk0(3), 3); b->brk = b->heap + b->heap_size; p.free.head = b; nf++; }
    cp_pool_fini(&p);
    HV_ENSURE("fini.lists_empty", p.used.head == NULL && p.free.head == NULL);
    HV_ENSURE("fini.all_blocks_freed", g_freed == nu + nf);
    HV_REACH("end");
}
#endif
/* natural alignment of pool memory requested through the generic allocator interface */
static size_t g_al; static unsigned g_calls;
#ifdef HV_CBMC
void *c_pool(char const *f, int l, cp_pool_t *pool, size_t n, size_t s, size_t a)
{
    HV_ENSURE("generic.same_pool_and_size", pool == g_pp && n == g_n && s == g_s); g_al = a; g_calls++; return g_dst;
}
#endif
#ifdef HV_CBMC
size_t c_size_align(size_t x)
{
    size_t r = 1; for (unsigned k = 0; k < 63; k++) { if (hv_bool()) break; r *= 2; }
    HV_ENSURE("generic.size_not_zero", x != 0);
    HV_ASSUME((x & (r - 1)) == 0 && ((x / r) & 1) != 0); return r;
}
void h_generic(void)
{
    static cp_pool_t p; g_pp = &p; g_n = hv_u64(); g_s = hv_u64(); HV_ASSUME(g_s > 0);
    void *r = hv_bool() ? pool_calloc(p.alloc, g_n, g_s) : pool_malloc(p.alloc, g_n, g_s);
    HV_ENSURE("generic.passed_to_the_pool", r == g_dst && g_calls == 1);
    /* the alignment is a power of two, and every alignment up to that of max_align_t that divides the object size is respected */
    HV_ENSURE("generic.alignment_is_power_of_two", g_al != 0 && (g_al & (g_al - 1)) == 0);
    for (size_t t = 1; t <= _Alignof(max_align_t); t *= 2) if (g_s % t == 0) HV_ENSURE("generic.aligned_for_every_type_of_that_size", g_al % t == 0);
    HV_REACH("end");
}
void h_size_align(void)
{
    size_t x = hv_u64(), r = cp_size_align(x); HV_ASSUME(x != 0);
    HV_ENSURE("align.power_of_two", r != 0 && (r & (r - 1)) == 0);
    HV_ENSURE("align.divides_the_size", (x & (r - 1)) == 0 && (x & r) != 0);
    HV_REACH("end");
}
void h_align(void)
{
    size_t n = hv_u64(), k = hv_range(0, 63), a = (size_t)1 << k;
    size_t d = cp_align_down(n, a), dd = cp_align_down_diff(n, a);
    HV_ENSURE("align.down", d <= n && n - d < a && (d & (a - 1)) == 0);
    HV_ENSURE("align.down_diff", dd == n - d);
    if (n <= ~(size_t)0 - (a - 1)) {
        size_t u = cp_align_up(n, a);
        HV_ENSURE("align.up", u >= n && u - n < a && (u & (a - 1)) == 0);
        HV_ENSURE("align.up_diff", cp_align_up_diff(n, a) == u - n);
    }
    HV_REACH("end");
}
#endif
