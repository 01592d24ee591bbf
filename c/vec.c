#include <stdlib.h>
#include <assert.h>
#include <stdio.h>
#include "hv.h"
#include "hv_mem.h"
#include <hob3lbase/base-def.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/panic.h>

#ifndef ESZ
#define ESZ 1
#endif
#ifdef HV_NATIVE
#define MAXN 20
#else
#define MAXN ((size_t)1 << 40)
#endif

/* failure exits: a request may only be refused when it is not representable */
static bool g_may_panic;
void cp_panic(char const *file, int line, char const *fmt, ...)
{ (void)file; (void)line; (void)fmt; HV_ENSURE("panic.only_for_unrepresentable_requests", g_may_panic); HV_STOP(); }

/* allocator contract (cp_alloc_t.x_remalloc keeps the first ao*b bytes); see group "allocator" */
static void *al_remalloc(cp_alloc_t *m, void *p, size_t ao, size_t an, size_t b)
{
    (void)m;
    HV_ENSURE("alloc.request_is_representable", an <= SIZE_MAX / b);
    if (an <= ao) return p;
    return hvm_realloc(p, ao * b, an * b);
}
static void al_free(cp_alloc_t *m, void *p) { (void)m; if (p) hvm_release(p); }
static void *al_none(cp_alloc_t *m, size_t a, size_t b) { (void)m; (void)a; (void)b; return NULL; }
static void *al_none2(cp_alloc_t *m, void *p, size_t a, size_t b, size_t c) { (void)m; (void)p; (void)a; (void)b; (void)c; return NULL; }
static cp_alloc_t AL = { .x_malloc = al_none, .x_calloc = al_none, .x_recalloc = al_none2, .x_remalloc = al_remalloc, .x_free = al_free };

/* an arbitrary vector: size <= alloc, data NULL iff alloc 0 */
static void mk(cp_v_t *v)
{
    v->alloc = hv_range(0, MAXN);
    v->size = hv_range(0, MAXN);
    HV_ASSUME(v->size <= v->alloc);
    v->data = NULL;
    if (v->alloc) {
        v->data = hvm_block(v->alloc * ESZ, HVM_DST);
        hvm_fill(v->data, v->alloc * ESZ, HVM_DST);
    }
}
static bool inv(cp_v_t const *v) { return v->size <= v->alloc && (v->alloc == 0) == (v->data == NULL); }
static bool holds(cp_v_t const *v, size_t k, unsigned kind, size_t idx) { return hvm_holds((u8 const *)v->data + k, kind, idx); }
static size_t wit(void) { return hv_range(0, 4 * MAXN * ESZ); }

void h_inflate(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_range(0, MAXN), k = wit();
    HV_ASSUME(pos <= v.size);
    size_t os = v.size, oa = v.alloc;
    void *r = cp_v_inflate_(&AL, &v, ESZ, pos, n);
    HV_ENSURE("inflate.size", v.size == os + n);
    HV_ENSURE("inflate.capacity", inv(&v) && v.alloc >= oa);
    HV_ENSURE("inflate.returns_gap", n == 0 ? r == NULL : r == (u8*)v.data + pos * ESZ);
    if (k < pos * ESZ) HV_ENSURE("inflate.front_kept", holds(&v, k, HVM_DST, k));
    else if (k < (pos + n) * ESZ) HV_ENSURE("inflate.gap_is_zero", holds(&v, k, HVM_ZERO, 0));
    else if (k < v.size * ESZ) HV_ENSURE("inflate.tail_moved", holds(&v, k, HVM_DST, k - n * ESZ));
    HV_REACH("inflate");
    if (v.alloc > oa && k > (pos + n) * ESZ && k < v.size * ESZ) HV_REACH("inflate_grow");
}

/* requests that can never be served must fail, not allocate too little */
void h_inflate_huge(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_u64();
    HV_ASSUME(pos <= v.size && n > SIZE_MAX / ESZ - v.size);
    g_may_panic = true; HV_REACH("huge");
    cp_v_inflate_(&AL, &v, ESZ, pos, n);
    HV_ENSURE("inflate.unrepresentable_request_fails", false);
}
void h_resize_huge(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t n = hv_u64(); unsigned op = (unsigned)hv_range(0, 2);
    HV_ASSUME(n > SIZE_MAX / ESZ);
    g_may_panic = true; HV_REACH("huge");
    if (op == 0) cp_v_set_size_(&AL, &v, ESZ, n); else if (op == 1) cp_v_ensure_size_(&AL, &v, ESZ, n); else cp_v_clear_(&AL, &v, ESZ, n);
    HV_ENSURE("resize.unrepresentable_request_fails", false);
}

void h_resize(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t n = hv_range(0, MAXN), k = wit(), os = v.size, oa = v.alloc; unsigned op = (unsigned)hv_range(0, 2);
    if (op == 0) cp_v_set_size_(&AL, &v, ESZ, n);
    else if (op == 1) cp_v_ensure_size_(&AL, &v, ESZ, n);
    else cp_v_clear_(&AL, &v, ESZ, n);
    HV_ENSURE("resize.capacity", inv(&v) && v.alloc >= oa);
    if (op == 0) HV_ENSURE("set_size.size", v.size == n);
    if (op == 1) HV_ENSURE("ensure_size.size", v.size == (n > os ? n : os));
    if (op == 2) { HV_ENSURE("clear.empty", v.size == 0); HV_ENSURE("clear.preallocates", v.alloc >= n); }
    if (k < v.size * ESZ) {
        if (k < os * ESZ) HV_ENSURE("resize.kept", holds(&v, k, HVM_DST, k));
        else HV_ENSURE("resize.new_slots_zero", holds(&v, k, HVM_ZERO, 0));
    }
    HV_REACH("resize");
}

void h_copy_arr(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_range(0, MAXN), k = wit(), sp = hv_range(0, MAXN), os = v.size, oa = v.alloc;
    bool alias = hv_bool();
    HV_ASSUME(pos <= v.size);
    u8 *src;
    if (alias) { HV_ASSUME(v.data != NULL && sp <= v.size && n <= v.size - sp); src = (u8*)v.data + sp * ESZ; }
    else { src = hvm_block(n * ESZ, HVM_SRC); hvm_fill(src, n * ESZ, HVM_SRC); }
    cp_v_copy_arr_(&AL, &v, ESZ, pos, src, n);
    HV_ENSURE("copy.size", v.size == (pos + n > os ? pos + n : os));
    HV_ENSURE("copy.capacity", inv(&v) && v.alloc >= oa);
    if (k < v.size * ESZ) {
        if (k >= pos * ESZ && k < (pos + n) * ESZ)
            HV_ENSURE("copy.copied_elements", holds(&v, k, alias ? HVM_DST : HVM_SRC, k - pos * ESZ + (alias ? sp * ESZ : 0)));
        else HV_ENSURE("copy.others_kept", holds(&v, k, HVM_DST, k));
    }
    HV_REACH("copy");
    if (alias && v.alloc > oa) HV_REACH("copy_alias_grow");
#ifdef HV_NATIVE
    if (!alias) free(src);
#endif
}

void h_copy(void)
{
    hvm_init(); cp_v_t v, s; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_u64(), k = wit(), sp = hv_range(0, MAXN), os = v.size;
    bool alias = hv_bool();
    HV_ASSUME(pos <= v.size);
    s.size = s.alloc = hv_range(0, MAXN); s.data = NULL;
    if (s.size) { s.data = hvm_block(s.size * ESZ, HVM_SRC); hvm_fill(s.data, s.size * ESZ, HVM_SRC); }
    cp_v_t *sv = alias ? &v : &s;
    HV_ASSUME(sp <= sv->size);
    size_t m = sv->size - sp; if (n < m) m = n;
    cp_v_copy_(&AL, &v, ESZ, pos, sv, sp, n);
    HV_ENSURE("vcopy.size", v.size == (pos + m > os ? pos + m : os));
    HV_ENSURE("vcopy.capacity", inv(&v));
    if (k < v.size * ESZ) {
        if (k >= pos * ESZ && k < (pos + m) * ESZ)
            HV_ENSURE("vcopy.copied_elements", holds(&v, k, alias ? HVM_DST : HVM_SRC, k - pos * ESZ + sp * ESZ));
        else HV_ENSURE("vcopy.others_kept", holds(&v, k, HVM_DST, k));
    }
    HV_REACH("vcopy");
}

void h_insert_arr(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_range(0, MAXN), k = wit(), sp = hv_range(0, MAXN), os = v.size, oa = v.alloc;
    bool alias = hv_bool();
    HV_ASSUME(pos <= v.size);
    u8 *src;
    if (alias) { HV_ASSUME(v.data != NULL && sp <= v.size && n <= v.size - sp); src = (u8*)v.data + sp * ESZ; }
    else { src = hvm_block(n * ESZ, HVM_SRC); hvm_fill(src, n * ESZ, HVM_SRC); }
    void *r = cp_v_insert_arr_(&AL, &v, ESZ, pos, src, n);
    HV_ENSURE("insert.size", v.size == os + n);
    HV_ENSURE("insert.capacity", inv(&v) && v.alloc >= oa);
    HV_ENSURE("insert.returns_first_inserted", n == 0 ? r == NULL : r == (u8*)v.data + pos * ESZ);
    if (k < v.size * ESZ) {
        if (k < pos * ESZ) HV_ENSURE("insert.front_kept", holds(&v, k, HVM_DST, k));
        else if (k < (pos + n) * ESZ)
            HV_ENSURE("insert.inserted_elements_in_order", holds(&v, k, alias ? HVM_DST : HVM_SRC, k - pos * ESZ + (alias ? sp * ESZ : 0)));
        else HV_ENSURE("insert.tail_moved", holds(&v, k, HVM_DST, k - n * ESZ));
    }
    HV_REACH("insert");
    if (alias && sp < pos && pos < sp + n && v.alloc > oa) HV_REACH("insert_split");
#ifdef HV_NATIVE
    if (!alias) free(src);
#endif
}

void h_remove(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), n = hv_u64(), k = wit(), os = v.size, oa = v.alloc;
    HV_ASSUME(pos <= v.size);
    size_t m = n < os - pos ? n : os - pos;
    cp_v_remove_(&v, ESZ, pos, n);
    HV_ENSURE("remove.size", v.size == os - m);
    HV_ENSURE("remove.capacity", inv(&v) && v.alloc == oa);
    if (k < v.size * ESZ) HV_ENSURE("remove.rest_in_order", holds(&v, k, HVM_DST, k < pos * ESZ ? k : k + m * ESZ));
    HV_REACH("remove");
}

void h_extract(void)
{
    hvm_init(); cp_v_t v; mk(&v);
    size_t pos = hv_range(0, MAXN), k = wit(), os = v.size;
    HV_ASSUME(pos < v.size);
    u8 *e = hvm_block(ESZ, 0);
    cp_v_extract_(e, &v, ESZ, pos);
    HV_ENSURE("extract.size", v.size == os - 1 && inv(&v));
    if (k < v.size * ESZ) HV_ENSURE("extract.rest_in_order", holds(&v, k, HVM_DST, k < pos * ESZ ? k : k + ESZ));
    size_t j = hv_range(0, ESZ - 1);
    HV_ENSURE("extract.element", hvm_holds(e + j, HVM_DST, pos * ESZ + j));
    HV_REACH("extract");
#ifdef HV_NATIVE
    free(e);
#endif
}

#ifdef HV_CBMC
/* invariant of the doubling loop of v_grow */
bool inv_v_grow(cp_v_t *vec, size_t esz, size_t new_size, size_t new_alloc)
{
    return new_alloc >= 1 && new_alloc >= vec->alloc &&
        (new_alloc == vec->alloc || new_alloc == cp_v_min_alloc_() || (new_alloc / 2 < new_size && new_alloc <= cp_v_max_size_(esz)));
}
#endif
