/* contracts for cp_range_init (include/hob3lbase/arith.h), cp_csg2_stack_get_layer (src/hob3l/csg2-layer.c)
 * and the layer heights of cp_csg2_tree_from_csg3 (src/hob3l/csg2-tree.c) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <hob3lmat/algo.h>
#include <hob3lmat/mat.h>
#include <hob3lbase/arith.h>
#ifdef LAYER
#include <csg2-layer.c>
#endif
#ifdef TREE
#include <csg2-tree.c>
#endif
#define EPS CP_EQ_EPSILON_DEFAULT
#ifdef HV_CBMC
static double num(void) { return hv_f64(); }
#  define NEAR(c) (c)
double cp_eq_epsilon = CP_EQ_EPSILON_DEFAULT;
#  define TOL 0
#else
#  define TOL 1e-9
static double num(void)
{
    extern int hv_native_random; extern void hv_fix_last(uint64_t v);
    union { uint64_t u; double d; } x; x.u = hv_in();
    if (hv_native_random) { int64_t k = (int64_t)(x.u << 1) % 4001; x.d = (x.u >> 40) % 4 == 0 ? (double)k * 1e-5 : (x.u >> 50) % 8 == 0 ? (double)k * 1e-6 + 1 : (double)k / 8.0; hv_fix_last(x.u); }
    HV_ASSUME(x.d == x.d && fabs(x.d) < 1e15);
    return x.d;
}
#endif

void h_range(void)
{
    double mn = num(), mx = num(), st = num();
    HV_ASSUME(st > 0);
    HV_ASSUME((mx - mn) / st <= 4503599627370496.0);
#ifdef HV_NATIVE
    HV_ASSUME(fabs(mn) < 1e6 && fabs(mx) < 1e6 && st > 1e-6);
#endif
    cp_range_t r = { .min = num(), .step = num(), .cnt = (size_t)hv_u32() };
    cp_range_init(&r, mn, mx, st);
    double c = (double)r.cnt, h = mx - mn, q = h / st;
    HV_ENSURE("range.step_kept", r.step == st);
    if (h < EPS && h > -EPS) {
        HV_ENSURE("range.one_layer_if_flat", r.cnt == 1 && r.min == mn);
    }
    else if (mn > mx) {
        HV_ENSURE("range.none_if_maximum_below_minimum", r.cnt == 0);
    }
    else {
        HV_ENSURE("range.starts_at_minimum", r.min == mn);
        HV_ENSURE("range.covers_the_height", c >= q - EPS - TOL);
        HV_ENSURE("range.no_layer_beyond_the_height", c - 1 < q - EPS + TOL);
    }
    HV_REACH("range");
}

#ifdef LAYER
void h_get_layer(void)
{
    size_t n = hv_range(0, 1ULL << 40), i0 = hv_u64(), zi = hv_u64();
#ifdef HV_NATIVE
    n %= 16;
    if (hv_in() & 1) { extern int hv_native_random; if (hv_native_random) { } zi = i0 + zi % 24 - 4; }
    cp_csg2_layer_t *d = calloc(n + 1, sizeof(*d));
#else
    cp_csg2_layer_t *d = hv_dyn(n, sizeof(cp_csg2_layer_t));
#endif
    cp_csg2_stack_t c = { .idx0 = i0, .layer = { .data = d, .size = n } };
    cp_csg2_layer_t *l = cp_csg2_stack_get_layer(&c, zi);
    bool in = zi >= i0 && zi - i0 < n;
    HV_ENSURE("layer.found_exactly_inside_the_stored_range", (l != NULL) == in);
    if (in) HV_ENSURE("layer.is_the_one_at_its_index", l == &d[zi - i0]);
    HV_ENSURE("layer.stack_unchanged", c.idx0 == i0 && c.layer.size == n && c.layer.data == d);
    HV_REACH("get_layer");
#ifdef HV_NATIVE
    free(d);
#endif
}
#endif

#ifdef TREE
/* witness layer: stands for every layer */
static size_t g_w; static double g_zw;
#ifdef HV_CBMC
void *c_calloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s) { (void)f; (void)l; (void)m; return calloc(n, s); }
bool inv_z(cp_csg2_tree_t *r, cp_range_t const *s, size_t zi)
{
    return r->z.size == s->cnt && r->flag.size == s->cnt && r->thick == s->step && zi <= s->cnt && (zi <= g_w || r->z.data[g_w] == g_zw);
}
static size_t g_from;
void c_from_v(cp_csg2_tree_t *r, cp_range_t const *s, cp_v_obj_p_t *c, cp_v_obj_p_t const *d) { (void)r; (void)s; (void)c; (void)d; g_from++; }
#endif
void h_heights(void)
{
    cp_range_t s = { .min = num(), .step = num(), .cnt = hv_range(1, 1ULL << 40) };
#ifdef HV_NATIVE
    s.cnt = s.cnt % 50 + 1;
#endif
    cp_csg2_tree_t r; memset(&r, 0, sizeof(r));
    cp_csg3_tree_t d; memset(&d, 0, sizeof(d));
    cp_csg_add_t root; memset(&root, 0, sizeof(root)); root.type = CP_CSG_ADD;
#ifdef HV_CBMC
    if (hv_bool()) d.root = (void*)&root;
#endif
    g_w = hv_range(0, 1ULL << 40);
#ifdef HV_NATIVE
    g_w %= s.cnt;
#endif
    HV_ASSUME(g_w < s.cnt);
    g_zw = s.min + s.step * (double)g_w;
    cp_csg2_tree_from_csg3(&r, &d, &s, NULL);
    HV_ENSURE("heights.one_per_layer", r.z.size == s.cnt && r.flag.size == s.cnt);
    HV_ENSURE("heights.minimum_plus_step_times_index", r.z.data[g_w] == g_zw);
    HV_ENSURE("heights.thickness_is_the_step", r.thick == s.step);
    HV_REACH("heights");
}
void h_stack(void)
{
    cp_range_t s = { .min = num(), .step = num(), .cnt = hv_range(1, 1ULL << 40) };
#ifdef HV_NATIVE
    s.cnt = s.cnt % 50 + 1;
#endif
    cp_csg3_sphere_t d; memset(&d, 0, sizeof(d)); d.type = CP_CSG3_SPHERE;
    cp_csg2_stack_t *c = (cp_csg2_stack_t*)csg2_tree_from_csg3_obj(&s, (cp_csg3_t*)&d);
    HV_ENSURE("stack.holds_every_layer_of_the_range", c->idx0 == 0 && c->layer.size == s.cnt && c->csg3 == (cp_csg3_t*)&d);
    HV_REACH("stack");
}
#endif
