/* contracts for src/hob3lop/gon.c, include/hob3lop/gon.h (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include "hv.h"
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>

/* failure exit: reached only where the contract of the operation allows it */
static bool g_fail_ok;
static void hv_fail_exit(void) { HV_ENSURE("import.fails_only_if_not_representable", g_fail_ok); HV_STOP(); }
void cq_overflow_fail_(char const *f, int l, char const *m) { (void)f; (void)l; (void)m; hv_fail_exit(); while (1) {} }
void cq_fail(char const *m) { (void)m; hv_fail_exit(); while (1) {} }
#include <gon.c>

static double bits(uint64_t u) { union { uint64_t u; double d; } x; x.u = u; return x.d; }
/* grid scale: any power of two from 2^-20 to 2^40 (the default is 2^13) */
static void mk_scale(void) { cq_dim_scale = bits((uint64_t)(1023 + hv_irange(-20, 40)) << 52); }
static bool fin(double v) { return v == v && v - v == 0.0; }

void h_import(void)
{
    mk_scale();
    double v = hv_f64();
    double x = v * cq_dim_scale;     /* exact: the scale is a power of two; tiny and huge values: see below */
    /* representable: finite and the nearest coordinate is within +-CQ_DIM_MAX */
    bool inside = fin(v) && x < 2147483647.25 && x > -2147483647.25, outside = !fin(v) || x > 2147483647.75 || x < -2147483647.75;
    g_fail_ok = !inside;
    cq_dim_t r = cq_import_dim(v);
    HV_ENSURE("import.fails_if_not_representable", !outside);
    double e = x - (double)r;        /* exact: both are close */
    HV_ENSURE("import.nearest", e < 0.5 && e > -0.5000015);
    HV_ENSURE("import.ties_round_up", e < 0.4999995 || x > 1048576.0 || x < -1048576.0);
    HV_ENSURE("import.exact_on_grid", e == 0 || (e > -0.5000015 && x != (double)r));
    HV_REACH("import");
}
void h_export_back(void)
{
    mk_scale();
    double v = hv_f64();
    double x = v * cq_dim_scale;
    HV_ASSUME(fin(v) && x < 2147483647.25 && x > -2147483647.25);
    g_fail_ok = false;
    cq_dim_t r = cq_import_dim(v);
    double w = cq_export_dim(r), d = (v - w) * cq_dim_scale;
    HV_ENSURE("export.within_half_a_grid_unit", d < 0.500002 && d > -0.500002);
    HV_REACH("export_back");
}
void h_roundtrip(void)
{
    mk_scale();
    cq_dim_t i = hv_i32();
    HV_ASSUME(i != CQ_DIM_MIN);
    g_fail_ok = false;
    double w = cq_export_dim(i);
    HV_ENSURE("export.exact", w * cq_dim_scale == (double)i);
    HV_ENSURE("roundtrip.unchanged", cq_import_dim(w) == i);
    HV_REACH("roundtrip");
}
void h_vec(void)
{
    mk_scale();
    cq_vec2_t i; i.x = hv_i32(); i.y = hv_i32();
    HV_ASSUME(i.x != CQ_DIM_MIN && i.y != CQ_DIM_MIN);
    g_fail_ok = false;
    cp_vec2_t f = cq_export_vec2(&i);
    HV_ENSURE("export_vec2", f.x == cq_export_dim(i.x) && f.y == cq_export_dim(i.y));
    cq_vec2_t j = cq_import_vec2(&f);
    HV_ENSURE("import_vec2", j.x == i.x && j.y == i.y);
    HV_REACH("vec");
}
/* ---------------------------------------------------------------- P06: minimum/maximum */
static int32_t mn(int32_t a, int32_t b) { return a < b ? a : b; }
static int32_t mx(int32_t a, int32_t b) { return a > b ? a : b; }
static cq_vec2_t in_v(void) { cq_vec2_t v; v.x = hv_i32(); v.y = hv_i32(); return v; }
static bool same(cq_vec2_minmax_t a, cq_vec2_minmax_t b) { return a.min.x == b.min.x && a.min.y == b.min.y && a.max.x == b.max.x && a.max.y == b.max.y; }
static cq_vec2_minmax_t spec_mm(cq_vec2_minmax_t r, cq_vec2_t v)
{ r.min.x = mn(r.min.x, v.x); r.min.y = mn(r.min.y, v.y); r.max.x = mx(r.max.x, v.x); r.max.y = mx(r.max.y, v.y); return r; }
void h_minmax(void)
{
    cq_vec2_minmax_t r; r.min = in_v(); r.max = in_v();
    cq_vec2_minmax_t e = r, q = r;
    cq_line2_t l; l.a = in_v(); l.b = in_v();
    cq_vec2_minmax(&r, &l.a);
    HV_ENSURE("vec2_minmax", same(r, spec_mm(e, l.a)));
    cq_line2_minmax(&q, &l);
    HV_ENSURE("line2_minmax", same(q, spec_mm(spec_mm(e, l.a), l.b)));
    HV_REACH("minmax");
}
#define NV 3
void h_minmax_vec(void)
{
    cq_line2_t a[NV]; size_t n = hv_range(0, NV);
    for (size_t i = 0; i < NV; i++) { a[i].a = in_v(); a[i].b = in_v(); }
    cq_vec2_minmax_t r; r.min = in_v(); r.max = in_v();
    cq_vec2_minmax_t e = r, q = r;
    cq_v_line2_t v = {0}; v.data = a; v.size = n; v.alloc = NV;
    cq_v_vec2_t u = {0}; u.data = (cq_vec2_t*)a; u.size = n; u.alloc = NV;
    for (size_t i = 0; i < n; i++) e = spec_mm(spec_mm(e, a[i].a), a[i].b);
    cq_v_line2_minmax(&r, &v);
    HV_ENSURE("v_line2_minmax", same(r, e));
    e = q;
    for (size_t i = 0; i < n; i++) e = spec_mm(e, u.data[i]);
    cq_v_vec2_minmax(&q, &u);
    HV_ENSURE("v_vec2_minmax", same(q, e));
    HV_REACH("minmax_vec");
}
