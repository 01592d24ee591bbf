/* contracts for cp_f_get_int, cp_sin_deg, cp_cos_deg, cp_circle_iter_step (src/hob3lmat/algo.c, included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <hob3lmat/algo.h>
#include <hob3lmat/mat.h>
#include <hob3lbase/arith.h>
#include <algo.c>

/* ---- cp_f_get_int, all double bit patterns (CBMC, bit-precise) */
void h_get_int(void)
{
    double f = hv_f64();
    long long r = 0x5a5a5a5a5a5a5a5aLL;
    bool ok = cp_f_get_int(&r, f);
    bool inr = f == f && f < 9007199254740992.0 && f > -9007199254740992.0;
    if (ok) {
        HV_ENSURE("get_int.only_in_range", inr);
        HV_ENSURE("get_int.exact_value", (double)r == f && r != 0);
    } else {
        HV_ENSURE("get_int.rejected_only_if_not_an_integer", !inr || f == 0 || (double)(long long)f != f);
        HV_ENSURE("get_int.result_untouched_on_rejection", r == 0x5a5a5a5a5a5a5a5aLL);
    }
    HV_REACH("get_int");
}
/* every integer in range is recognised: stated from the integer's side */
void h_get_int2(void)
{
    long long k = hv_irange(-9007199254740991LL, 9007199254740991LL), r = 0;
    bool ok = cp_f_get_int(&r, (double)k);
    HV_ENSURE("get_int.accepts_every_integer", ok == (k != 0));
    HV_ENSURE("get_int.returns_the_integer", !ok || r == k);
    HV_REACH("get_int2");
}

/* ---- sine and cosine at integer angles: k is the angle, any integer in range */
static double g_s, g_c;
static long long g_k;
static bool g_isint;
#ifdef HV_CBMC
bool c_get_int(long long *ip, double f) { HV_ENSURE("trig.angle_passed_on", f == (double)g_k); if (g_k != 0) { *ip = g_k; return true; } return false; }
bool c_get_int_no(long long *ip, double f) { (void)ip; (void)f; return false; }
double c_sin(double x) { double r = hv_any_f64(); if (x == 0) HV_ASSUME(r == 0); return r; }
double c_cos(double x) { double r = hv_any_f64(); if (x == 0) HV_ASSUME(r == 1); return r; }
#endif
static bool twelfth(long long r, int *h)   /* sine of r degrees (0 <= r < 360) in halves, if rational */
{
    switch (r) {
    case 0: case 180: *h = 0; return true;
    case 30: case 150: *h = 1; return true;
    case 90: *h = 2; return true;
    case 210: case 330: *h = -1; return true;
    case 270: *h = -2; return true;
    default: return false;
    }
}
static long long in_k(void)
{
    long long k = hv_irange(-9007199254740991LL, 9007199254740991LL);
#ifdef HV_NATIVE
    extern int hv_native_random; extern void hv_fix_last(uint64_t v);
    if (hv_native_random && (k & 1)) { k = (k % 60000) * 30; hv_fix_last((uint64_t)k); }
#endif
    return k;
}
void h_sin(void)
{
    long long k = g_k = in_k(), r = k % 360; int h = 0;
    if (r < 0) r += 360;
    double s = cp_sin_deg((double)k);
    if (twelfth(r, &h)) HV_ENSURE("sin.exact_at_rational_angles", s * 2 == (double)h);
    HV_REACH("sin");
}
void h_cos(void)
{
    long long k = g_k = in_k(), r = k % 360; int h = 0;
    if (r < 0) r += 360;
    r += 90; if (r >= 360) r -= 360;
    double c = cp_cos_deg((double)k);
    if (twelfth(r, &h)) HV_ENSURE("cos.exact_at_rational_angles", c * 2 == (double)h);
    HV_REACH("cos");
}
/* any other angle: the library function at the angle in radians */
#ifdef HV_CBMC
static double g_sx, g_sr;
double c_lib(double x) { g_sx = x; g_sr = hv_any_f64(); return g_sr; }
#else
#define g_sx (x * (CP_PI / 180))
#define g_sr (fn ? cos(g_sx) : sin(g_sx))
#endif
void h_lib(void)
{
    double x = hv_f64();
#ifdef HV_NATIVE
    long long ii; HV_ASSUME(x == x && fabs(x) < 1e6 && !cp_f_get_int(&ii, x));
#endif
    int fn = 0;
    double s = cp_sin_deg(x);
    HV_ENSURE("sin.otherwise_library_in_radians", s == g_sr && g_sx == x * (CP_PI / 180));
    fn = 1;
    double c = cp_cos_deg(x);
    HV_ENSURE("cos.otherwise_library_in_radians", c == g_sr && g_sx == x * (CP_PI / 180));
    HV_REACH("lib");
}

/* ---- circle iterator: state after i steps; index order g: 0, 1, n-1, 2, n-2, ... */
static size_t g_of(size_t i, size_t n) { return (i & 1) ? (i + 1) / 2 : i == 0 ? 0 : n - i / 2; }
#ifdef HV_CBMC
static double g_ca, g_sa, g_cr, g_sr2; static int g_cn, g_sn;
double c_cos_deg(double a) { g_ca = a; g_cn++; g_cr = hv_any_f64(); return g_cr; }
double c_sin_deg(double a) { g_sa = a; g_sn++; g_sr2 = hv_any_f64(); return g_sr2; }
#  define AT(a, idx, n) ((a) * (double)(n) == 360.0 * (double)(idx))
#else
#  define AT(a, idx, n) 1
#endif
void h_step(void)
{
    size_t n = hv_range(1, 1ULL << 40), i = hv_range(0, 1ULL << 40);
    HV_ASSUME(i < n);
#ifdef HV_NATIVE
    n = n % 10000 + 1; i = i % n;
#endif
    cp_circle_iter_t it = CP_CIRCLE_ITER_INIT(n);
    HV_ENSURE("circle.starts_at_angle_zero", it.cos == 1 && it.sin == 0 && it.idx == 0 && it._i == 0);
    double c = 1, s = 0;
    if (i > 0) { c = hv_f64(); s = hv_f64(); it._i = i; it.idx = g_of(i, n); it.cos = c; it.sin = s; }
    HV_ASSUME(c == c && s == s);
    size_t idx = it.idx;
    cp_circle_iter_step(&it);
    HV_ENSURE("circle.counts_steps", it._i == i + 1);
    HV_ENSURE("circle.keeps_its_size", it._n == n);
    HV_ENSURE("circle.index_order", i + 1 >= n || it.idx == g_of(i + 1, n));
    if (i + 1 < n) {
        if ((i & 1) == 0) {
            size_t j = it.idx;
            if (2 * j == n) HV_ENSURE("circle.exact_at_half_turn", it.cos == -1 && it.sin == 0);
            else {
#ifdef HV_CBMC
                HV_ENSURE("circle.cosine_of_index_angle", g_cn == 1 && it.cos == g_cr && AT(g_ca, j, n));
                HV_ENSURE("circle.sine_of_index_angle", g_sn == 1 && it.sin == g_sr2 && AT(g_sa, j, n));
#else
                HV_ENSURE("circle.cosine_of_index_angle", fabs(it.cos - cos(2 * CP_PI * (double)j / (double)n)) < 1e-9);
                HV_ENSURE("circle.sine_of_index_angle", fabs(it.sin - sin(2 * CP_PI * (double)j / (double)n)) < 1e-9);
#endif
            }
        }
        else {
            HV_ENSURE("circle.mirrors_previous_point", it.cos == c && it.sin == -s && it.idx == n - idx);
        }
    }
    HV_REACH("step");
}
/* lemma: g is a bijection of [0,n) */
void h_order(void)
{
    size_t n = hv_range(1, 1ULL << 40), i = hv_range(0, 1ULL << 40), j = hv_range(0, 1ULL << 40);
    HV_ASSUME(i < n && j < n && i != j);
    HV_ENSURE("circle.order_in_range", g_of(i, n) < n);
    HV_ENSURE("circle.order_injective", g_of(i, n) != g_of(j, n));
    HV_REACH("order");
}
/* the loop that all users write: exactly n rounds, step by step */
void h_each(void)
{
    size_t n = hv_range(1, 1ULL << 40);
    bool ran = false;
    for (cp_circle_each(it, n)) { HV_ENSURE("circle.first_round_starts_at_zero", n > 0 && it._i == 0 && it.idx == 0); ran = true; break; }
    HV_ENSURE("circle.has_a_first_round", ran);
    HV_REACH("each");
}
