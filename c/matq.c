/* contracts for src/hob3lop/matq.c, include/hob3lop/matq.h (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>

typedef __int128 W;
typedef unsigned __int128 UW;

/* failure exits: reached only where the contract of the operation allows it */
static bool g_fail_ok;
static void hv_fail_exit(void) { HV_ENSURE("overflow.only_if_not_representable", g_fail_ok); HV_STOP(); }
void cq_fail(char const *m) { (void)m; hv_fail_exit(); while (1) {} }
char const *cq_dim_scale_str_(char *d, size_t n) { (void)n; return d; }
static int hv_noprint(void) { return 0; }
#define abort() hv_fail_exit()
#define exit(x) hv_fail_exit()
#define fprintf(...) hv_noprint()
#include <matq.c>

static W wabs(W x) { return x < 0 ? -x : x; }
static bool fits32(W x) { return x >= CQ_DIM_MIN && x <= CQ_DIM_MAX; }
static bool fits64(W x) { return x >= -((W)1 << 63) && x < ((W)1 << 63); }
static cq_udimw_t in_u64(void) { uint32_t h = hv_u32(), l = hv_u32(); return ((uint64_t)h << 32) | l; }

/* ---------------------------------------------------------------- P01 */
void h_divmod(void)
{
    cq_dim_t x = hv_i32(), d = hv_i32();
    HV_ASSUME(d != 0 && !(x == CQ_DIM_MIN && d == -1));
    cq_divmod_t r = cq_divmod(x, d);
    HV_ENSURE("divmod.value", (W)r.div * d + r.mod == x);
    HV_ENSURE("divmod.remainder", r.mod >= 0 && r.mod < wabs(d));
    HV_ENSURE("divmod.div_mod", cq_div(x, d) == r.div && cq_mod(x, d) == r.mod);
    HV_REACH("divmod");
}
void h_divmodw(void)
{
    cq_dimw_t x = hv_i64(), d = hv_i64();
    HV_ASSUME(d != 0 && !(x == INT64_MIN && d == -1));
    cq_divmodw_t r = cq_divmodw(x, d);
    HV_ENSURE("divmodw.value", (W)r.div * d + r.mod == x);
    HV_ENSURE("divmodw.remainder", r.mod >= 0 && r.mod < wabs(d));
    HV_ENSURE("divmodw.div_mod", cq_divw(x, d) == r.div && cq_modw(x, d) == r.mod);
    HV_REACH("divmodw");
}
void h_divmodx(void)
{
    cq_dimw_t x = hv_i64(); cq_dim_t d = hv_i32();
    HV_ASSUME(d != 0 && !(x == INT64_MIN && d == -1));
    W q = (W)x / d, m = (W)x % d;
    if (m < 0) { if (d > 0) q = q - 1; else q = q + 1; }
    g_fail_ok = !fits32(q);
    cq_divmod_t r = cq_divmodx(x, d);
    HV_ENSURE("divmodx.fails_if_not_representable", fits32(q));
    HV_ENSURE("divmodx.value", (W)r.div * d + r.mod == x);
    HV_ENSURE("divmodx.remainder", r.mod >= 0 && r.mod < wabs(d));
    HV_ENSURE("divmodx.div_mod", cq_divx(x, d) == r.div && cq_modx(x, d) == r.mod);
    HV_REACH("divmodx");
}
void h_divw_rnd(void)
{
    cq_dimw_t x = hv_i64(), d = hv_i64();
    HV_ASSUME(d > 0);
    cq_dimw_t r = cq_divw_rnd(x, d);
    HV_ENSURE("divw_rnd.nearest_not_too_small", 2 * (W)x - 2 * (W)r * d < d);
    HV_ENSURE("divw_rnd.nearest_half_up", 2 * (W)x - 2 * (W)r * d >= -(W)d);
    HV_REACH("divw_rnd");
}
void h_round(void)
{
    cq_dimif_t x; x.i = hv_i32(); x.n = hv_u64(); x.d = hv_u64();
    HV_ASSUME(x.n < x.d);
    g_fail_ok = x.i == CQ_DIM_MAX && 2 * (UW)x.n >= x.d;
    cq_dim_t r = cq_round(&x);
    HV_ENSURE("round.fails_if_not_representable", !g_fail_ok);
    /* the pixel r covers [r-1/2, r+1/2) */
    W k = (W)r - x.i;
    HV_ENSURE("round.same_or_next_pixel", k == 0 || k == 1);
    HV_ENSURE("round.lower_half", k != 0 || 2 * (UW)x.n < x.d);
    HV_ENSURE("round.upper_half", k != 1 || 2 * (UW)x.n >= x.d);
    HV_REACH("round");
}

/* ---------------------------------------------------------------- P02 */
static UW ev(cq_udime_t e) { return ((UW)e.hi << 32) | e.lo; }
static cq_udime_t in_e(void) { cq_udime_t e; e.hi = in_u64(); e.lo = hv_u32(); return e; }

void h_mul_aux(void)
{
    cq_udimw_t a = in_u64(), b = in_u64();
    UW p = (UW)a * b;
    cq_udimq_t r = cq_udimw_mul_aux(a, b);
    HV_ENSURE("mul_aux.exact", ((UW)cq_udimq_max(r) << 64) + cq_udimq_min(r) == p);
    cq_udimq_t s = cq_udimw_mul(a, b);
    HV_ENSURE("mul.exact", ((UW)cq_udimq_max(s) << 64) + cq_udimq_min(s) == p);
    HV_REACH("mul");
}
void h_quad(void)
{
    cq_udimw_t a = hv_u64(), b = hv_u64(), c = hv_u64(), d = hv_u64();
    cq_udimq_t x = cq_udimq(a, b), y = cq_udimq(c, d);
    HV_ENSURE("quad.parts", cq_udimq_max(x) == a && cq_udimq_min(x) == b);
    int k = cq_udimq_cmp(x, y);
    int e = a < c ? -1 : a > c ? +1 : b < d ? -1 : b > d ? +1 : 0;
    HV_ENSURE("quad.cmp", k == e);
    HV_ENSURE("quad.eq", (cq_udimq_eq(x, y) != 0) == (e == 0));
    HV_REACH("quad");
}
void h_word(void)
{
    cq_udimw_t a = hv_u64();
    HV_ENSURE("word.hi_lo", cq_udimw(cq_udimw_hi(a), cq_udimw_lo(a)) == a);
    HV_ENSURE("word.hi", cq_udimw_hi(a) == a / ((uint64_t)1 << 32));
    uint32_t h = hv_u32(), l = hv_u32();
    HV_ENSURE("word.make", cq_udimw(h, l) == h * ((uint64_t)1 << 32) + l);
    uint32_t r, s = h;
    bool o = cq_udim_add_ovf(&r, h, l);
    HV_ENSURE("word.add_carry", r + ((uint64_t)o << 32) == (uint64_t)h + l);
    o = cq_udim_sub_ovf(&r, h, l);
    HV_ENSURE("word.sub_borrow", (W)r - ((W)o << 32) == (W)s - l);
    HV_REACH("word");
}
void h_udime_add(void)
{
    cq_udime_t a = in_e(), b = in_e();
    UW s = ev(a) + ev(b);
    g_fail_ok = s >= ((UW)1 << 96);
    cq_udime_t r = cq_udime_add(a, b);
    HV_ENSURE("udime_add.exact", ev(r) == s);
    HV_REACH("udime_add");
}
void h_udime_sub(void)
{
    cq_udime_t a = in_e(), b = in_e();
    g_fail_ok = ev(a) < ev(b);
    cq_udime_t r = cq_udime_sub(a, b);
    HV_ENSURE("udime_sub.exact", ev(r) + ev(b) == ev(a));
    HV_REACH("udime_sub");
}
void h_udime_mul(void)
{
    cq_udimw_t a = in_u64(); cq_udim_t b = hv_u32();
    cq_udime_t r = cq_udime_mul_wn(a, b);
    HV_ENSURE("udime_mul.exact", ev(r) == (UW)a * b);
    HV_REACH("udime_mul");
}
/* every divisor v: v = v1*2^(32-s) + w with v1 normalised (group div_ew_cover shows that this covers all of them) */
static cq_udimw_t mk_v(bool wide, unsigned s, uint64_t v1, uint64_t w)
{
    if (!wide) return v1 / ((uint64_t)1 << s);
    return v1 * ((uint64_t)1 << (32 - s)) + w;
}
void h_div_ew_cover(void)
{
    cq_udimw_t v = hv_u64(); uint32_t u0 = hv_u32();
    HV_ASSUME(v != 0);
    bool wide = (v >> 32) != 0;
    unsigned s = (unsigned)__builtin_clzll(wide ? v : v << 32);
    HV_ENSURE("cover.shift", s <= 31);
    uint64_t n = (wide ? v : v << 32) << s;
    uint64_t v1 = n >> 32, w = (n & 0xffffffff) >> s;
    HV_ENSURE("cover.normalised", v1 >= 0x80000000u && v1 <= 0xffffffffu && w <= (((uint64_t)1 << (32 - s)) - 1));
    if (wide) HV_ENSURE("cover.wide", mk_v(true, s, v1, w) == v);
    else HV_ENSURE("cover.narrow", v1 == v * ((uint64_t)1 << s) && mk_v(false, s, v1, 0) == v);
    HV_ENSURE("cover.dividend", ((uint64_t)u0 >> (32 - s)) * ((uint64_t)1 << (32 - s)) + (u0 & (((uint64_t)1 << (32 - s)) - 1)) == u0);
    HV_REACH("cover");
}
static void div_ew(cq_udimw_t hi, cq_udim_t lo, cq_udimw_t v)
{
    cq_udime_t u; u.hi = hi; u.lo = lo;
    g_fail_ok = v == 0 || u.hi >= v;
    HV_ASSUME(!g_fail_ok);
    cq_udim_t q = cq_dim_div_ew(u, v);
    UW e = ((UW)hi << 32) + lo, p = (UW)q * v;
    HV_ENSURE("div_ew.not_too_large", p <= e);
    HV_ENSURE("div_ew.not_too_small", e - p < v);
}
void h_div_ew_wide(void)
{
    unsigned s = (unsigned)hv_range(0, 31);
    uint64_t p2 = (uint64_t)1 << s, q2 = (uint64_t)1 << (32 - s);
    uint64_t v1 = hv_range(0x80000000u, 0xffffffffu), w = hv_range(0, q2 - 1);
    cq_udimw_t v = v1 * q2 + w;
    uint64_t a = hv_range(0, p2 - 1), b = hv_range(0, q2 - 1);
    div_ew(hv_range(0, UINT64_MAX), (cq_udim_t)(a * q2 + b), v);
    HV_REACH("div_ew_wide");
}
void h_div_ew_narrow(void)
{
    unsigned s = (unsigned)hv_range(0, 31);
    uint64_t p2 = (uint64_t)1 << s, q2 = (uint64_t)1 << (32 - s);
    uint64_t v = hv_range(q2 / 2, q2 - 1);
    uint64_t a = hv_range(0, p2 - 1), b = hv_range(0, q2 - 1);
    div_ew(hv_range(0, UINT64_MAX), (cq_udim_t)(a * q2 + b), v);
    HV_REACH("div_ew_narrow");
}
void h_div_ew_fail(void)
{
    cq_udime_t u; u.hi = hv_u64(); u.lo = hv_u32(); cq_udimw_t v = hv_u64();
    HV_ASSUME(v == 0 || u.hi >= v);
    g_fail_ok = true; HV_REACH("div_ew_fail");
    cq_dim_div_ew(u, v);
    HV_ENSURE("div_ew.fails_if_not_representable", false);
}
void h_mul_div(void)
{
    cq_dim_t sx = hv_i32(); cq_dimw_t sm = hv_i64(), sd = hv_i64();
    HV_ASSUME(sx != CQ_DIM_MIN && sm != INT64_MIN && sd != INT64_MIN);
    HV_ASSUME(sm != 0 && wabs(sm) < wabs(sd));
    cq_dimif_t r;
    cq_dimif_mul_div_nww(&r, sx, sm, sd);
    HV_ENSURE("mul_div.denominator", r.d == wabs(sd));
    HV_ENSURE("mul_div.proper", r.n < r.d);
    HV_ENSURE("mul_div.exact", (W)r.i * sd + (sd < 0 ? -(W)r.n : (W)r.n) == (W)sx * sm);
    HV_REACH("mul_div");
}
#ifdef HV_CBMC
/* contract of cq_dim_div_ew (group div_ew) */
cq_udim_t c_div_ew(cq_udime_t u, cq_udimw_t v)
{
    HV_ENSURE("call cq_dim_div_ew.requires", v != 0 && u.hi < v);
    cq_udim_t q = hv_any_u32();
    HV_ASSUME((UW)q * v <= ev(u) && ev(u) - (UW)q * v < v);
    return q;
}
#endif

#ifdef HV_CBMC
/* contract of cq_udime_mul_wn (group udime_mul) */
cq_udime_t c_mul_wn(cq_udimw_t a, cq_udim_t b)
{
    UW p = (UW)a * b;
    cq_udime_t e; e.hi = (cq_udimw_t)(p >> 32); e.lo = (cq_udim_t)p;
    return e;
}
#endif

/* ---------------------------------------------------------------- P03 */
static cq_dimif_t in_if(void) { cq_dimif_t a; a.i = hv_i32(); a.n = hv_u64(); a.d = hv_u64(); HV_ASSUME(a.n < a.d); return a; }
static int sgnU(UW a, UW b) { return a < b ? -1 : a > b ? +1 : 0; }

void h_cmp_frac(void)
{
    cq_dimif_t a = in_if(), b = in_if();
    int e = sgnU((UW)a.n * b.d, (UW)b.n * a.d);
    HV_ENSURE("cmp_frac.exact", cq_dimif_cmp_frac(&a, &b) == e);
    HV_REACH("cmp_frac");
}
void h_cmp_frac_aux(void)
{
    /* every pair: the smaller numerator n and the smaller denominator d, and the distances x, y of the larger ones */
    uint64_t n = hv_u64(), x = hv_u64(), d = hv_u64(), y = hv_u64();
    HV_ASSUME(n <= UINT64_MAX - x && d <= UINT64_MAX - y);
    cq_dimif_t a, b;
    a.i = b.i = 0;
    if (hv_bool()) { a.n = n + x; b.n = n; } else { a.n = n; b.n = n + x; }
    if (hv_bool()) { a.d = d + y; b.d = d; } else { a.d = d; b.d = d + y; }
    HV_ASSUME(a.n < a.d && b.n < b.d);
    int e = sgnU((UW)a.n * b.d, (UW)b.n * a.d);
    HV_ENSURE("cmp_frac_aux.exact", cq_dimif_cmp_frac_aux(&a, &b) == e);
    HV_REACH("cmp_frac_aux");
}
static int spec_cmp(cq_dimif_t const *a, cq_dimif_t const *b)
{
    /* sign of a-b: exact integer comparison of the mixed numbers (both fractions are proper) */
    if (a->i != b->i) return a->i < b->i ? -1 : +1;
    return sgnU((UW)a->n * b->d, (UW)b->n * a->d);
}
void h_cmp(void)
{
    cq_dimif_t a = in_if(), b = in_if();
    int e = spec_cmp(&a, &b);
    /* the specification is the sign of the rational difference */
    HV_ENSURE("lemma.mixed_number_order", (a.i < b.i) ? (W)(b.i - (W)a.i) * a.d >= a.d && a.n < a.d : true);
    HV_ENSURE("cmp.exact", cq_dimif_cmp(&a, &b) == e);
    HV_ENSURE("eq.exact", cq_dimif_eq(&a, &b) == (e == 0));
    HV_REACH("cmp");
}
void h_cmp_vec(void)
{
    cq_vec2if_t a, b; a.x = in_if(); a.y = in_if(); b.x = in_if(); b.y = in_if();
    int ex = spec_cmp(&a.x, &b.x), ey = spec_cmp(&a.y, &b.y);
    HV_ENSURE("vec2if_cmp.lexicographic", cq_vec2if_cmp(&a, &b) == (ex != 0 ? ex : ey));
    HV_ENSURE("vec2if_eq", cq_vec2if_eq(&a, &b) == (ex == 0 && ey == 0));
    HV_REACH("cmp_vec");
}
void h_cmp_int(void)
{
    cq_vec2_t a = CQ_VEC2(hv_i32(), hv_i32()); cq_vec2if_t b; b.x = in_if(); b.y = in_if();
    int ex = a.x < b.x.i ? -1 : a.x > b.x.i ? +1 : b.x.n > 0 ? -1 : 0;
    int ey = a.y < b.y.i ? -1 : a.y > b.y.i ? +1 : b.y.n > 0 ? -1 : 0;
    HV_ENSURE("dim_dimif_cmp", cq_dim_dimif_cmp(a.x, &b.x) == ex);
    HV_ENSURE("vec2_vec2if_cmp", cq_vec2_vec2if_cmp(&a, &b) == (ex != 0 ? ex : ey));
    cq_vec2if_t c = cq_vec2if_from_vec2(&a);
    HV_ENSURE("from_vec2", c.x.i == a.x && c.y.i == a.y && c.x.n == 0 && c.y.n == 0 && c.x.d > 0 && c.y.d > 0);
    HV_ENSURE("mixed_agrees", cq_vec2if_cmp(&c, &b) == (ex != 0 ? ex : ey));
    HV_REACH("cmp_int");
}

/* ---------------------------------------------------------------- P04 */
#define COORD ((1 << CQ_INT_DIG) - 1)
static cq_vec2_t in_vec(void) { cq_vec2_t v; v.x = (cq_dim_t)hv_irange(-COORD, COORD); v.y = (cq_dim_t)hv_irange(-COORD, COORD); return v; }
#ifdef HV_CBMC
static struct { W v; cq_dimw_t d; cq_dimif_t r; } g_res[8];
static int g_cnt;
static W g_off[4];
#endif
void h_intersect(void)
{
    cq_vec2_t p1 = in_vec(), p2 = in_vec(), p3 = in_vec(), p4 = in_vec();
    W ax = (W)p2.x - p1.x, ay = (W)p2.y - p1.y, bx = (W)p4.x - p3.x, by = (W)p4.y - p3.y, cx = (W)p3.x - p1.x, cy = (W)p3.y - p1.y;
    /* p1 + (t/d)*a == p3 + (u/d)*b */
    W d = ax * by - ay * bx, t = cx * by - cy * bx, u = cx * ay - cy * ax;
    HV_ENSURE("lemma.parameters_x", d * p1.x + t * ax == d * p3.x + u * bx);
    HV_ENSURE("lemma.parameters_y", d * p1.y + t * ay == d * p3.y + u * by);
#ifdef HV_CBMC
    g_cnt = 0; g_off[0] = (W)p1.x - p3.x; g_off[1] = (W)p1.y - p3.y; g_off[2] = -g_off[0]; g_off[3] = -g_off[1];
#endif
    cq_vec2if_t i;
    int r = cq_vec2if_intersect(&i, p1, p2, p3, p4);
    if (d == 0) { HV_ENSURE("intersect.parallel", r == -1); HV_REACH("parallel"); return; }
    HV_ENSURE("intersect.not_parallel", r != -1);
    if (d < 0) { d = -d; t = -t; u = -u; }
    if (t < 0 || t > d || u < 0 || u > d) { HV_ENSURE("intersect.outside", r == 0); HV_REACH("outside"); return; }
    HV_ENSURE("intersect.flags", r == (1 | (t == 0 ? 2 : 0) | (t == d ? 4 : 0) | (u == 0 ? 8 : 0) | (u == d ? 16 : 0)));
    HV_ENSURE("intersect.proper", i.x.d > 0 && i.x.n < i.x.d && i.y.d > 0 && i.y.n < i.y.d);
    if (t == 0) { HV_ENSURE("intersect.at_p1", i.x.i == p1.x && i.y.i == p1.y && i.x.n == 0 && i.y.n == 0); HV_REACH("at_p1"); return; }
    if (t == d) { HV_ENSURE("intersect.at_p2", i.x.i == p2.x && i.y.i == p2.y && i.x.n == 0 && i.y.n == 0); HV_REACH("at_p2"); return; }
    if (u == 0) { HV_ENSURE("intersect.at_p3", i.x.i == p3.x && i.y.i == p3.y && i.x.n == 0 && i.y.n == 0); HV_REACH("at_p3"); return; }
    if (u == d) { HV_ENSURE("intersect.at_p4", i.x.i == p4.x && i.y.i == p4.y && i.x.n == 0 && i.y.n == 0); HV_REACH("at_p4"); return; }
    HV_ENSURE("intersect.denominator", i.x.d == d && i.y.d == d);
    HV_ENSURE("intersect.exact_x", ((W)i.x.i - p1.x) * d + (W)i.x.n == ax * t);
    HV_ENSURE("intersect.exact_y", ((W)i.y.i - p1.y) * d + (W)i.y.n == ay * t);
    HV_REACH("crossing");
}
/* the quotient and the remainder are unique: what two results with the same divisor have in common */
void h_euclid_unique(void)
{
    int64_t d = hv_irange(1, INT64_MAX), k = hv_i64(), i = hv_i64(), j = hv_i64();
    uint64_t n = hv_u64(), m = hv_u64();
    HV_ASSUME((W)n < d && (W)m < d);
    HV_ASSUME(((W)i - j - k) * d == (W)m - n);      /* i*d + n == (j*d + m) + k*d */
    W q = (W)i - j - k;
    HV_ENSURE("lemma.multiple_above", q < 1 || q * d >= d);
    HV_ENSURE("lemma.multiple_below", q > -1 || q * d <= -d);
    HV_ENSURE("lemma.euclid_unique", (W)i - j == k && n == m);
    HV_REACH("euclid_unique");
}
#ifdef HV_CBMC
/* contract of cq_dimif_mul_div_nww (group mul_div), with its consequence for the magnitude of the result
   and (group euclid_unique) for any two results with the same divisor whose products differ by a multiple of it */
void c_mul_div(cq_dimif_t *r, cq_dim_t sx, cq_dimw_t sm, cq_dimw_t sd)
{
    HV_ENSURE("call cq_dimif_mul_div_nww.requires", sx != CQ_DIM_MIN && sm > 0 && sm < sd);
    W v = (W)sx * sm;
    cq_dimif_t x;
    x.d = (cq_udimw_t)sd; x.i = hv_any_i32(); x.n = hv_any_u64();
    HV_ASSUME(x.n < x.d && (W)x.i * sd + (W)x.n == v);
    HV_ASSUME(sx >= 0 ? x.i >= 0 && x.i <= sx : x.i < 0 && x.i >= sx);
    for (int j = 0; j < g_cnt; j++) for (int k = 0; k < 4; k++)
        if (hv_known(g_res[j].d == sd) && hv_known(v == g_res[j].v + g_off[k] * sd)) {
            HV_ASSUME((W)x.i == (W)g_res[j].r.i + g_off[k]);
            HV_ASSUME(x.n == g_res[j].r.n);
            break;
        }
    if (g_cnt < 8) { g_res[g_cnt].v = v; g_res[g_cnt].d = sd; g_res[g_cnt].r = x; g_cnt++; }
    *r = x;
}
#endif

#ifdef HV_CBMC
/* contract of cq_vec2if_intersect as used by its wrappers: arguments are recorded, the result is open */
static cq_vec2_t g_arg[4]; static cq_vec2if_t g_isect; static int g_isect_r;
int c_isect(cq_vec2if_t *i, cq_vec2_t p1, cq_vec2_t p2, cq_vec2_t p3, cq_vec2_t p4)
{
    g_arg[0] = p1; g_arg[1] = p2; g_arg[2] = p3; g_arg[3] = p4;
    g_isect.x.i = hv_any_i32(); g_isect.x.n = hv_any_u64(); g_isect.x.d = hv_any_u64();
    g_isect.y.i = hv_any_i32(); g_isect.y.n = hv_any_u64(); g_isect.y.d = hv_any_u64();
    HV_ASSUME(g_isect.x.n < g_isect.x.d && g_isect.y.n < g_isect.y.d);
    HV_ASSUME(g_isect.x.i >= -COORD && g_isect.x.i <= COORD && g_isect.y.i >= -COORD && g_isect.y.i <= COORD);
    *i = g_isect;
    return g_isect_r = hv_any_i32();
}
static bool veq(cq_vec2_t a, cq_vec2_t b) { return a.x == b.x && a.y == b.y; }
#else
static bool veq(cq_vec2_t a, cq_vec2_t b) { return a.x == b.x && a.y == b.y; }
static cq_vec2_t g_arg[4]; static cq_vec2if_t g_isect; static int g_isect_r;
#endif
static bool near1(cq_dimif_t x, cq_dim_t r)
{
    W k = (W)r - x.i;
    return k == 0 ? 2 * (UW)x.n < x.d : k == 1 ? 2 * (UW)x.n >= x.d : false;
}
void h_intersect_wrap(void)
{
    cq_line2_t l, m; l.a = in_vec(); l.b = in_vec(); m.a = in_vec(); m.b = in_vec();
    cq_vec2if_t q;
    int r = cq_line2if_intersect(&q, &l, &m);
#ifndef HV_CBMC
    g_isect_r = cq_vec2if_intersect(&g_isect, l.a, l.b, m.a, m.b);
    g_arg[0] = l.a; g_arg[1] = l.b; g_arg[2] = m.a; g_arg[3] = m.b;
    if (r > 0)
#endif
    HV_ENSURE("line2if.point", q.x.i == g_isect.x.i && q.x.n == g_isect.x.n && q.x.d == g_isect.x.d && q.y.i == g_isect.y.i && q.y.n == g_isect.y.n && q.y.d == g_isect.y.d);
    HV_ENSURE("line2if.result", r == g_isect_r);
    HV_ENSURE("line2if.args", veq(g_arg[0], l.a) && veq(g_arg[1], l.b) && veq(g_arg[2], m.a) && veq(g_arg[3], m.b));
#ifndef HV_CBMC
    if (r <= 0) return;
#endif
    cq_vec2_t p;
    int r2 = cq_vec2_intersect(&p, l.a, l.b, m.a, m.b);
    HV_ENSURE("vec2.result", r2 == g_isect_r);
    HV_ENSURE("vec2.args", veq(g_arg[0], l.a) && veq(g_arg[1], l.b) && veq(g_arg[2], m.a) && veq(g_arg[3], m.b));
    HV_ENSURE("vec2.rounded_x", near1(g_isect.x, p.x));
    HV_ENSURE("vec2.rounded_y", near1(g_isect.y, p.y));
    HV_REACH("intersect_wrap");
}

/* ---------------------------------------------------------------- P05 */
static W cross(W ax, W ay, W bx, W by) { return ax * by - ay * bx; }
void h_cmp_edge_rnd(void)
{
    cq_vec2_t v = in_vec(), l = in_vec(), k = in_vec();
    HV_ASSUME(k.x < l.x || (k.x == l.x && k.y < l.y));
    int r = cq_cmp_edge_rnd(v.x, v.y, l.x, l.y, k.x, k.y);
    W dx = (W)k.x - l.x, dy = (W)k.y - l.y, x = 2 * ((W)v.x - l.x), y = 2 * ((W)v.y - l.y);
    W bb = x * dy - y * dx;
    HV_ENSURE("lemma.cross", bb == 2 * cross((W)v.x - l.x, (W)v.y - l.y, dx, dy));
    /* twice the cross product at the corners of the pixel [v-1/2, v+1/2)^2 */
    W BL = bb - dy + dx, BR = bb + dy + dx, TL = bb - dy - dx, TR = bb + dy - dx;
    bool left = v.x < l.x && v.x < k.x, right = v.x > l.x && v.x > k.x;
    bool below = v.y < l.y && v.y < k.y, above = v.y > l.y && v.y > k.y;
    if (left || right || below || above) {
        int e = bb > 0 ? +1 : bb < 0 ? -1 : 0;
        HV_ENSURE("cmp_edge_rnd.beside", bb == 0 || r == e);
        HV_ENSURE("cmp_edge_rnd.beside_on_line", bb != 0 || r == +1 || r == -1);
        if (bb == 0) HV_ENSURE("cmp_edge_rnd.before_or_after", r == (left ? -1 : right ? +1 : below ? -1 : +1));
        HV_REACH("beside"); return;
    }
    /* every point of the half-open pixel strictly on one side */
    bool pos = BL > 0 && BR >= 0 && TL >= 0 && TR >= 0, neg = BL < 0 && BR <= 0 && TL <= 0 && TR <= 0;
    HV_ENSURE("cmp_edge_rnd.above", (r == +1) == pos);
    HV_ENSURE("cmp_edge_rnd.below", (r == -1) == neg);
    HV_ENSURE("cmp_edge_rnd.value", r == +1 || r == -1 || r == 0);
    HV_REACH("tolerance");
}
void h_cmp_edge_wrap(void)
{
    cq_vec2_t v = in_vec(), l = in_vec(), k = in_vec();
    int r = cq_cmp_edge_rnd(v.x, v.y, l.x, l.y, k.x, k.y);
    HV_ENSURE("cmp_edge_rnd.vec", cq_vec2_cmp_edge_rnd(&v, &l, &k) == r);
    cq_line2_t e; e.a = k; e.b = l;
    HV_ENSURE("cmp_edge_rnd.line", cq_vec2_cmp_line2_rnd(&v, &e) == r);
    HV_REACH("wrap");
}

/* ---------------------------------------------------------------- P06 */
#define OP2(name, T, TO, in, op) void h_##name(void) { \
    T a = (T)in(), b = (T)in(); W e = (W)a op (W)b; \
    bool fits = (TO)e == e; g_fail_ok = !fits; \
    TO r = cq_##name(a, b); \
    HV_ENSURE(#name ".fails_iff_not_representable", fits); HV_ENSURE(#name ".exact", r == e); HV_REACH(#name); }
OP2(dim_add,   cq_dim_t,   cq_dim_t,   hv_i32, +)
OP2(udim_add,  cq_udim_t,  cq_udim_t,  hv_u32, +)
OP2(dimw_add,  cq_dimw_t,  cq_dimw_t,  hv_i64, +)
OP2(udimw_add, cq_udimw_t, cq_udimw_t, hv_u64, +)
OP2(dim_sub,   cq_dim_t,   cq_dim_t,   hv_i32, -)
OP2(udim_sub,  cq_udim_t,  cq_udim_t,  hv_u32, -)
OP2(dimw_sub,  cq_dimw_t,  cq_dimw_t,  hv_i64, -)
OP2(udimw_sub, cq_udimw_t, cq_udimw_t, hv_u64, -)
OP2(dim_mul,   cq_dim_t,   cq_dimw_t,  hv_i32, *)
OP2(udim_mul,  cq_udim_t,  cq_udimw_t, hv_u32, *)
void h_unary(void)
{
    cq_dim_t a = hv_i32(); cq_dimw_t b = hv_i64();
    g_fail_ok = a == CQ_DIM_MIN;
    HV_ENSURE("neg.exact", cq_dim_neg(a) == -(W)a);
    HV_ENSURE("abs.exact", cq_udim_abs(a) == wabs(a));
    HV_REACH("unary32");
    g_fail_ok = b == INT64_MIN;
    HV_ENSURE("negw.exact", cq_dimw_neg(b) == -(W)b);
    HV_ENSURE("absw.exact", cq_udimw_abs(b) == wabs(b));
    HV_REACH("unary64");
}
void h_cross(void)
{
    cq_dim_t ax = hv_i32(), ay = hv_i32(), bx = hv_i32(), by = hv_i32();
    W p = (W)ax * by - (W)ay * bx;
    g_fail_ok = !fits64(p);
    cq_dimw_t r = cq_cross_z(ax, ay, bx, by);
    HV_ENSURE("cross.fails_iff_not_representable", fits64(p));
    HV_ENSURE("cross.exact", r == p);
    HV_REACH("cross");
}
void h_cross3(void)
{
    cq_vec2_t a, b, o;
    a.x = hv_i32(); a.y = hv_i32(); b.x = hv_i32(); b.y = hv_i32(); o.x = hv_i32(); o.y = hv_i32();
    W ax = (W)a.x - o.x, ay = (W)a.y - o.y, bx = (W)b.x - o.x, by = (W)b.y - o.y;
    bool fits = fits32(ax) && fits32(ay) && fits32(bx) && fits32(by) && fits64(ax * by - ay * bx);
    g_fail_ok = !fits;
    cq_dimw_t r = cq_vec2_right_cross3_z(&a, &o, &b);
    HV_ENSURE("cross3.fails_iff_not_representable", fits);
    HV_ENSURE("cross3.exact", r == ax * by - ay * bx);
    HV_REACH("cross3");
}
void h_sqr(void)
{
    cq_vec2_t a = CQ_VEC2(hv_i32(), hv_i32());
    W s = (W)a.x * a.x + (W)a.y * a.y;
    g_fail_ok = !fits64(s);
    cq_dimw_t r = cq_vec2_sqr_len(&a);
    HV_ENSURE("sqr_len.fails_iff_not_representable", fits64(s));
    HV_ENSURE("sqr_len.exact", r == s);
    HV_REACH("sqr_len");
}
void h_dist(void)
{
    cq_vec2_t a = CQ_VEC2(hv_i32(), hv_i32()), b = CQ_VEC2(hv_i32(), hv_i32());
    W x = (W)a.x - b.x, y = (W)a.y - b.y, s = x * x + y * y;
    bool fits = fits32(x) && fits32(y) && fits64(s);
    g_fail_ok = !fits;
    cq_dimw_t r = cq_vec2_sqr_dist(&a, &b);
    HV_ENSURE("sqr_dist.fails_iff_not_representable", fits);
    HV_ENSURE("sqr_dist.exact", r == s);
    cq_line2_t l; l.a = a; l.b = b;
    HV_ENSURE("line_sqr_len", cq_line2_sqr_len(&l) == s);
    HV_REACH("sqr_dist");
}
/* coordinates of the supported range never overflow */
void h_range(void)
{
    cq_vec2_t a = in_vec(), o = in_vec(), b = in_vec();
    W ax = (W)a.x - o.x, ay = (W)a.y - o.y, bx = (W)b.x - o.x, by = (W)b.y - o.y;
    HV_ENSURE("range.cross3", cq_vec2_right_cross3_z(&a, &o, &b) == ax * by - ay * bx);
    HV_ENSURE("range.sqr_dist", cq_vec2_sqr_dist(&a, &o) == ax * ax + ay * ay);
    HV_REACH("range");
}
