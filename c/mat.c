/* contracts for src/hob3lmat/algo.c, src/hob3lmat/mat_gen_ext.c and include/hob3lmat/{mat,algo,mat_gen_inl}.h
 * (the real text is included below); doubles are mathematical reals in the deductive run */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <hob3lmat/algo.h>
#include <hob3lmat/mat.h>
#include <hob3lbase/arith.h>
#include <algo.c>
#include <mat_gen_ext.c>

#define EPS (1.0 / 32768.0)
#ifdef HV_CBMC
static double num(void) { return hv_f64(); }
#  define EQ(a, b) ((a) == (b))
#  define LE(a, b) ((a) <= (b))
#else
static double num(void)
{
    extern int hv_native_random; extern void hv_fix_last(uint64_t v);
    union { uint64_t u; double d; } x; x.u = hv_in();
    if (hv_native_random) { int k = (int)(x.u % 33) - 16; x.d = (x.u >> 40) % 4 == 0 ? k / 16.0 : (x.u >> 50) % 32 == 0 ? k * 1e-6 : k / 4.0; hv_fix_last(x.u); }
    HV_ASSUME(x.d == x.d && fabs(x.d) < 1e100);
    return x.d;
}
static int eq_tol(double a, double b) { return fabs(a - b) <= 1e-6 * (1 + fabs(a) + fabs(b)); }
#  define EQ(a, b) eq_tol((a), (b))
#  define LE(a, b) ((a) <= (b) + 1e-9)
#endif
#define ENSURE_EQ(name, a, b) do { double ha_ = (a), hb_ = (b); HV_ENSURE(name, EQ(ha_, hb_)); } while (0)

typedef struct { double m[4][4]; } H;
#define FORN(i, n) for (int i = 0; i < (n); i++)
static H hid(int n) { H r = { { { 0 } } }; FORN(i, n) r.m[i][i] = 1; return r; }
static H hmul(H const *a, H const *b, int n) { H r = { { { 0 } } }; FORN(i, n) FORN(j, n) { double s = 0; FORN(k, n) s += a->m[i][k] * b->m[k][j]; r.m[i][j] = s; } return r; }
static double hdet3(H const *a, int i, int j, int k, int p, int q, int r)
{ return a->m[i][p] * (a->m[j][q] * a->m[k][r] - a->m[j][r] * a->m[k][q]) - a->m[i][q] * (a->m[j][p] * a->m[k][r] - a->m[j][r] * a->m[k][p]) + a->m[i][r] * (a->m[j][p] * a->m[k][q] - a->m[j][q] * a->m[k][p]); }
static double hdet(H const *a, int n)
{
    if (n == 2) return a->m[0][0] * a->m[1][1] - a->m[0][1] * a->m[1][0];
    if (n == 3) return hdet3(a, 0, 1, 2, 0, 1, 2);
    return a->m[0][0] * hdet3(a, 1, 2, 3, 1, 2, 3) - a->m[0][1] * hdet3(a, 1, 2, 3, 0, 2, 3) + a->m[0][2] * hdet3(a, 1, 2, 3, 0, 1, 3) - a->m[0][3] * hdet3(a, 1, 2, 3, 0, 1, 2);
}
#define HEQ(name, a, b, n) do { FORN(hi_, n) FORN(hj_, n) ENSURE_EQ(name, (a).m[hi_][hj_], (b).m[hi_][hj_]); } while (0)

/* the five kinds as homogeneous matrices: size n, vector dimension v */
static H of_2(cp_mat2_t const *m)   { H r = hid(2); FORN(i, 2) FORN(j, 2) r.m[i][j] = m->m[i][j]; return r; }
static H of_3(cp_mat3_t const *m)   { H r = hid(3); FORN(i, 3) FORN(j, 3) r.m[i][j] = m->m[i][j]; return r; }
static H of_4(cp_mat4_t const *m)   { H r = hid(4); FORN(i, 4) FORN(j, 4) r.m[i][j] = m->m[i][j]; return r; }
static H of_2w(cp_mat2w_t const *m) { H r = hid(3); FORN(i, 2) { FORN(j, 2) r.m[i][j] = m->b.m[i][j]; r.m[i][2] = m->w.v[i]; } return r; }
static H of_3w(cp_mat3w_t const *m) { H r = hid(4); FORN(i, 3) { FORN(j, 3) r.m[i][j] = m->b.m[i][j]; r.m[i][3] = m->w.v[i]; } return r; }
static cp_mat2_t in_2(void)   { cp_mat2_t r; FORN(i, 2) FORN(j, 2) r.m[i][j] = num(); return r; }
static cp_mat3_t in_3(void)   { cp_mat3_t r; FORN(i, 3) FORN(j, 3) r.m[i][j] = num(); return r; }
static cp_mat4_t in_4(void)   { cp_mat4_t r; FORN(i, 4) FORN(j, 4) r.m[i][j] = num(); return r; }
static cp_mat2w_t in_2w(void) { cp_mat2w_t r; r.b = in_2(); r.w.x = num(); r.w.y = num(); return r; }
static cp_mat3w_t in_3w(void) { cp_mat3w_t r; r.b = in_3(); r.w.x = num(); r.w.y = num(); r.w.z = num(); return r; }
static cp_vec2_t inv2(void) { cp_vec2_t r; r.x = num(); r.y = num(); return r; }
static cp_vec3_t inv3(void) { cp_vec3_t r; r.x = num(); r.y = num(); r.z = num(); return r; }
static cp_vec4_t inv4(void) { cp_vec4_t r; r.x = num(); r.y = num(); r.z = num(); r.v[3] = num(); return r; }
#define N_2 2
#define N_3 3
#define N_4 4
#define N_2w 3
#define N_3w 4
#define D_2 2
#define D_3 3
#define D_4 4
#define D_2w 2
#define D_3w 3
#define V_2 cp_vec2_t
#define V_3 cp_vec3_t
#define V_4 cp_vec4_t
#define V_2w cp_vec2_t
#define V_3w cp_vec3_t

/* ---------------------------------------------------------------- P17 */
#define INV(K, IN) \
void h_inv_##K(void) { \
    cp_mat##K##_t a = in_##K(), r = in_##K(), s = a; H h = of_##K(&a); double d0 = hdet(&h, N_##K); \
    ENSURE_EQ("inv.determinant", cp_mat##K##_det(&a), d0); \
    double d = cp_mat##K##_inv(&r, &a), e; \
    if (cp_sqr_eq(d0, 0)) { \
        HV_ENSURE("inv.singular.returns_zero", d == 0); H g = of_##K(&r); H z = of_##K(&r); FORN(i, D_##K) FORN(j, N_##K) z.m[i][j] = 0; \
        HEQ("inv.singular.zero_matrix", g, z, N_##K); \
        HV_REACH("inv.singular"); \
    } else { \
        ENSURE_EQ("inv.returns_determinant", d, d0); \
        H g = of_##K(&r), i = hid(N_##K), p = hmul(&h, &g, N_##K), q = hmul(&g, &h, N_##K); \
        HEQ("inv.right_inverse", p, i, N_##K); HEQ("inv.left_inverse", q, i, N_##K); \
        e = cp_mat##K##_inv(&s, &s); ENSURE_EQ("inv.in_place.determinant", e, d0); \
        H t = of_##K(&s); HEQ("inv.in_place", t, g, N_##K); \
        HV_REACH("inv.regular"); \
    } \
}
INV(2,) INV(3,) INV(4,) INV(2w,) INV(3w,)

/* matrices that carry their inverse: products, inversion, transposition, construction from a plain matrix */
#define KI(K) \
static cp_mat##K##i_t in_##K##i(void) { cp_mat##K##i_t r; r.n = in_##K(); r.i = in_##K(); r.d = num(); return r; } \
static void imul_##K(int alias) { \
    cp_mat##K##i_t x = in_##K##i(), y = alias == 3 ? x : in_##K##i(), r = in_##K##i(), *a = &x, *b = alias == 3 ? &x : &y, *o = alias == 0 ? &r : alias == 2 ? b : a; \
    H an = of_##K(&a->n), ai = of_##K(&a->i), bn = of_##K(&b->n), bi = of_##K(&b->i); double d = a->d * b->d; \
    cp_mat##K##i_mul(o, a, b); \
    H n = of_##K(&o->n), i = of_##K(&o->i), en = hmul(&an, &bn, N_##K), ei = hmul(&bi, &ai, N_##K); \
    HEQ("imul.product", n, en, N_##K); HEQ("imul.inverse_is_reversed_product", i, ei, N_##K); ENSURE_EQ("imul.determinant", o->d, d); \
    HV_REACH("imul"); } \
void h_imul_##K(void) { uint64_t alias = hv_range(0, 3); if (alias == 0) imul_##K(0); else if (alias == 1) imul_##K(1); else if (alias == 2) imul_##K(2); else imul_##K(3); } \
static void iinv_##K(int alias) { \
    cp_mat##K##i_t a = in_##K##i(), r = in_##K##i(), *o = alias ? &a : &r; H n = of_##K(&a.n), i = of_##K(&a.i); double d = a.d; \
    HV_ASSUME(d >= EPS || d <= -EPS); \
    cp_mat##K##i_inv(o, &a); \
    H n2 = of_##K(&o->n), i2 = of_##K(&o->i); \
    HEQ("iinv.matrix", n2, i, N_##K); HEQ("iinv.inverse", i2, n, N_##K); ENSURE_EQ("iinv.determinant", o->d * d, 1.0); HV_REACH("iinv"); } \
void h_iinv_##K(void) { if (hv_bool()) iinv_##K(1); else iinv_##K(0); } \
void h_ifrom_##K(void) { \
    bool alias = hv_bool(); cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t a = alias ? r.n : in_##K(); H h = of_##K(&a); double d0 = hdet(&h, N_##K); \
    bool ok = alias ? cp_mat##K##i_from_mat##K(&r, &r.n) : cp_mat##K##i_from_mat##K(&r, &a); \
    H n = of_##K(&r.n), i = of_##K(&r.i); HEQ("from.matrix", n, h, N_##K); \
    if (cp_sqr_eq(d0, 0)) { HV_ENSURE("from.refuses_singular", !ok && r.d == 0); HV_REACH("from.singular"); } \
    else { HV_ENSURE("from.accepts_regular", ok); ENSURE_EQ("from.determinant", r.d, d0); ENSURE_EQ("from.det_field", cp_mat##K##i_det(&r), d0); \
        H e = hid(N_##K), p = hmul(&n, &i, N_##K); HEQ("from.inverse", p, e, N_##K); HV_REACH("from.regular"); } \
}
KI(2) KI(3) KI(4) KI(2w) KI(3w)
/* the math lemma behind imul: (A B)(Bi Ai) == A (B Bi) Ai, which is I when A Ai == I == B Bi */
#define ASSOC(n) void h_assoc_##n(void) { \
    H a, ai, b, bi; FORN(i, n) FORN(j, n) { a.m[i][j] = num(); ai.m[i][j] = num(); b.m[i][j] = num(); bi.m[i][j] = num(); } \
    H ab = hmul(&a, &b, n), ii = hmul(&bi, &ai, n), p = hmul(&ab, &ii, n), c = hmul(&b, &bi, n), q = hmul(&a, &c, n), q2 = hmul(&q, &ai, n); \
    HEQ("lemma.product_of_inverse_pairs", p, q2, n); \
    H e = hid(n), u = hmul(&a, &e, n), u2 = hmul(&u, &ai, n), v = hmul(&a, &ai, n); HEQ("lemma.unit", u2, v, n); \
    double d = hdet(&ab, n), da = hdet(&a, n), db = hdet(&b, n); ENSURE_EQ("lemma.determinant_of_product", d, da * db); HV_REACH("assoc"); }
ASSOC(2) ASSOC(3) ASSOC(4)

#define TRANS(K) static void trans_##K(int alias) { \
    cp_mat##K##_t a = in_##K(), r = in_##K(), *o = alias ? &a : &r; H h = of_##K(&a), t = hid(N_##K); FORN(i, N_##K) FORN(j, N_##K) t.m[i][j] = h.m[j][i]; \
    cp_mat##K##_trans(o, &a); H g = of_##K(o); HEQ("trans", g, t, N_##K); HV_REACH("trans"); } \
void h_trans_##K(void) { if (hv_bool()) trans_##K(1); else trans_##K(0); } \
static void itrans_##K(int alias) { \
    cp_mat##K##i_t a = in_##K##i(), r = in_##K##i(), *o = alias ? &a : &r; H n = of_##K(&a.n), i = of_##K(&a.i); double d = a.d; \
    cp_mat##K##i_trans(o, &a); H n2 = of_##K(&o->n), i2 = of_##K(&o->i); \
    FORN(y, N_##K) FORN(x, N_##K) { ENSURE_EQ("itrans.matrix", n2.m[y][x], n.m[x][y]); ENSURE_EQ("itrans.inverse", i2.m[y][x], i.m[x][y]); } \
    ENSURE_EQ("itrans.determinant", o->d, d); HV_REACH("itrans"); } \
void h_itrans_##K(void) { if (hv_bool()) itrans_##K(1); else itrans_##K(0); }
TRANS(2) TRANS(3) TRANS(4)
#define TRANSW(K) static void trans_##K(int alias) { \
    cp_mat##K##_t a = in_##K(), r = in_##K(), *o = alias ? &a : &r; H h = of_##K(&a); bool z = true; FORN(i, D_##K) if (!cp_eq(h.m[i][D_##K], 0)) z = false; \
    bool ok = cp_mat##K##_trans(o, &a); H g = of_##K(o); HV_ENSURE("trans.reports_translation", ok == z); \
    FORN(y, D_##K) { FORN(x, D_##K) ENSURE_EQ("trans", g.m[y][x], h.m[x][y]); ENSURE_EQ("trans.no_translation", g.m[y][D_##K], 0); } HV_REACH("transw"); } \
void h_trans_##K(void) { if (hv_bool()) trans_##K(1); else trans_##K(0); } \
static void itrans_##K(int alias) { \
    cp_mat##K##i_t a = in_##K##i(), r = in_##K##i(), *o = alias ? &a : &r; H n = of_##K(&a.n), i = of_##K(&a.i); double d = a.d; bool z = true; FORN(k, D_##K) if (!cp_eq(n.m[k][D_##K], 0)) z = false; \
    bool ok = cp_mat##K##i_trans(o, &a); H n2 = of_##K(&o->n), i2 = of_##K(&o->i); HV_ENSURE("itrans.reports_translation", ok == z); \
    FORN(y, D_##K) { FORN(x, D_##K) { ENSURE_EQ("itrans.matrix", n2.m[y][x], n.m[x][y]); ENSURE_EQ("itrans.inverse", i2.m[y][x], i.m[x][y]); } \
        ENSURE_EQ("itrans.no_translation", n2.m[y][D_##K], 0); ENSURE_EQ("itrans.no_inverse_translation", i2.m[y][D_##K], 0); } \
    ENSURE_EQ("itrans.determinant", o->d, d); HV_REACH("itransw"); } \
void h_itrans_##K(void) { if (hv_bool()) itrans_##K(1); else itrans_##K(0); }
TRANSW(2w) TRANSW(3w)

/* constructed pairs: the matrix agrees with the plain construction, the inverse is the inverse, the determinant the determinant */
#define PAIR(K, name, r) do { \
    H n_ = of_##K(&(r).n), i_ = of_##K(&(r).i), e_ = hid(N_##K), p_ = hmul(&n_, &i_, N_##K); HEQ(name ".inverse_pair", p_, e_, N_##K); \
    double d_ = hdet(&n_, N_##K); ENSURE_EQ(name ".determinant", (r).d, d_); } while (0)
#define SAME(K, name, r, s) do { H a_ = of_##K(&(r).n), b_ = of_##K(&(s)); HEQ(name ".matrix", a_, b_, N_##K); } while (0)
static double nz(void) { double x = num(); HV_ASSUME(x >= EPS || x <= -EPS); return x; }
#define SCALE2(K) void h_scale_##K(void) { double x = nz(), y = nz(); cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t s = in_##K(), t = in_##K(); cp_vec2_t v = CP_VEC2(x, y); \
    cp_mat##K##i_scale(&r, x, y); cp_mat##K##_scale(&s, x, y); SAME(K, "iscale", r, s); PAIR(K, "iscale", r); \
    H h = of_##K(&s), e = hid(N_##K); e.m[0][0] = x; e.m[1][1] = y; HEQ("scale", h, e, N_##K); \
    cp_mat##K##_scale_v(&t, &v); H g = of_##K(&t); HEQ("scale_v", g, e, N_##K); cp_mat##K##i_scale_v(&r, &v); SAME(K, "iscale_v", r, s); PAIR(K, "iscale_v", r); \
    cp_mat##K##_scale1(&t, x); g = of_##K(&t); e.m[1][1] = x; HEQ("scale1", g, e, N_##K); cp_mat##K##i_scale1(&r, x); SAME(K, "iscale1", r, t); PAIR(K, "iscale1", r); HV_REACH("scale2"); }
#define SCALE3(K) void h_scale_##K(void) { double x = nz(), y = nz(), z = nz(); cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t s = in_##K(), t = in_##K(); cp_vec3_t v = CP_VEC3(x, y, z); \
    cp_mat##K##i_scale(&r, x, y, z); cp_mat##K##_scale(&s, x, y, z); SAME(K, "iscale", r, s); PAIR(K, "iscale", r); \
    H h = of_##K(&s), e = hid(N_##K); e.m[0][0] = x; e.m[1][1] = y; e.m[2][2] = z; HEQ("scale", h, e, N_##K); \
    cp_mat##K##_scale_v(&t, &v); H g = of_##K(&t); HEQ("scale_v", g, e, N_##K); cp_mat##K##i_scale_v(&r, &v); SAME(K, "iscale_v", r, s); PAIR(K, "iscale_v", r); \
    cp_mat##K##_scale1(&t, x); g = of_##K(&t); e.m[1][1] = x; e.m[2][2] = x; HEQ("scale1", g, e, N_##K); cp_mat##K##i_scale1(&r, x); SAME(K, "iscale1", r, t); PAIR(K, "iscale1", r); HV_REACH("scale3"); }
SCALE2(2) SCALE2(2w) SCALE3(3) SCALE3(3w) SCALE3(4)
#define XLAT2(K) void h_xlat_##K(void) { double x = num(), y = num(); cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t s = in_##K(); cp_vec2_t v = CP_VEC2(x, y); \
    cp_mat##K##_xlat(&s, x, y); H h = of_##K(&s), e = hid(N_##K); e.m[0][N_##K - 1] = x; e.m[1][N_##K - 1] = y; HEQ("xlat", h, e, N_##K); \
    cp_mat##K##i_xlat(&r, x, y); SAME(K, "ixlat", r, s); PAIR(K, "ixlat", r); s = in_##K(); cp_mat##K##_xlat_v(&s, &v); h = of_##K(&s); HEQ("xlat_v", h, e, N_##K); \
    r = in_##K##i(); cp_mat##K##i_xlat_v(&r, &v); SAME(K, "ixlat_v", r, s); PAIR(K, "ixlat_v", r); HV_REACH("xlat2"); }
#define XLAT3(K) void h_xlat_##K(void) { double x = num(), y = num(), z = num(); cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t s = in_##K(); cp_vec3_t v = CP_VEC3(x, y, z); \
    cp_mat##K##_xlat(&s, x, y, z); H h = of_##K(&s), e = hid(N_##K); e.m[0][3] = x; e.m[1][3] = y; e.m[2][3] = z; HEQ("xlat", h, e, N_##K); \
    cp_mat##K##i_xlat(&r, x, y, z); SAME(K, "ixlat", r, s); PAIR(K, "ixlat", r); s = in_##K(); cp_mat##K##_xlat_v(&s, &v); h = of_##K(&s); HEQ("xlat_v", h, e, N_##K); \
    r = in_##K##i(); cp_mat##K##i_xlat_v(&r, &v); SAME(K, "ixlat_v", r, s); PAIR(K, "ixlat_v", r); HV_REACH("xlat3"); }
XLAT2(2w) XLAT2(3) XLAT3(3w) XLAT3(4)
#define UNIT(K) void h_unit_##K(void) { cp_mat##K##i_t r = in_##K##i(); cp_mat##K##_t s = in_##K(); \
    cp_mat##K##_unit(&s); H h = of_##K(&s), e = hid(N_##K); HEQ("unit", h, e, N_##K); cp_mat##K##i_unit(&r); SAME(K, "iunit", r, s); PAIR(K, "iunit", r); HV_REACH("unit"); }
UNIT(2) UNIT(3) UNIT(4) UNIT(2w) UNIT(3w)

/* ---------------------------------------------------------------- P18 */
#define MUL(K) static void mul_##K(int alias) { \
    cp_mat##K##_t x = in_##K(), y = in_##K(), r = in_##K(), *a = &x, *b = alias == 3 ? &x : &y, *o = alias == 0 ? &r : alias == 2 ? b : a; \
    H ha = of_##K(a), hb = of_##K(b), e = hmul(&ha, &hb, N_##K); cp_mat##K##_mul(o, a, b); H h = of_##K(o); HEQ("mul.homogeneous_product", h, e, N_##K); HV_REACH("mul"); } \
void h_mul_##K(void) { uint64_t alias = hv_range(0, 3); if (alias == 0) mul_##K(0); else if (alias == 1) mul_##K(1); else if (alias == 2) mul_##K(2); else mul_##K(3); }
MUL(2) MUL(3) MUL(4) MUL(2w) MUL(3w)
#define XFORM(K, FX, INV_) \
static void happly_##K(double *e, H const *h, V_##K const *v) { FORN(i, D_##K) { double s = D_##K < N_##K ? h->m[i][N_##K - 1] : 0; FORN(j, D_##K) s += h->m[i][j] * v->v[j]; e[i] = s; } } \
static void xform_##K(int alias) { \
    cp_mat##K##_t a = in_##K(); V_##K v = INV_(), r = INV_(), *o = alias ? &v : &r; H h = of_##K(&a); double e[4]; happly_##K(e, &h, &v); \
    FX(o, &a, &v); FORN(i, D_##K) ENSURE_EQ("xform.definition", o->v[i], e[i]); HV_REACH("xform"); } \
void h_xform_##K(void) { if (hv_bool()) xform_##K(1); else xform_##K(0); } \
void h_compose_##K(void) { \
    cp_mat##K##_t a = in_##K(), b = in_##K(), c; V_##K v = INV_(), p, q; cp_mat##K##_mul(&c, &a, &b); FX(&p, &c, &v); FX(&q, &b, &v); FX(&q, &a, &q); \
    FORN(i, D_##K) ENSURE_EQ("compose", p.v[i], q.v[i]); \
    cp_mat##K##_t u; cp_mat##K##_unit(&u); FX(&p, &u, &v); FORN(i, D_##K) ENSURE_EQ("compose.identity", p.v[i], v.v[i]); HV_REACH("compose"); }
XFORM(2, cp_vec2_xform, inv2) XFORM(3, cp_vec3_xform, inv3) XFORM(4, cp_vec4_xform, inv4) XFORM(2w, cp_vec2w_xform, inv2) XFORM(3w, cp_vec3w_xform, inv3)
void h_act(void)
{
    cp_vec3_t v = inv3(), r; double x = num(), y = num(), z = num(); cp_vec2_t v2 = CP_VEC2(v.x, v.y), r2;
    cp_mat3w_t m; cp_mat3w_xlat(&m, x, y, z); cp_vec3w_xform(&r, &m, &v); HV_ENSURE("act.translate", EQ(r.x, v.x + x) && EQ(r.y, v.y + y) && EQ(r.z, v.z + z));
    cp_mat3w_scale(&m, x, y, z); cp_vec3w_xform(&r, &m, &v); HV_ENSURE("act.scale", EQ(r.x, v.x * x) && EQ(r.y, v.y * y) && EQ(r.z, v.z * z));
    cp_mat2w_t m2; cp_mat2w_xlat(&m2, x, y); cp_vec2w_xform(&r2, &m2, &v2); HV_ENSURE("act.translate2", EQ(r2.x, v.x + x) && EQ(r2.y, v.y + y));
    cp_mat2w_scale(&m2, x, y); cp_vec2w_xform(&r2, &m2, &v2); HV_ENSURE("act.scale2", EQ(r2.x, v.x * x) && EQ(r2.y, v.y * y));
    HV_REACH("act");
}
/* conversions: same entries, added rows and columns of the identity, dropped ones reported */
static bool trivial_row(H const *h, int n, int i) { bool ok = true; FORN(j, n) if (!cp_eq(h->m[i][j], i == j ? 1 : 0)) ok = false; return ok; }
void h_conv_3w_4(void)
{
    cp_mat4_t a = in_4(); cp_mat3w_t r = in_3w(); H h = of_4(&a); bool ok = cp_mat3w_from_mat4(&r, &a), t = trivial_row(&h, 4, 3); H g = of_3w(&r);
    HV_ENSURE("conv.reports_last_row", ok == t); FORN(i, 3) FORN(j, 4) ENSURE_EQ("conv.entries", g.m[i][j], h.m[i][j]); HV_REACH("conv");
}
void h_conv_2w_3(void)
{
    cp_mat3_t a = in_3(); cp_mat2w_t r = in_2w(); H h = of_3(&a); bool ok = cp_mat2w_from_mat3(&r, &a), t = trivial_row(&h, 3, 2); H g = of_2w(&r);
    HV_ENSURE("conv.reports_last_row", ok == t); FORN(i, 2) FORN(j, 3) ENSURE_EQ("conv.entries", g.m[i][j], h.m[i][j]); HV_REACH("conv");
}
static void chk_2w_3w(cp_mat2w_t const *r, H const *h) { H g = of_2w(r); FORN(i, 2) { FORN(j, 2) ENSURE_EQ("conv.entries", g.m[i][j], h->m[i][j]); ENSURE_EQ("conv.translation", g.m[i][2], h->m[i][3]); } }
static bool planar(H const *h) { return trivial_row(h, 4, 2) && cp_eq(h->m[0][2], 0) && cp_eq(h->m[1][2], 0); }
void h_conv_2w_3w(void)
{
    cp_mat3w_t a = in_3w(); cp_mat2w_t r = in_2w(); H h = of_3w(&a); bool ok = cp_mat2w_from_mat3w(&r, &a), t = planar(&h); HV_ENSURE("conv.reports_z", ok == t); chk_2w_3w(&r, &h); HV_REACH("conv");
}
static void chk_3w_2w(H const *g, H const *h) { H e = hid(4); FORN(i, 2) { FORN(j, 2) e.m[i][j] = h->m[i][j]; e.m[i][3] = h->m[i][2]; } HEQ("conv.planar", *g, e, 4); }
void h_conv_up(void)
{
    cp_mat3w_t a = in_3w(); cp_mat4_t r = in_4(); H h = of_3w(&a); cp_mat4_from_mat3w(&r, &a); H g = of_4(&r); HEQ("conv.homogeneous", g, h, 4);
    cp_mat2w_t b = in_2w(); cp_mat3_t s = in_3(); H k = of_2w(&b); cp_mat3_from_mat2w(&s, &b); H l = of_3(&s); HEQ("conv.homogeneous", l, k, 3);
    cp_mat3w_t u = in_3w(); cp_mat3w_from_mat2w(&u, &b); H q = of_3w(&u); chk_3w_2w(&q, &k); HV_REACH("conv_up");
}
void h_conv_iup(void)
{
    cp_mat3wi_t a = in_3wi(); cp_mat4i_t r = in_4i(); H n = of_3w(&a.n), i = of_3w(&a.i); cp_mat4i_from_mat3wi(&r, &a); H n2 = of_4(&r.n), i2 = of_4(&r.i);
    HEQ("conv.homogeneous", n2, n, 4); HEQ("conv.homogeneous_inverse", i2, i, 4); ENSURE_EQ("conv.determinant", r.d, a.d);
    cp_mat2wi_t b = in_2wi(); cp_mat3i_t s = in_3i(); H bn = of_2w(&b.n), bi = of_2w(&b.i); cp_mat3i_from_mat2wi(&s, &b); H sn = of_3(&s.n), si = of_3(&s.i);
    HEQ("conv.homogeneous", sn, bn, 3); HEQ("conv.homogeneous_inverse", si, bi, 3); ENSURE_EQ("conv.determinant", s.d, b.d);
    cp_mat3wi_t u = in_3wi(); cp_mat3wi_from_mat2wi(&u, &b); H un = of_3w(&u.n), ui = of_3w(&u.i); chk_3w_2w(&un, &bn); chk_3w_2w(&ui, &bi); ENSURE_EQ("conv.determinant", u.d, b.d);
    HV_REACH("conv_iup");
}
void h_conv_idown(void)
{
    cp_mat4i_t a = in_4i(); cp_mat3wi_t r = in_3wi(); H n = of_4(&a.n), i = of_4(&a.i); bool t = trivial_row(&n, 4, 3) && trivial_row(&i, 4, 3), ok = cp_mat3wi_from_mat4i(&r, &a);
    HV_ENSURE("conv.reports_last_row", ok == t);
    if (ok) { H n2 = of_3w(&r.n), i2 = of_3w(&r.i); FORN(y, 3) FORN(x, 4) { ENSURE_EQ("conv.entries", n2.m[y][x], n.m[y][x]); ENSURE_EQ("conv.inverse_entries", i2.m[y][x], i.m[y][x]); }
        double d = hdet3(&n, 0, 1, 2, 0, 1, 2); ENSURE_EQ("conv.determinant", r.d, d); HV_REACH("conv_idown"); }
}
void h_conv_idown2(void)
{
    cp_mat3i_t a = in_3i(); cp_mat2wi_t r = in_2wi(); H n = of_3(&a.n), i = of_3(&a.i); bool t = trivial_row(&n, 3, 2) && trivial_row(&i, 3, 2), ok = cp_mat2wi_from_mat3i(&r, &a);
    HV_ENSURE("conv.reports_last_row", ok == t);
    if (ok) { H n2 = of_2w(&r.n), i2 = of_2w(&r.i); FORN(y, 2) FORN(x, 3) { ENSURE_EQ("conv.entries", n2.m[y][x], n.m[y][x]); ENSURE_EQ("conv.inverse_entries", i2.m[y][x], i.m[y][x]); }
        double d = hdet(&n, 2); ENSURE_EQ("conv.determinant", r.d, d); HV_REACH("conv_idown2"); }
}
void h_conv_iplanar(void)
{
    cp_mat3wi_t a = in_3wi(); cp_mat2wi_t r = in_2wi(); H n = of_3w(&a.n), i = of_3w(&a.i); bool t = planar(&n) && planar(&i), ok = cp_mat2wi_from_mat3wi(&r, &a);
    HV_ENSURE("conv.reports_z", ok == t);
    if (ok) { chk_2w_3w(&r.n, &n); chk_2w_3w(&r.i, &i); double d = hdet(&n, 2); ENSURE_EQ("conv.determinant", r.d, d); HV_REACH("conv_iplanar"); }
}

/* ---------------------------------------------------------------- P19 */
#ifdef HV_CBMC
/* contracts standing for callees (each proved of the real function in lencls*, maxabs*, div* and divz* of P20) */
bool c_len01_2(cp_vec2_t const *a) { HV_ENSURE("rotation.argument_has_length_one", EQ(a->x * a->x + a->y * a->y, 1.0)); return true; }
bool c_len01_3(cp_vec3_t const *a) { HV_ENSURE("rotation.argument_has_length_one", EQ(a->x * a->x + a->y * a->y + a->z * a->z, 1.0)); return true; }
void c_div_3(cp_vec3_t *r, cp_vec3_t const *a, double b) { if (b < EPS && b > -EPS) *r = CP_VEC3(0, 0, 0); else *r = CP_VEC3(a->x / b, a->y / b, a->z / b); }
double c_max_abs_3(cp_vec3_t const *a) { double m = hv_any_f64(); HV_ASSUME(m >= a->x && m >= -a->x && m >= a->y && m >= -a->y && m >= a->z && m >= -a->z); return m; }
#endif
static double unit_co(void) { double t = num(); HV_ASSUME(t >= -1 && t <= 1); return t; }
static cp_vec2_t in_sc(void) { double t = unit_co(), q = sqrt(1 - t * t); if (hv_bool()) q = -q; return CP_VEC2(t, q); }
static cp_vec3_t in_u3(void) { double x = unit_co(), y = unit_co(); HV_ASSUME(1 - x * x - y * y >= 0); double z = sqrt(1 - x * x - y * y); if (hv_bool()) z = -z; return CP_VEC3(x, y, z); }
static void isometry(H const *h, int n)
{
    FORN(i, n) FORN(j, n) { double s = 0; FORN(k, n) s += h->m[i][k] * h->m[j][k]; ENSURE_EQ("rotation.orthonormal_rows", s, i == j ? 1.0 : 0.0); }
    double d = hdet(h, n); ENSURE_EQ("rotation.determinant_one", d, 1.0);
}
/* right-hand rule: c w + s (u x w) + (1-c)(u.w) u */
static void rodrigues(double *e, cp_vec3_t const *u, double s, double c, cp_vec3_t const *w)
{
    double k = (1 - c) * (u->x * w->x + u->y * w->y + u->z * w->z);
    e[0] = c * w->x + s * (u->y * w->z - u->z * w->y) + k * u->x; e[1] = c * w->y + s * (u->z * w->x - u->x * w->z) + k * u->y; e[2] = c * w->z + s * (u->x * w->y - u->y * w->x) + k * u->z;
}
static void chk_rot3(char kind, H const *h, int n, cp_vec3_t const *u, cp_vec2_t const *sc)
{
    (void)kind; cp_vec3_t w = inv3(); double e[3]; rodrigues(e, u, sc->v[0], sc->v[1], &w);
    FORN(i, 3) { double g = h->m[i][0] * w.x + h->m[i][1] * w.y + h->m[i][2] * w.z; ENSURE_EQ("rotation.axis_and_sense", g, e[i]); }
    if (n == 4) FORN(i, 4) { ENSURE_EQ("rotation.no_translation", h->m[i][3], i == 3 ? 1.0 : 0.0); ENSURE_EQ("rotation.last_row", h->m[3][i], i == 3 ? 1.0 : 0.0); }
}
#define ROT3(K) \
void h_rot_unit_##K(void) { cp_vec3_t u = in_u3(); cp_vec2_t sc = in_sc(); cp_mat##K##_t r = in_##K(); cp_mat##K##_rot_unit(&r, &u, &sc); H h = of_##K(&r); chk_rot3(0, &h, N_##K, &u, &sc); isometry(&h, 3); \
    cp_mat##K##i_t q = in_##K##i(); cp_mat##K##i_rot_unit(&q, &u, &sc); SAME(K, "irot_unit", q, r); PAIR(K, "irot_unit", q); HV_REACH("rot_unit"); } \
void h_rot_xyz_##K(void) { cp_vec2_t sc = in_sc(); FORN(ax, 3) { cp_vec3_t u = { .v = { ax == 0, ax == 1, ax == 2 } }; cp_mat##K##_t r = in_##K(); cp_mat##K##i_t q = in_##K##i(); \
    if (ax == 0) { cp_mat##K##_rot_x(&r, &sc); cp_mat##K##i_rot_x(&q, &sc); } else if (ax == 1) { cp_mat##K##_rot_y(&r, &sc); cp_mat##K##i_rot_y(&q, &sc); } else { cp_mat##K##_rot_z(&r, &sc); cp_mat##K##i_rot_z(&q, &sc); } \
    H h = of_##K(&r); chk_rot3(0, &h, N_##K, &u, &sc); isometry(&h, 3); SAME(K, "irot_axis", q, r); PAIR(K, "irot_axis", q); } HV_REACH("rot_xyz"); } \
void h_rot_v_##K(void) { cp_vec3_t v = inv3(); cp_vec2_t sc = in_sc(); double l = cp_vec3_len(&v); HV_ASSUME(l >= EPS); cp_mat##K##_t r = in_##K(); cp_mat##K##_rot_v(&r, &v, &sc); H h = of_##K(&r); isometry(&h, 3); \
    cp_vec3_t w = inv3(); double s = sc.v[0], c = sc.v[1], k = (1 - c) * (v.x * w.x + v.y * w.y + v.z * w.z), l2 = v.x * v.x + v.y * v.y + v.z * v.z, e[3]; \
    e[0] = c * l2 * w.x + s * l * (v.y * w.z - v.z * w.y) + k * v.x; e[1] = c * l2 * w.y + s * l * (v.z * w.x - v.x * w.z) + k * v.y; e[2] = c * l2 * w.z + s * l * (v.x * w.y - v.y * w.x) + k * v.z; \
    FORN(i, 3) { double g = l2 * (h.m[i][0] * w.x + h.m[i][1] * w.y + h.m[i][2] * w.z); ENSURE_EQ("rotation.axis_and_sense", g, e[i]); } \
    cp_mat##K##i_t q = in_##K##i(); cp_mat##K##i_rot_v(&q, &v, &sc); SAME(K, "irot_v", q, r); PAIR(K, "irot_v", q); HV_REACH("rot_v"); } \
void h_rot_v0_##K(void) { cp_vec3_t v = inv3(); cp_vec2_t sc = in_sc(); double l = cp_vec3_len(&v); HV_ASSUME(l < EPS); cp_mat##K##_t r = in_##K(); cp_mat##K##_rot_v(&r, &v, &sc); H h = of_##K(&r), e = hid(N_##K); HEQ("rotation.no_axis_is_identity", h, e, N_##K); \
    cp_mat##K##i_t q = in_##K##i(); cp_mat##K##i_rot_v(&q, &v, &sc); SAME(K, "irot_v0", q, r); PAIR(K, "irot_v0", q); HV_REACH("rot_v0"); } \
void h_into_z_##K(void) { cp_vec3_t u = in_u3(); cp_mat##K##_t r = in_##K(); cp_mat##K##_rot_unit_into_z(&r, &u); H h = of_##K(&r); \
    double g[3]; FORN(i, 3) g[i] = h.m[i][0] * u.x + h.m[i][1] * u.y + h.m[i][2] * u.z; \
    if (cp_eq(u.x, 0) && cp_eq(u.y, 0)) { double t = 1.0 / 8192, d = hdet(&h, 3); \
        HV_ENSURE("into_z.near_axis.maps_to_z", fabs(g[0]) <= t && fabs(g[1]) <= t && fabs(g[2] - 1) <= t); HV_ENSURE("into_z.near_axis.proper_rotation", fabs(d - 1) <= t); \
        FORN(i, 3) FORN(j, 3) { double s = 0; FORN(k, 3) s += h.m[i][k] * h.m[j][k]; HV_ENSURE("into_z.near_axis.orthonormal", fabs(s - (i == j ? 1 : 0)) <= t); } HV_REACH("into_z.axis"); } \
    else { ENSURE_EQ("into_z.maps_to_z", g[0], 0); ENSURE_EQ("into_z.maps_to_z", g[1], 0); ENSURE_EQ("into_z.maps_to_z", g[2], 1); isometry(&h, 3); \
        cp_mat##K##i_t q = in_##K##i(); cp_mat##K##i_rot_unit_into_z(&q, &u); SAME(K, "iinto_z", q, r); PAIR(K, "iinto_z", q); HV_REACH("into_z.general"); } } \
void h_into_z_v_##K(void) { cp_vec3_t v = inv3(), u; double l = cp_vec3_len(&v); cp_mat##K##_t r = in_##K(), s = in_##K(); cp_mat##K##i_t q = in_##K##i(); bool ok = cp_mat##K##_rot_into_z(&r, &v), ok2 = cp_mat##K##i_rot_into_z(&q, &v); H h = of_##K(&r); \
    HV_ENSURE("into_z.accepts", ok == (l >= EPS) && ok2 == ok); SAME(K, "iinto_z_v", q, r); \
    if (ok) { u = CP_VEC3(v.x / l, v.y / l, v.z / l); cp_mat##K##_rot_unit_into_z(&s, &u); H g = of_##K(&s); HEQ("into_z.of_normalised", h, g, N_##K); HV_REACH("into_z_v.ok"); } \
    else { H e = hid(N_##K); HEQ("into_z.identity_without_direction", h, e, N_##K); HV_REACH("into_z_v.zero"); } }
ROT3(3) ROT3(3w) ROT3(4)
#define ROTIJ(K, D) void h_rot_ij_##K(void) { cp_vec2_t sc = in_sc(); double s = sc.v[0], c = sc.v[1]; for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) if (i != j) { \
    cp_mat##K##_t r = in_##K(); cp_mat##K##i_t q = in_##K##i(); cp_mat##K##_rot_ij(&r, i, j, &sc); cp_mat##K##i_rot_ij(&q, i, j, &sc); H h = of_##K(&r), e = hid(N_##K); \
    e.m[i][i] = c; e.m[j][i] = s; e.m[j][j] = c; e.m[i][j] = -s; HEQ("rot_ij.plane_and_sense", h, e, N_##K); isometry(&h, N_##K); SAME(K, "irot_ij", q, r); PAIR(K, "irot_ij", q); } HV_REACH("rot_ij"); }
ROTIJ(2, 2) ROTIJ(2w, 2) ROTIJ(3, 3) ROTIJ(3w, 3) ROTIJ(4, 4)
#define ROT2(K) void h_rot2_##K(void) { cp_vec2_t sc = in_sc(), w = inv2(); cp_mat##K##_t r = in_##K(); cp_mat##K##i_t q = in_##K##i(); cp_mat##K##_rot(&r, &sc); cp_mat##K##i_rot(&q, &sc); H h = of_##K(&r); \
    ENSURE_EQ("rot2.counter_clockwise", h.m[0][0] * w.x + h.m[0][1] * w.y, sc.v[1] * w.x - sc.v[0] * w.y); ENSURE_EQ("rot2.counter_clockwise", h.m[1][0] * w.x + h.m[1][1] * w.y, sc.v[0] * w.x + sc.v[1] * w.y); \
    if (N_##K == 3) { ENSURE_EQ("rot2.no_translation", h.m[0][2], 0); ENSURE_EQ("rot2.no_translation", h.m[1][2], 0); } isometry(&h, N_##K); SAME(K, "irot2", q, r); PAIR(K, "irot2", q); HV_REACH("rot2"); }
ROT2(2) ROT2(2w)
#define MIRROR(K, DV, INU) \
static void chk_mirror_##K(cp_mat##K##_t const *r, cp_vec##DV##_t const *u, double l2) { H h = of_##K(r); double w[DV]; FORN(i, DV) w[i] = num(); double dot = 0; FORN(i, DV) dot += u->v[i] * w[i]; \
    FORN(i, DV) { double g = 0; FORN(j, DV) g += h.m[i][j] * w[j]; ENSURE_EQ("mirror.reflects_at_plane", l2 * g, l2 * w[i] - 2 * dot * u->v[i]); } \
    FORN(i, N_##K) FORN(j, N_##K) if (i >= DV || j >= DV) ENSURE_EQ("mirror.no_translation", h.m[i][j], i == j ? 1.0 : 0.0); \
    H p = hmul(&h, &h, N_##K), e = hid(N_##K); HEQ("mirror.involution", p, e, N_##K); } \
void h_mirror_##K(void) { cp_vec##DV##_t u = INU(); cp_mat##K##_t r = in_##K(); cp_mat##K##i_t q = in_##K##i(); cp_mat##K##_mirror_unit(&r, &u); chk_mirror_##K(&r, &u, 1); \
    cp_mat##K##i_mirror_unit(&q, &u); SAME(K, "imirror", q, r); PAIR(K, "imirror", q); HV_REACH("mirror"); } \
void h_mirror_v_##K(void) { cp_vec##DV##_t v = inv##DV(); double l = cp_vec##DV##_len(&v), l2 = 0; HV_ASSUME(l >= EPS); FORN(i, DV) l2 += v.v[i] * v.v[i]; cp_mat##K##_t r = in_##K(); cp_mat##K##i_t q = in_##K##i(); \
    cp_mat##K##_mirror_v(&r, &v); chk_mirror_##K(&r, &v, l2); cp_mat##K##i_mirror_v(&q, &v); SAME(K, "imirror_v", q, r); PAIR(K, "imirror_v", q); HV_REACH("mirror_v"); }
MIRROR(2, 2, in_sc) MIRROR(2w, 2, in_sc) MIRROR(3, 3, in_u3) MIRROR(3w, 3, in_u3) MIRROR(4, 3, in_u3)

/* ---------------------------------------------------------------- P20 */
#define ALIAS2(NAME, N, CALL, EXPR) static void NAME##_(int alias) { cp_vec##N##_t x = inv##N(), y = inv##N(), r = inv##N(), *a = &x, *b = alias == 3 ? &x : &y, *o = alias == 0 ? &r : alias == 2 ? b : a; double t = nz(), e[N]; (void)t; \
    FORN(i, N) { double A = a->v[i], B = b->v[i]; (void)A; (void)B; e[i] = EXPR; } CALL; FORN(i, N) ENSURE_EQ(#NAME, o->v[i], e[i]); HV_REACH(#NAME); } \
void h_##NAME(void) { uint64_t alias = hv_range(0, 3); if (alias == 0) NAME##_(0); else if (alias == 1) NAME##_(1); else if (alias == 2) NAME##_(2); else NAME##_(3); }
#define VEC(N) \
ALIAS2(add##N, N, cp_vec##N##_add(o, a, b), A + B) ALIAS2(sub##N, N, cp_vec##N##_sub(o, a, b), A - B) ALIAS2(neg##N, N, cp_vec##N##_neg(o, a), -A) ALIAS2(mulc##N, N, cp_vec##N##_mulc(o, a, b), A * B) \
ALIAS2(mul##N, N, cp_vec##N##_mul(o, a, t), A * t) ALIAS2(div##N, N, cp_vec##N##_div(o, a, t), A / t) ALIAS2(lerp##N, N, cp_vec##N##_lerp(o, a, b, t), (1 - t) * A + t * B) \
ALIAS2(min##N, N, cp_vec##N##_min(o, a, b), A < B ? A : B) ALIAS2(max##N, N, cp_vec##N##_max(o, a, b), A > B ? A : B) \
void h_divc##N(void) { cp_vec##N##_t a = inv##N(), b, r; FORN(i, N) b.v[i] = nz(); cp_vec##N##_divc(&r, &a, &b); FORN(i, N) ENSURE_EQ("divc", r.v[i] * b.v[i], a.v[i]); cp_vec##N##_divc(&a, &a, &b); FORN(i, N) ENSURE_EQ("divc.in_place", a.v[i], r.v[i]); HV_REACH("divc"); } \
void h_divz##N(void) { cp_vec##N##_t a = inv##N(), r = inv##N(); double t = num(); HV_ASSUME(t < EPS && t > -EPS); cp_vec##N##_div(&r, &a, t); FORN(i, N) HV_ENSURE("div.by_negligible_is_zero", r.v[i] == 0); HV_REACH("divz"); } \
void h_dot##N(void) { cp_vec##N##_t a = inv##N(), b = inv##N(); double d = 0, s = 0, q = 0; FORN(i, N) { d += a.v[i] * b.v[i]; s += a.v[i] * a.v[i]; q += (a.v[i] - b.v[i]) * (a.v[i] - b.v[i]); } \
    ENSURE_EQ("dot", cp_vec##N##_dot(&a, &b), d); ENSURE_EQ("sqr_len", cp_vec##N##_sqr_len(&a), s); ENSURE_EQ("sqr_dist", cp_vec##N##_sqr_dist(&a, &b), q); \
    double l = cp_vec##N##_len(&a), k = cp_vec##N##_dist(&a, &b); ENSURE_EQ("len", l * l, s); ENSURE_EQ("dist", k * k, q); HV_ENSURE("len.nonnegative", l >= 0 && k >= 0); HV_REACH("dot"); } \
static void unit##N(int alias) { cp_vec##N##_t a = inv##N(), r = inv##N(), s = a, *o = alias ? &a : &r; double l = cp_vec##N##_len(&a); bool ok = cp_vec##N##_unit(o, &a); HV_ENSURE("unit.accepts_length", ok == (l >= EPS)); \
    if (ok) { double q = 0; FORN(i, N) { ENSURE_EQ("unit.direction", o->v[i] * l, s.v[i]); q += o->v[i] * o->v[i]; } ENSURE_EQ("unit.length_one", q, 1.0); HV_REACH("unit.ok"); } else { HV_REACH("unit.zero"); } } \
void h_unit##N(void) { if (hv_bool()) unit##N(1); else unit##N(0); } \
void h_dir##N(void) { cp_vec##N##_t a = inv##N(), b = inv##N(), r = inv##N(); double l = cp_vec##N##_dist(&a, &b); HV_ASSUME(l >= EPS); cp_vec##N##_dir(&r, &a, &b); FORN(i, N) ENSURE_EQ("dir", r.v[i] * l, a.v[i] - b.v[i]); HV_REACH("dir"); } \
void h_minmax##N(void) { cp_vec##N##_minmax_t m, k, r; m.min = inv##N(); m.max = inv##N(); k.min = inv##N(); k.max = inv##N(); cp_vec##N##_t p = inv##N(); cp_vec##N##_minmax_t m0 = m; cp_vec##N##_minmax(&m, &p); \
    FORN(i, N) { HV_ENSURE("minmax.bounds", m.min.v[i] <= p.v[i] && m.min.v[i] <= m0.min.v[i] && m.max.v[i] >= p.v[i] && m.max.v[i] >= m0.max.v[i]); HV_ENSURE("minmax.tight", (m.min.v[i] == p.v[i] || m.min.v[i] == m0.min.v[i]) && (m.max.v[i] == p.v[i] || m.max.v[i] == m0.max.v[i])); } HV_REACH("minmax"); } \
void h_minmax_or##N(void) { cp_vec##N##_minmax_t m, k, r; m.min = inv##N(); m.max = inv##N(); k.min = inv##N(); k.max = inv##N(); bool vm = cp_vec##N##_minmax_valid(&m), vk = cp_vec##N##_minmax_valid(&k); \
    cp_vec##N##_minmax_or(&r, &m, &k); cp_vec##N##_minmax_t const *p = vm ? &m : &k, *q = vm && vk ? &k : p; \
    FORN(i, N) { HV_ENSURE("minmax_or", r.min.v[i] <= p->min.v[i] && r.min.v[i] <= q->min.v[i] && (r.min.v[i] == p->min.v[i] || r.min.v[i] == q->min.v[i])); HV_ENSURE("minmax_or", r.max.v[i] >= p->max.v[i] && r.max.v[i] >= q->max.v[i] && (r.max.v[i] == p->max.v[i] || r.max.v[i] == q->max.v[i])); } HV_REACH("minmax_or"); } \
void h_minmax_and##N(void) { cp_vec##N##_minmax_t m, k, r; m.min = inv##N(); m.max = inv##N(); k.min = inv##N(); k.max = inv##N(); cp_vec##N##_minmax_and(&r, &m, &k); \
    FORN(i, N) { HV_ENSURE("minmax_and", r.min.v[i] >= m.min.v[i] && r.min.v[i] >= k.min.v[i] && (r.min.v[i] == m.min.v[i] || r.min.v[i] == k.min.v[i])); HV_ENSURE("minmax_and", r.max.v[i] <= m.max.v[i] && r.max.v[i] <= k.max.v[i] && (r.max.v[i] == m.max.v[i] || r.max.v[i] == k.max.v[i])); } HV_REACH("minmax_and"); } \
void h_minmax_valid##N(void) { cp_vec##N##_minmax_t m; m.min = inv##N(); m.max = inv##N(); bool v = true; FORN(i, N) if (m.min.v[i] - m.max.v[i] > EPS) v = false; bool g = cp_vec##N##_minmax_valid(&m); HV_ENSURE("minmax_valid.definition", !v ? !g : true); \
    bool w = true; FORN(i, N) if (m.min.v[i] - m.max.v[i] >= -EPS) w = false; HV_ENSURE("minmax_valid.accepts", w ? g : true); HV_REACH("minmax_valid"); } \
void h_maxabs##N(void) { cp_vec##N##_t a = inv##N(); double m = cp_vec##N##_max_abs_coord(&a); bool hit = false; FORN(i, N) { HV_ENSURE("max_abs.bound", m >= a.v[i] && m >= -a.v[i]); if (m == a.v[i] || m == -a.v[i]) hit = true; } HV_ENSURE("max_abs.attained", hit); HV_REACH("max_abs"); } \
void h_lencls##N(void) { cp_vec##N##_t a = inv##N(); bool z = true; double s = 0; FORN(i, N) { if (!(a.v[i] < EPS && a.v[i] > -EPS)) z = false; s += a.v[i] * a.v[i]; } double q = 1.0 / 1073741824; HV_ENSURE("has_len0", cp_vec##N##_has_len0(&a) == z); \
    HV_ENSURE("has_len1", cp_vec##N##_has_len1(&a) == (s - 1 < q && s - 1 > -q)); HV_REACH("lencls"); } \
void h_eq##N(void) { cp_vec##N##_t a = inv##N(), b = inv##N(); bool e = true; int c = 0; FORN(i, N) { double d = a.v[i] - b.v[i]; if (!(d < EPS && d > -EPS)) { e = false; if (c == 0) c = d < 0 ? -1 : 1; } } \
    HV_ENSURE("vec_eq", cp_vec##N##_eq(&a, &b) == e); HV_ENSURE("lex_cmp", cp_vec##N##_lex_cmp(&a, &b) == c); HV_REACH("eq"); } \
static void rev##N(int alias) { cp_vec##N##_t a = inv##N(), r = inv##N(), s = a, *o = alias ? &a : &r; cp_vec##N##_rev(o, &a); FORN(i, N) ENSURE_EQ("rev", o->v[i], s.v[N - 1 - i]); HV_REACH("rev"); } \
void h_rev##N(void) { if (hv_bool()) rev##N(1); else rev##N(0); }
VEC(2) VEC(3) VEC(4)
static void crs(double *e, double const *a, double const *b) { e[0] = a[1] * b[2] - a[2] * b[1]; e[1] = a[2] * b[0] - a[0] * b[2]; e[2] = a[0] * b[1] - a[1] * b[0]; }
static void cross(int alias) { cp_vec3_t x = inv3(), y = inv3(), r = inv3(), *o = alias == 0 ? &r : alias == 1 ? &x : &y; double e[3]; crs(e, x.v, y.v); cp_vec3_cross(o, &x, &y); FORN(i, 3) ENSURE_EQ("cross", o->v[i], e[i]); HV_REACH("cross"); }
void h_cross(void) { uint64_t alias = hv_range(0, 2); if (alias == 0) cross(0); else if (alias == 1) cross(1); else cross(2); }
static void cross3(int alias) { cp_vec3_t x = inv3(), c = inv3(), y = inv3(), r = inv3(), *o = alias == 0 ? &r : alias == 1 ? &x : alias == 2 ? &y : &c; double e[3], p[3], q[3]; FORN(i, 3) { p[i] = x.v[i] - c.v[i]; q[i] = y.v[i] - c.v[i]; } crs(e, p, q);
    cp_vec3_right_cross3(o, &x, &c, &y); FORN(i, 3) ENSURE_EQ("cross3", o->v[i], e[i]); HV_REACH("cross3"); }
void h_cross3(void) { uint64_t alias = hv_range(0, 3); if (alias == 0) cross3(0); else if (alias == 1) cross3(1); else if (alias == 2) cross3(2); else cross3(3); }
static void chk_normal(cp_vec3_t const *r, double const *a, double const *b)
{
    double e[3], q = 0, p = 0, s = 0, t[3]; crs(e, a, b); crs(t, r->v, e);
    FORN(i, 3) { q += r->v[i] * r->v[i]; p += r->v[i] * a[i]; s += r->v[i] * b[i]; ENSURE_EQ("normal.along_cross_product", t[i], 0); }
    ENSURE_EQ("normal.length_one", q, 1.0); ENSURE_EQ("normal.orthogonal", p, 0); ENSURE_EQ("normal.orthogonal", s, 0);
}
void h_normal(void)
{
    cp_vec3_t a = inv3(), b = inv3(), r = inv3(); double e[3]; crs(e, a.v, b.v); cp_vec3_t c = { .v = { e[0], e[1], e[2] } }; double l = cp_vec3_len(&c);
    bool ok = cp_vec3_normal(&r, &a, &b); HV_ENSURE("normal.accepts", l >= EPS ? ok : true);
    if (ok) { chk_normal(&r, a.v, b.v); double d = r.x * e[0] + r.y * e[1] + r.z * e[2]; if (l >= EPS) { ENSURE_EQ("normal.right_handed", d, l); HV_REACH("normal.direct"); } else { HV_REACH("normal.scaled"); } }
}
void h_cross_z(void)
{
    cp_vec2_t a = inv2(), o = inv2(), b = inv2(), r; double e = a.x * b.y - a.y * b.x, f = (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x);
    ENSURE_EQ("cross_z", cp_vec2_cross_z(&a, &b), e); ENSURE_EQ("right_cross3_z", cp_vec2_right_cross3_z(&a, &o, &b), f); ENSURE_EQ("left_cross3_z", cp_vec2_left_cross3_z(&a, &o, &b), -f);
    double q = 1.0 / 1073741824;
    HV_ENSURE("normal_z", cp_vec2_normal_z(&a, &b) == (e >= q ? 1 : e <= -q ? -1 : 0)); HV_ENSURE("right_normal3_z", cp_vec2_right_normal3_z(&a, &o, &b) == (f >= q ? 1 : f <= -q ? -1 : 0));
    HV_ENSURE("left_normal3_z", cp_vec2_left_normal3_z(&a, &o, &b) == (f >= q ? -1 : f <= -q ? 1 : 0));
    cp_vec2_port(&r, &a, &b); ENSURE_EQ("port.orthogonal", r.x * (b.x - a.x) + r.y * (b.y - a.y), 0); ENSURE_EQ("port.length", r.x * r.x + r.y * r.y, (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y));
    HV_REACH("cross_z");
}
void h_nearest(void)
{
    cp_vec2_t a = inv2(), u = in_sc(), p = inv2(), r; cp_vec2_nearest(&r, &a, &u, &p);
    ENSURE_EQ("nearest.on_line", (r.x - a.x) * u.y - (r.y - a.y) * u.x, 0); ENSURE_EQ("nearest.perpendicular", (p.x - r.x) * u.x + (p.y - r.y) * u.y, 0);
    cp_vec2_nearest(&p, &a, &u, &p); HV_ENSURE("nearest.in_place", EQ(p.x, r.x) && EQ(p.y, r.y)); HV_REACH("nearest");
}
void h_in_line(void)
{
    cp_vec2_t a = inv2(), b = inv2(), c = inv2(); double q = 1.0 / 1073741824, z = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); HV_ENSURE("in_line2", cp_vec2_in_line(&a, &b, &c) == (z < q && z > -q)); HV_REACH("in_line");
}
void h_in_line3(void)
{
    cp_vec3_t a = inv3(), b = inv3(), c = inv3(); double q = 1.0 / 1073741824, e[3], p[3], s[3]; FORN(i, 3) { p[i] = b.v[i] - a.v[i]; s[i] = c.v[i] - a.v[i]; } crs(e, p, s); bool t = true; FORN(i, 3) if (!(e[i] < q && e[i] > -q)) t = false;
    HV_ENSURE("in_line3", cp_vec3_in_line(&a, &b, &c) == t); HV_REACH("in_line3");
}
void h_scalar(void)
{
    double a = num(), b = num(), t = num(); ENSURE_EQ("lerp", cp_lerp(a, b, t), (1 - t) * a + t * b); ENSURE_EQ("lerp_pm.start", cp_lerp_pm(a, b, -1), a); ENSURE_EQ("lerp_pm.end", cp_lerp_pm(a, b, 1), b);
    double d = nz(); ENSURE_EQ("t01.inverts_lerp", cp_t01(a, a + t * d, a + d), t); ENSURE_EQ("t_pm.inverts_lerp_pm", cp_t_pm(a, a + (t + 1) / 2 * d, a + d), t); ENSURE_EQ("t01.degenerate", cp_t01(a, b, a), 0); HV_REACH("scalar");
}
