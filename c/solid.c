/* contracts for the primitive solids of src/hob3l/csg3.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <csg3.c>
#ifdef HV_CBMC
double cp_eq_epsilon = CP_EQ_EPSILON_DEFAULT;
#define BIGN (1ULL << 29)
#define EPS CP_EQ_EPSILON_DEFAULT
#define MAXC 1e30
static double absd(double x) { return x < 0 ? -x : x; }
static bool near(double x, double y) { return absd(x - y) <= EPS; }
static double lim(void) { double v = hv_f64(); HV_ASSUME(v >= -MAXC && v <= MAXC); return v; }
static ctxt_t g_c; static local_t g_mo; static cp_csg3_tree_t g_tree; static cp_csg_opt_t g_opt; static cp_err_t g_err; static cp_v_obj_p_t g_r;
static char *g_lbuf; static cp_loc_t g_loc;
static unsigned g_said, g_made, g_pushed; static bool g_msgres;
static cp_csg3_poly_t g_o; static cp_csg3_sphere_t g_sp;
/* the composed matrix: diagonal A, translation B, on top of the caller's matrix */
static cp_mat3wi_t g_top, g_mats[8]; static unsigned g_nm; static cp_mat3wi_t const *g_m, *g_em; static double A[3], B[3], eA[3], eB[3];
cp_mat3wi_t *c_matnew(cp_csg3_tree_t *t) { HV_ENSURE("matrix.of_this_tree", t == &g_tree && g_nm < 8); return &g_mats[g_nm++]; }
void c_scale(cp_mat3wi_t *r, double x, double y, double z) { g_em = r; eA[0] = x; eA[1] = y; eA[2] = z; for (unsigned i = 0; i < 3; i++) eB[i] = 0; }
void c_xlat(cp_mat3wi_t *r, double x, double y, double z) { g_em = r; eB[0] = x; eB[1] = y; eB[2] = z; for (unsigned i = 0; i < 3; i++) eA[i] = 1; }
void c_mul(cp_mat3wi_t *r, cp_mat3wi_t const *a, cp_mat3wi_t const *b)
{
    HV_ENSURE("matrix.chain", a == g_m && b == g_em && r != g_m && r != &g_top);
    for (unsigned i = 0; i < 3; i++) { B[i] = A[i] * eB[i] + B[i]; A[i] = A[i] * eA[i]; }
    g_m = r; g_em = NULL;
}
bool c_msg(cp_syn_input_t *syn, cp_err_t *e, unsigned sev, cp_loc_t l1, cp_loc_t l2, char const *f, ...) { g_said++; return g_msgres; }
void *c_calloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s)
{
    if (s == sizeof(cp_csg3_poly_t)) { HV_ENSURE("solid.one_object", n == 1 && g_made == 0); g_made++; return &g_o; }
    if (s == sizeof(cp_csg3_sphere_t)) { HV_ENSURE("solid.one_object", n == 1 && g_made == 0); g_made++; return &g_sp; }
    void *r = hv_dyn(n, s); hv_dyn_ptr(r, offsetof(cp_vec3_loc_t, loc), g_lbuf); return r;
}
void *c_ins(cp_alloc_t *m, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    HV_ENSURE("solid.object_added_once", v == (cp_v_t*)&g_r && n == 1 && esz == sizeof(void*) && g_pushed == 0);
    g_pushed++; return NULL;
}
static void start(void)
{
    g_c.tree = &g_tree; g_c.opt = &g_opt; g_c.err = &g_err; g_c.context = IN3D; g_mo.mat = &g_top; g_m = &g_top; g_msgres = hv_bool();
    for (unsigned i = 0; i < 3; i++) { A[i] = 1; B[i] = 0; }
    g_lbuf = hv_dyn(BIGN, 1); g_loc = g_lbuf + hv_range(0, BIGN);
}

/* ---------------------------------------------------------------- cube */
static cp_vec3_t g_size; static bool g_center; static unsigned g_towers;
static cp_vec3_loc_t *pt(size_t i) { return &g_o.point.data[i]; }
bool c_tower_cube(cp_csg3_poly_t *o, ctxt_t *c, cp_mat3wi_t const *m, cp_loc_t loc, size_t fn, size_t fnz, bool rev, unsigned tri)
{
    g_towers++;
    HV_ENSURE("cube.two_rings_of_four", o == &g_o && c == &g_c && fn == 4 && fnz == 2 && tri == TRI_NONE && o->point.size == 8 && loc == g_loc);
    unsigned seen = 0;
    for (unsigned i = 0; i < 8; i++) {
        double *v = pt(i)->coord.v;
        for (unsigned k = 0; k < 3; k++) HV_ENSURE("cube.corner_coordinates", v[k] == 0 || v[k] == 1);
        seen |= 1u << ((v[0] == 1 ? 1 : 0) + (v[1] == 1 ? 2 : 0) + (v[2] == 1 ? 4 : 0));
    }
    HV_ENSURE("cube.every_corner_once", seen == 255);
    double area = 0;
    for (unsigned j = 0; j < 4; j++) {
        double *p = pt(j)->coord.v, *q = pt((j + 1) % 4)->coord.v, *u = pt(j + 4)->coord.v;
        HV_ENSURE("cube.flat_rings_on_top_of_each_other", p[2] == q[2] && p[0] == u[0] && p[1] == u[1] && p[2] != u[2]);
        HV_ENSURE("cube.ring_steps_along_one_side", (p[0] != q[0]) != (p[1] != q[1]));
        area += p[0] * q[1] - q[0] * p[1];
    }
    HV_ENSURE("cube.orientation", rev == ((area > 0) == (pt(0)->coord.v[2] > pt(4)->coord.v[2])));
    HV_ENSURE("cube.matrix_used", m == g_m);
    for (unsigned k = 0; k < 3; k++) {
        double lo = g_center ? -g_size.v[k] / 2 : 0;
        HV_ENSURE("cube.lower_side_at_its_place", near(B[k], lo));
        HV_ENSURE("cube.size_as_requested", near(A[k], g_size.v[k]));
    }
    return 1;
}
void h_cube(void)
{
    start(); cp_scad_cube_t s = {0}; s.loc = g_loc;
    for (unsigned i = 0; i < 3; i++) s.size.v[i] = g_size.v[i] = lim();
    s.center = g_center = hv_bool(); bool no = 0;
    bool ok = csg3_from_cube(&no, &g_r, &g_c, &g_mo, &s);
    bool flat = 0; for (unsigned i = 0; i < 3; i++) if (cp_eq(g_size.v[i], 0)) flat = 1;
    HV_ENSURE("cube.built_unless_empty", g_towers == !flat && g_pushed == !flat && g_said == flat);
    HV_ENSURE("cube.result", ok == (flat ? g_msgres : 1));
    HV_REACH("end");
}

/* ---------------------------------------------------------------- sphere */
static size_t g_fn; static double g_rad; static unsigned g_polys;
unsigned c_getfn(cp_detail_t const *d, unsigned mn, unsigned mx, bool circ, double a, double b, double c) { HV_ENSURE("solid.at_least_three_segments", mn >= 3); return (unsigned)g_fn; }
bool c_make_sphere(cp_csg3_poly_t *o, ctxt_t *c, cp_mat3wi_t const *m, cp_scad_sphere_t const *s, size_t fn)
{
    HV_ENSURE("sphere.polyhedron_arguments", o == &g_o && m == g_m && fn == g_fn && fn >= 3);
    g_polys++; return 1;
}
void h_sphere(void)
{
    start(); cp_scad_sphere_t s = {0}; s.loc = g_loc; s.r = g_rad = lim(); bool no = 0;
    g_fn = hv_range(0, 1ULL << 31); HV_ASSUME(g_fn == 0 || g_fn >= 3);
    bool ok = csg3_from_sphere(&no, &g_r, &g_c, &g_mo, &s);
    bool none = cp_le(g_rad, 0);
    HV_ENSURE("sphere.built_unless_empty", g_pushed == !none && g_made == !none && g_said == none && ok == (none ? g_msgres : 1));
    if (!none) {
        HV_ENSURE("sphere.exact_or_polyhedron", g_polys == (g_fn > 0) && (g_polys || g_sp.mat == g_m));
        for (unsigned k = 0; k < 3; k++) HV_ENSURE("sphere.radius_as_requested_around_origin", near(A[k], g_rad) && B[k] == 0);
    }
    HV_REACH("end");
}

/* ---------------------------------------------------------------- cylinder */
static double g_h, g_r1, g_r2;
static bool is(double a, double b) { return near(a, b); }
bool c_poly_cyl(cp_v_obj_p_t *r, ctxt_t *c, cp_mat3wi_t const *m, cp_scad_cylinder_t const *s, local_t const *mo, cp_scale_t r2, size_t fn)
{
    g_polys++;
    HV_ENSURE("cylinder.arguments", r == &g_r && c == &g_c && m == g_m && mo == &g_mo && fn == g_fn);
    /* unit ring at z=-1/2, ring of radius r2 at z=+1/2 */
    double z0 = A[2] * -.5 + B[2], z1 = A[2] * .5 + B[2], ra = A[0], rb = A[0] * r2, lo = g_center ? -g_h / 2 : 0;
    bool up = z0 < z1;
    HV_ENSURE("cylinder.round_and_on_the_axis", A[0] == A[1] && B[0] == 0 && B[1] == 0);
    HV_ENSURE("cylinder.height_and_place", is(up ? z0 : z1, lo) && is(up ? z1 : z0, lo + g_h));
    HV_ENSURE("cylinder.bottom_radius", is(up ? ra : rb, g_r1));
    HV_ENSURE("cylinder.top_radius", is(up ? rb : ra, g_r2));
    HV_ENSURE("cylinder.larger_end_is_the_unit_ring", r2 <= 1 + EPS);
    return 1;
}
void h_cylinder(void)
{
    start(); cp_scad_cylinder_t s = {0}; s.loc = g_loc; s.h = g_h = lim(); s.r1 = g_r1 = lim(); s.r2 = g_r2 = lim(); s.center = g_center = hv_bool(); bool no = 0;
    g_fn = hv_range(3, 1ULL << 31);
    bool ok = csg3_from_cylinder(&no, &g_r, &g_c, &g_mo, &s);
    bool none = cp_le(g_h, 0) || (cp_le(g_r1, 0) && cp_le(g_r2, 0));
    HV_ENSURE("cylinder.built_unless_empty", g_polys == !none && g_said == none && ok == (none ? g_msgres : 1));
    HV_REACH("end");
}
/* the points of the (unit) cylinder: angles by the circle iterator's contract (P22) */
static double *g_cos, *g_sin, g_top2; static size_t g_g;
static size_t of(size_t i, size_t n) { return (i & 1) ? (i + 1) / 2 : i == 0 ? 0 : n - i / 2; }
static size_t when(size_t g, size_t n) { return g == 0 ? 0 : g <= n / 2 ? 2 * g - 1 : 2 * (n - g); }
void c_step(cp_circle_iter_t *it)
{
    it->_i++;
    if (it->_i < it->_n) { it->idx = of(it->_i, it->_n); it->cos = g_cos[it->idx]; it->sin = g_sin[it->idx]; }
    else { it->idx = hv_range(0, BIGN); it->cos = hv_f64(); it->sin = hv_f64(); }
}
static bool iter_ok(cp_circle_iter_t i) { return i._n == g_fn && i._i <= g_fn && (i._i == g_fn || (i.idx == of(i._i, g_fn) && i.cos == g_cos[i.idx] && i.sin == g_sin[i.idx])); }
static bool at(size_t k, double x, double y, double z) { cp_vec3_loc_t *p = pt(k); return p->coord.x == x && p->coord.y == y && p->coord.z == z && p->loc == g_loc; }
bool inv_cone(cp_circle_iter_t i) { return g_o.point.size == g_fn + 1 && iter_ok(i) && (when(g_g, g_fn) >= i._i || at(g_g, g_cos[g_g], g_sin[g_g], -.5)); }
bool inv_cyl(cp_circle_iter_t i)
{
    return g_o.point.size == 2 * g_fn && iter_ok(i) && (when(g_g, g_fn) >= i._i || (at(g_g, g_cos[g_g], g_sin[g_g], -.5) && at(g_g + g_fn, g_cos[g_g] * g_top2, g_sin[g_g] * g_top2, .5)));
}
bool c_tower_cyl(cp_csg3_poly_t *o, ctxt_t *c, cp_mat3wi_t const *m, cp_loc_t loc, size_t fn, size_t fnz, bool rev, unsigned tri)
{
    g_towers++; bool tip = cp_eq(g_top2, 0);
    HV_ENSURE("cylinder.tower", o == &g_o && c == &g_c && m == &g_top && loc == g_loc && fn == g_fn && fnz == 2 && tri == TRI_NONE);
    HV_ENSURE("cylinder.point_count", o->point.size == (tip ? g_fn + 1 : 2 * g_fn));
    HV_ENSURE("cylinder.bottom_ring_counterclockwise", at(g_g, g_cos[g_g], g_sin[g_g], -.5) && !rev);
    if (tip) HV_ENSURE("cylinder.tip", at(g_fn, 0, 0, .5));
    else HV_ENSURE("cylinder.top_ring", at(g_g + g_fn, g_cos[g_g] * g_top2, g_sin[g_g] * g_top2, .5));
    return 1;
}
static void circle(void)
{
    g_fn = hv_range(3, BIGN); g_cos = hv_dyn(g_fn, sizeof(double)); g_sin = hv_dyn(g_fn, sizeof(double)); g_g = hv_range(0, BIGN); HV_ASSUME(g_g < g_fn);
    HV_ASSUME(g_cos[0] == 1 && g_sin[0] == 0);
}
void h_poly_cyl(void)
{
    start(); circle(); g_top2 = lim(); cp_scad_cylinder_t s = {0}; s.loc = g_loc;
    bool ok = csg3_poly_cylinder(&g_r, &g_c, &g_top, &s, &g_mo, g_top2, g_fn);
    HV_ENSURE("cylinder.one_tower", ok && g_towers == 1 && g_pushed == 1 && g_made == 1);
    HV_REACH("end");
}
/* the points of the polyhedron for a sphere: ring i at latitude angle (2i+1)*90/fnz from the top */
static size_t g_l, g_ring; static double g_w, g_cw, g_sw;
/* lemma (proved in lemma_mono): products are monotone */
static bool mono(size_t a, size_t b) { return a > b || a * g_fn <= b * g_fn; }
void h_lemma_mono(void)
{
    g_fn = hv_range(3, BIGN); size_t a = hv_range(0, BIGN), b = hv_range(0, BIGN); HV_ASSUME(a <= b);
    size_t d = b - a;
    HV_ENSURE("lemma.expand", b * g_fn == a * g_fn + d * g_fn);
    HV_ENSURE("lemma.monotone", mono(a, b));
    HV_REACH("end");
}
static void lemmas(size_t i)
{
    size_t z = (g_fn + 1) / 2;
    if (hv_assuming()) HV_ASSUME(mono(i + 1, z) && mono(g_l + 1, z) && mono(i + 1, g_l) && mono(g_l + 1, i) && mono(i, g_l) && mono(g_l, i));
}
/* sine/cosine of the latitude of ring g_l are named g_sw/g_cw */
static bool lat(double a, size_t i) { return a * (double)(2 * ((g_fn + 1) / 2)) == 180.0 * (double)(1 + 2 * i); }
double c_cosd(double a) { HV_ENSURE("sphere.latitude_of_ring", lat(a, g_ring)); return g_ring == g_l ? g_cw : hv_f64(); }
double c_sind(double a) { HV_ENSURE("sphere.latitude_of_ring", lat(a, g_ring)); return g_ring == g_l ? g_sw : hv_f64(); }
static bool ball(void) { return at(g_l * g_fn + g_g, g_sw * g_cos[g_g], g_sw * g_sin[g_g], g_cw); }
bool inv_ring(size_t i, cp_vec3_loc_t *p, size_t fn, size_t fnz)
{
    g_ring = i; lemmas(i);
    return fn == g_fn && fnz == (g_fn + 1) / 2 && g_o.point.size == fn * fnz && i <= fnz && p == g_o.point.data + i * g_fn && (g_l >= i || ball());
}
bool inv_circ(cp_circle_iter_t j, size_t i, cp_vec3_loc_t *p, double r, double z, size_t fn, size_t fnz)
{
    lemmas(i);
    return fn == g_fn && fnz == (g_fn + 1) / 2 && g_o.point.size == fn * fnz && i < fnz && p == g_o.point.data + i * g_fn && iter_ok(j)
        && (i != g_l || (r == g_sw && z == g_cw)) && ((g_l >= i && (g_l != i || when(g_g, g_fn) >= j._i)) || ball());
}
bool c_tower_sph(cp_csg3_poly_t *o, ctxt_t *c, cp_mat3wi_t const *m, cp_loc_t loc, size_t fn, size_t fnz, bool rev, unsigned tri)
{
    g_towers++;
    HV_ENSURE("sphere.tower", o == &g_o && c == &g_c && m == &g_top && loc == g_loc && fn == g_fn && fnz == (g_fn + 1) / 2 && fnz >= 2 && o->point.size == fn * fnz && tri == TRI_NONE);
    HV_ENSURE("sphere.ring_points_from_the_top_down", ball() && rev);
    return 1;
}
void h_make_sphere(void)
{
    start(); circle(); g_cw = hv_f64(); g_sw = hv_f64(); g_l = hv_range(0, BIGN); HV_ASSUME(g_l < (g_fn + 1) / 2);
    cp_scad_sphere_t s = {0}; s.loc = g_loc;
    HV_ASSUME(mono(g_l + 1, (g_fn + 1) / 2));
    bool ok = csg3_poly_make_sphere(&g_o, &g_c, &g_top, &s, g_fn);
    HV_ENSURE("sphere.one_tower", ok && g_towers == 1);
    HV_REACH("end");
}

/* ---------------------------------------------------------------- transformations: the children get the caller's matrix times the requested one */
/* a matrix is known by the word of elementary matrices it is the product of */
enum { TOPM, XLAT, SCALE, MIRROR, ROTV, ROTX, ROTY, ROTZ, MULT };
static struct { cp_mat3wi_t const *p; unsigned n, w[5]; } g_t[4]; static unsigned g_nt;
static unsigned word(cp_mat3wi_t const *m)
{
    for (unsigned i = 0; i < g_nt; i++) if (g_t[i].p == m) return i;
    HV_ENSURE("transform.matrix_is_known", g_nt < 4);
    g_t[g_nt].p = m; g_t[g_nt].n = 0; return g_nt++;
}
static void elem(cp_mat3wi_t const *m, unsigned k) { unsigned i = word(m); g_t[i].n = 1; g_t[i].w[0] = k; }
static double g_ang[4], g_cs[4], g_sn[4]; static cp_vec3_t g_v; static bool g_len0, g_inv;
static bool same3(cp_vec3_t const *a) { return a->x == g_v.x && a->y == g_v.y && a->z == g_v.z; }
void t_mul(cp_mat3wi_t *r, cp_mat3wi_t const *a, cp_mat3wi_t const *b)
{
    unsigned i = word(a), j = word(b), n = 0, w[5];
    HV_ENSURE("transform.matrix_is_known", g_t[i].n > 0 && g_t[j].n > 0 && g_t[i].n + g_t[j].n <= 5);
    for (unsigned k = 0; k < g_t[i].n; k++) w[n++] = g_t[i].w[k];
    for (unsigned k = 0; k < g_t[j].n; k++) w[n++] = g_t[j].w[k];
    unsigned q = word(r); g_t[q].n = n; for (unsigned k = 0; k < n; k++) g_t[q].w[k] = w[k];
    HV_ENSURE("transform.parent_matrix_kept", r != &g_top);
}
void t_xlat(cp_mat3wi_t *r, cp_vec3_t const *v) { HV_ENSURE("translate.vector", same3(v)); elem(r, XLAT); }
void t_scale(cp_mat3wi_t *r, cp_vec3_t const *v) { HV_ENSURE("scale.vector", same3(v)); elem(r, SCALE); }
void t_mirror(cp_mat3wi_t *r, cp_vec3_t const *v) { HV_ENSURE("mirror.vector", same3(v)); elem(r, MIRROR); }
static double cosof(double a) { for (unsigned k = 0; k < 4; k++) if (a == g_ang[k]) return g_cs[k]; return 0; }
static double sinof(double a) { for (unsigned k = 0; k < 4; k++) if (a == g_ang[k]) return g_sn[k]; return 0; }
static bool known(double a) { return a == g_ang[0] || a == g_ang[1] || a == g_ang[2] || a == g_ang[3]; }
double t_cos(double a) { HV_ENSURE("rotate.angle", known(a)); return cosof(a); }
double t_sin(double a) { HV_ENSURE("rotate.angle", known(a)); return sinof(a); }
static bool sc(cp_vec2_t const *q, unsigned k) { return q->v[0] == sinof(g_ang[k]) && q->v[1] == cosof(g_ang[k]); }
void t_rotv(cp_mat3wi_t *r, cp_vec3_t const *v, cp_vec2_t const *q) { HV_ENSURE("rotate.axis", same3(v)); HV_ENSURE("rotate.angle_of_axis", sc(q, 3)); elem(r, ROTV); }
void t_rotx(cp_mat3wi_t *r, cp_vec2_t const *q) { HV_ENSURE("rotate.angle_of_axis", sc(q, 0)); elem(r, ROTX); }
void t_roty(cp_mat3wi_t *r, cp_vec2_t const *q) { HV_ENSURE("rotate.angle_of_axis", sc(q, 1)); elem(r, ROTY); }
void t_rotz(cp_mat3wi_t *r, cp_vec2_t const *q) { HV_ENSURE("rotate.angle_of_axis", sc(q, 2)); elem(r, ROTZ); }
static cp_mat3w_t const *g_mm;
bool t_from(cp_mat3wi_t *r, cp_mat3w_t const *q) { HV_ENSURE("multmatrix.matrix", q == g_mm); if (g_inv) elem(r, MULT); return g_inv; }
bool t_len0(cp_vec3_t const *v) { HV_ENSURE("transform.vector", same3(v)); return g_len0; }
static cp_v_scad_p_t const *g_child; static unsigned g_calls, g_exp[5], g_ne; static bool g_no, g_ret; static double g_rgba[4]; static unsigned char g_col[4]; static unsigned g_mod;
bool t_children(bool *no, cp_v_obj_p_t *r, ctxt_t *c, local_t const *m, cp_v_scad_p_t const *ss)
{
    g_calls++;
    HV_ENSURE("transform.same_children_and_output", no == &g_no && r == &g_r && c == &g_c && ss == g_child);
    unsigned i = word(m->mat); bool eq = g_t[i].n == g_ne; for (unsigned k = 0; k < 5; k++) if (k < g_ne && g_t[i].w[k] != g_exp[k]) eq = 0;
    HV_ENSURE("transform.product_in_order", eq);
    HV_ENSURE("transform.colour", m->gc.modifier == g_mod && m->gc.color.rgb.r == g_col[0] && m->gc.color.rgb.g == g_col[1] && m->gc.color.rgb.b == g_col[2] && m->gc.color.a == g_col[3]);
    return g_ret;
}
static void tstart(unsigned a, unsigned b, unsigned c, unsigned d)
{
    start(); g_ret = hv_bool(); elem(&g_top, TOPM); g_len0 = hv_bool(); g_inv = hv_bool();
    g_exp[0] = TOPM; g_exp[1] = a; g_exp[2] = b; g_exp[3] = c; g_ne = d;
    for (unsigned i = 0; i < 3; i++) g_v.v[i] = lim();
    for (unsigned i = 0; i < 4; i++) { g_cs[i] = hv_f64(); g_sn[i] = hv_f64(); g_col[i] = hv_range(0, 255); }
    g_mo.gc.modifier = g_mod = hv_u32(); g_mo.gc.color.rgb.r = g_col[0]; g_mo.gc.color.rgb.g = g_col[1]; g_mo.gc.color.rgb.b = g_col[2]; g_mo.gc.color.a = g_col[3];
    for (unsigned i = 0; i < 3; i++) g_ang[i] = g_v.v[i];
    g_ang[3] = lim();
}
#define RUN(T, F, BAD) \
    T s; s.loc = g_loc; g_child = &s.child; SET \
    bool ok = F(&g_no, &g_r, &g_c, &g_mo, &s); bool bad = BAD; \
    HV_ENSURE("transform.children_once_or_refused", g_calls == !bad && g_said == bad && ok == (bad ? g_msgres : g_ret)); \
    HV_REACH("end");
#define SET s.v = g_v;
void h_translate(void) { tstart(XLAT, 0, 0, 0); g_ne = g_len0 ? 1 : 2; RUN(cp_scad_translate_t, csg3_from_translate, 0) }
void h_mirror(void) { tstart(MIRROR, 0, 0, 2); RUN(cp_scad_mirror_t, csg3_from_mirror, g_len0) }
void h_scale(void) { tstart(SCALE, 0, 0, 2); RUN(cp_scad_scale_t, csg3_from_scale, cp_eq(g_v.x, 0) || cp_eq(g_v.y, 0) || cp_eq(g_v.z, 0)) }
#undef SET
#define SET g_mm = &s.m;
void h_multmatrix(void) { tstart(MULT, 0, 0, 2); RUN(cp_scad_multmatrix_t, csg3_from_multmatrix, !g_inv) }
#undef SET
#define SET s.around_n = g_center; s.n = g_v; s.a = g_ang[3];
void h_rotate(void)
{
    g_center = hv_bool(); if (g_center) tstart(ROTV, 0, 0, 2); else tstart(ROTZ, ROTY, ROTX, 4);
    RUN(cp_scad_rotate_t, csg3_from_rotate, 0)
}
#undef SET
#define SET s.valid = hv_bool(); s.rgba.a = g_col[3] = hv_range(0, 255); s.rgba.rgb.r = hv_range(0, 255); s.rgba.rgb.g = hv_range(0, 255); s.rgba.rgb.b = hv_range(0, 255); \
    if (s.valid) { g_col[0] = s.rgba.rgb.r; g_col[1] = s.rgba.rgb.g; g_col[2] = s.rgba.rgb.b; }
void h_color(void) { tstart(0, 0, 0, 1); RUN(cp_scad_color_t, csg3_from_color, 0) }
#endif
