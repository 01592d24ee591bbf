/* contracts for the bounding box functions of src/hob3l/csg3.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <csg3.c>
typedef cp_vec3_minmax_t box_t;
#ifdef HV_CBMC
double cp_eq_epsilon = CP_EQ_EPSILON_DEFAULT;
#define BIG (1ULL << 40)
/* children 0..g_n-1; the box of each is arbitrary, possibly empty (all boxes are at least 1e-5 = eps apart from inside-out) */
static double (*g_lo)[3], (*g_hi)[3]; static bool *g_emp; static size_t g_n;
static cp_csg_add_t *g_add;
static size_t g_g, g_w0, g_w1; static unsigned g_d; static bool g_max; static box_t *g_bb, g_old;
static bool g_s0, g_s1;     /* a side was attained by child g_w0 / g_w1 */
static double g_p[3]; static bool g_in;   /* a point that is in the box of every child */
static double INFP(void) { return INFINITY; }
static bool all_inf(box_t const *b) { for (unsigned i = 0; i < 3; i++) if (b->min.v[i] != INFP() || b->max.v[i] != -INFP()) return 0; return 1; }
static double lim(void) { double v = hv_f64(); HV_ASSUME(v >= -1e308 && v <= 1e308); return v; }
static bool nonempty(size_t k)
{
    for (unsigned i = 0; i < 3; i++) if (!(g_lo[k][i] <= g_hi[k][i] && g_lo[k][i] >= -1e308 && g_hi[k][i] <= 1e308)) return 0;
    return 1;
}
static cp_csg_add_t **g_v;      /* the list of children */
static size_t ch(size_t i) { return (size_t)(g_v[i] - g_add); }
static bool typed(unsigned t) { return t == CP_CSG_ADD || t == CP_CSG_XOR || t == CP_CSG_SUB || t == CP_CSG_CUT || t == CP_CSG3_SPHERE || t == CP_CSG3_POLY; }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
/* extend bb by the box of child k (contract of the recursive calls) */
static void extend(box_t *bb, size_t k)
{
    HV_ENSURE("bbox.child_of_this_node", k < g_n);
    if (g_in) HV_ASSUME(!g_emp[k]);
    if (g_emp[k]) return;
    HV_ASSUME(nonempty(k));
    if (g_in) HV_ASSUME(g_p[0] >= g_lo[k][0] && g_p[0] <= g_hi[k][0] && g_p[1] >= g_lo[k][1] && g_p[1] <= g_hi[k][1] && g_p[2] >= g_lo[k][2] && g_p[2] <= g_hi[k][2]);
    if (g_lo[k][g_d] < bb->min.v[g_d]) { g_w0 = k; g_s0 = 1; }
    if (g_hi[k][g_d] > bb->max.v[g_d]) { g_w1 = k; g_s1 = 1; }
    for (unsigned i = 0; i < 3; i++) { bb->min.v[i] = mn(bb->min.v[i], g_lo[k][i]); bb->max.v[i] = mx(bb->max.v[i], g_hi[k][i]); }
}
void c_csg3(box_t *bb, cp_csg3_t const *r, bool max)
{
    HV_ENSURE("bbox.same_box_and_mode", bb == g_bb && max == g_max);
    extend(bb, (size_t)((cp_csg_add_t const *)(void const *)r - g_add));
}
void c_addx(box_t *bb, cp_csg_add_t const *r, bool max)
{
    HV_ENSURE("bbox.same_box_and_mode", bb == g_bb && max == g_max);
    extend(bb, (size_t)(r - g_add));
}
static void list(cp_csg_add_t ***v) { *v = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(*v, 0, g_add); }
static void box_any(box_t *b)
{
    if (hv_bool()) { for (unsigned i = 0; i < 3; i++) { b->min.v[i] = INFP(); b->max.v[i] = -INFP(); } return; }
    for (unsigned i = 0; i < 3; i++) { b->min.v[i] = lim(); b->max.v[i] = lim(); HV_ASSUME(b->min.v[i] <= b->max.v[i]); }
}
static void children(void)
{
    g_n = hv_range(0, BIG); g_lo = hv_dyn(g_n, 24); g_hi = hv_dyn(g_n, 24); g_emp = hv_dyn(g_n, sizeof(bool)); g_add = hv_dyn(g_n, sizeof(cp_csg_add_t)); hv_dyn_among(g_add, offsetof(cp_csg_add_t, type), CP_CSG_ADD, CP_CSG_XOR, CP_CSG_SUB, CP_CSG_CUT, CP_CSG3_SPHERE, CP_CSG3_POLY);
    g_g = hv_range(0, BIG); HV_ASSUME(g_g < g_n); if (hv_bool()) g_d = 0; else if (hv_bool()) g_d = 1; else g_d = 2;
    g_max = hv_bool();
}
/* bb is the hull of g_old and the boxes of the children below i (axis g_d) */
static bool hull(size_t i, box_t const *bb)
{
    bool ok = bb->min.v[g_d] <= g_old.min.v[g_d] && bb->max.v[g_d] >= g_old.max.v[g_d];
    if (g_g < i && !g_emp[ch(g_g)]) ok = ok && bb->min.v[g_d] <= g_lo[ch(g_g)][g_d] && bb->max.v[g_d] >= g_hi[ch(g_g)][g_d];
    ok = ok && (g_s0 ? g_w0 < g_n && !g_emp[g_w0] && bb->min.v[g_d] == g_lo[g_w0][g_d] : bb->min.v[g_d] == g_old.min.v[g_d]);
    ok = ok && (g_s1 ? g_w1 < g_n && !g_emp[g_w1] && bb->max.v[g_d] == g_hi[g_w1][g_d] : bb->max.v[g_d] == g_old.max.v[g_d]);
    return ok;
}
static void check_hull(box_t const *bb)
{
    HV_ENSURE("bbox.contains_the_box_so_far", bb->min.v[g_d] <= g_old.min.v[g_d] && bb->max.v[g_d] >= g_old.max.v[g_d]);
    if (!g_emp[ch(g_g)]) HV_ENSURE("bbox.contains_every_part", bb->min.v[g_d] <= g_lo[ch(g_g)][g_d] && bb->max.v[g_d] >= g_hi[ch(g_g)][g_d]);
    HV_ENSURE("bbox.lower_side_attained_by_a_part", g_s0 ? g_w0 < g_n && !g_emp[g_w0] && bb->min.v[g_d] == g_lo[g_w0][g_d] : bb->min.v[g_d] == g_old.min.v[g_d]);
    HV_ENSURE("bbox.upper_side_attained_by_a_part", g_s1 ? g_w1 < g_n && !g_emp[g_w1] && bb->max.v[g_d] == g_hi[g_w1][g_d] : bb->max.v[g_d] == g_old.max.v[g_d]);
}
bool inv_hull(size_t i, box_t *bb)
{
    return i <= g_n && bb == g_bb && hull(i, bb);
}
void h_vec(void)
{
    children(); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb;
    cp_v_obj_p_t v = {0}; v.size = v.alloc = g_n; list(&g_v); v.data = (void*)g_v;
    get_bb_v_csg3(&bb, &v, g_max);
    check_hull(&bb);
    HV_REACH("end");
}

void h_xor(void)
{
    children(); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb; list(&g_v);
    cp_csg_xor_t r; r.xor.data = (void*)g_v; r.xor.size = r.xor.alloc = g_n;
    get_bb_xor(&bb, &r, g_max);
    check_hull(&bb);
    HV_REACH("end");
}
void h_add(void)
{
    children(); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb; list(&g_v);
    cp_csg_add_t r; r.add.data = (void*)g_v; r.add.size = r.add.alloc = g_n;
    get_bb_add(&bb, &r, g_max);
    check_hull(&bb);
    HV_REACH("end");
}
/* difference: the first part counts, the subtracted part only if all structures are asked for */
void h_sub(void)
{
    children(); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb; HV_ASSUME(g_n == 2); list(&g_v); HV_ASSUME(g_v[0] == &g_add[0] && g_v[1] == &g_add[1]);
    cp_csg_sub_t r; r.add = &g_add[0]; r.sub = &g_add[1];
    get_bb_sub(&bb, &r, g_max);
    if (g_max) { check_hull(&bb); HV_REACH("all"); return; }
    if (g_g == 0) check_hull(&bb);
    HV_ENSURE("bbox.subtracted_part_does_not_count", !(g_s0 && g_w0 == 1) && !(g_s1 && g_w1 == 1));
    HV_REACH("end");
}
/* intersection: the common part of the boxes counts */
static box_t *g_bb2; static double g_e = CP_EQ_EPSILON_DEFAULT;
void c_addcut(box_t *bb, cp_csg_add_t const *r, bool max)
{
    size_t k = (size_t)(r - g_add);
    HV_ENSURE("bbox.child_of_this_node", k < g_n && max == g_max);
    if (bb == g_bb) { extend(bb, k); return; }
    HV_ENSURE("bbox.part_measured_on_its_own", all_inf(bb));
    if (g_in) HV_ASSUME(!g_emp[k]);
    if (g_emp[k]) return;
    HV_ASSUME(nonempty(k));
    if (g_in) HV_ASSUME(g_p[0] >= g_lo[k][0] && g_p[0] <= g_hi[k][0] && g_p[1] >= g_lo[k][1] && g_p[1] <= g_hi[k][1] && g_p[2] >= g_lo[k][2] && g_p[2] <= g_hi[k][2]);
    for (unsigned i = 0; i < 3; i++) { bb->min.v[i] = g_lo[k][i]; bb->max.v[i] = g_hi[k][i]; }
}
bool inv_cut(size_t i, box_t *bb, box_t bb2)
{
    size_t c = ch(g_g); bool ok = i <= g_n && bb == g_bb && !g_max;
    for (unsigned d = 0; d < 3; d++) ok = ok && bb->min.v[d] == g_old.min.v[d] && bb->max.v[d] == g_old.max.v[d];
    /* not wider than any part so far */
    if (g_g < i) ok = ok && !g_emp[c] && bb2.min.v[g_d] >= g_lo[c][g_d] && bb2.max.v[g_d] <= g_hi[c][g_d] && g_lo[c][g_d] >= -1e308 && g_hi[c][g_d] <= 1e308;
    if (i == 0) ok = ok && bb2.min.v[g_d] == -INFP() && bb2.max.v[g_d] == INFP();
    /* contains what is common to all parts */
    if (g_in) for (unsigned d = 0; d < 3; d++) ok = ok && bb2.min.v[d] <= g_p[d] && bb2.max.v[d] >= g_p[d];
    for (unsigned d = 0; d < 3; d++) ok = ok && bb2.min.v[d] <= bb2.max.v[d] + g_e;
    return ok;
}
void h_cut(void)
{
    children(); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb; list(&g_v);
    for (unsigned d = 0; d < 3; d++) g_p[d] = lim();
    g_in = hv_bool();
    cp_csg_cut_t r; r.cut.data = (void*)g_v; r.cut.size = r.cut.alloc = g_n;
    get_bb_cut(&bb, &r, g_max);
    if (g_max) { check_hull(&bb); HV_REACH("all"); return; }
    HV_ENSURE("bbox.contains_the_box_so_far", bb.min.v[g_d] <= g_old.min.v[g_d] && bb.max.v[g_d] >= g_old.max.v[g_d]);
    if (g_in) HV_ENSURE("bbox.contains_what_is_common_to_all_parts", bb.min.v[g_d] <= g_p[g_d] && bb.max.v[g_d] >= g_p[g_d]);
    size_t c = ch(g_g);     /* g_n > 0: some part */
    if (g_emp[c]) HV_ENSURE("bbox.common_part_of_an_empty_part_is_empty", bb.min.v[g_d] == g_old.min.v[g_d] && bb.max.v[g_d] == g_old.max.v[g_d]);
    else {
        HV_ASSUME(nonempty(c));
        HV_ENSURE("bbox.not_below_any_part", bb.min.v[g_d] >= mn(g_old.min.v[g_d], g_lo[c][g_d]));
        HV_ENSURE("bbox.not_above_any_part", bb.max.v[g_d] <= mx(g_old.max.v[g_d], g_hi[c][g_d]));
    }
    HV_REACH("end");
}
void h_cut_none(void)
{
    box_t bb; box_any(&bb); g_old = bb; cp_csg_cut_t r; r.cut.data = NULL; r.cut.size = r.cut.alloc = 0;
    get_bb_cut(&bb, &r, hv_bool());
    for (unsigned d = 0; d < 3; d++) HV_ENSURE("bbox.empty_intersection_adds_nothing", bb.min.v[d] == g_old.min.v[d] && bb.max.v[d] == g_old.max.v[d]);
    HV_REACH("end");
}
/* polyhedra */
static cp_vec3_loc_t *g_pt; static bool g_t0, g_t1;
void c_pt(box_t *bb, cp_vec3_t const *p)
{
    size_t k = (size_t)((cp_vec3_loc_t const *)(void const*)p - g_pt);
    HV_ENSURE("bbox.vertex_of_this_polyhedron", bb == g_bb && k < g_n && p == &g_pt[k].coord);
    if (p->v[g_d] < bb->min.v[g_d]) { g_w0 = k; g_t0 = 1; }
    if (p->v[g_d] > bb->max.v[g_d]) { g_w1 = k; g_t1 = 1; }
    for (unsigned i = 0; i < 3; i++) { bb->min.v[i] = mn(bb->min.v[i], p->v[i]); bb->max.v[i] = mx(bb->max.v[i], p->v[i]); }
}
static bool pts(size_t i, box_t const *bb)
{
    bool ok = bb->min.v[g_d] <= g_old.min.v[g_d] && bb->max.v[g_d] >= g_old.max.v[g_d];
    if (g_g < i) ok = ok && bb->min.v[g_d] <= g_pt[g_g].coord.v[g_d] && bb->max.v[g_d] >= g_pt[g_g].coord.v[g_d];
    ok = ok && (g_t0 ? g_w0 < g_n && bb->min.v[g_d] == g_pt[g_w0].coord.v[g_d] : bb->min.v[g_d] == g_old.min.v[g_d]);
    ok = ok && (g_t1 ? g_w1 < g_n && bb->max.v[g_d] == g_pt[g_w1].coord.v[g_d] : bb->max.v[g_d] == g_old.max.v[g_d]);
    return ok;
}
bool inv_pts(size_t i, box_t *bb) { return i <= g_n && bb == g_bb && pts(i, bb); }
void h_poly(void)
{
    children(); g_pt = hv_dyn(g_n, sizeof(*g_pt)); box_t bb; box_any(&bb); g_old = bb; g_bb = &bb;
    cp_csg3_poly_t r; r.point.data = g_pt; r.point.size = g_n; r.face.size = hv_u64();
    get_bb_poly3(&bb, &r);
    if (g_n < 4 || r.face.size < 4) {
        HV_ENSURE("bbox.flat_polyhedron_adds_nothing", bb.min.v[g_d] == g_old.min.v[g_d] && bb.max.v[g_d] == g_old.max.v[g_d]);
        HV_REACH("flat"); return;
    }
    HV_ENSURE("bbox.contains_every_vertex", pts(g_n, &bb));
    HV_REACH("end");
}
/* the image of the unit sphere */
void h_sphere(void)
{
    cp_mat3wi_t m; box_t bb; double x[3], a[3], s = 0;
    for (unsigned i = 0; i < 3; i++) { bb.min.v[i] = hv_f64(); bb.max.v[i] = hv_f64(); m.n.w.v[i] = hv_f64(); x[i] = hv_f64(); s += x[i] * x[i]; for (unsigned j = 0; j < 3; j++) m.n.b.m[i][j] = hv_f64(); }
    box_t old = bb; unsigned d; if (hv_bool()) d = 0; else if (hv_bool()) d = 1; else d = 2;
    for (unsigned j = 0; j < 3; j++) a[j] = m.n.b.m[d][j];
    cp_csg3_sphere_t sp; sp.mat = &m;
    get_bb_sphere(&bb, &sp);
    double q = a[0]*a[0] + a[1]*a[1] + a[2]*a[2], c = sqrt(q), w = m.n.w.v[d];
    HV_ENSURE("bbox.sphere_lower_side", bb.min.v[d] == mn(old.min.v[d], w - c));
    HV_ENSURE("bbox.sphere_upper_side", bb.max.v[d] == mx(old.max.v[d], w + c));
    HV_REACH("end");
}
/* w - c and w + c are the extent of the sphere's image: no image point is outside, and both are attained */
void h_extent(void)
{
    double a[3], x[3], s = 0, v = 0; for (unsigned j = 0; j < 3; j++) { a[j] = hv_f64(); x[j] = hv_f64(); s += x[j] * x[j]; v += a[j] * x[j]; }
    double q = a[0]*a[0] + a[1]*a[1] + a[2]*a[2], c = sqrt(q);
    /* Lagrange's identity */
    double u0 = a[1]*x[2] - a[2]*x[1], u1 = a[2]*x[0] - a[0]*x[2], u2 = a[0]*x[1] - a[1]*x[0];
    HV_ENSURE("extent.lagrange", v*v + u0*u0 + u1*u1 + u2*u2 == q * s);
    HV_REACH("end");
}
void h_extent_attained(void)
{
    double a[3]; for (unsigned j = 0; j < 3; j++) a[j] = hv_f64();
    double q = a[0]*a[0] + a[1]*a[1] + a[2]*a[2]; HV_ASSUME(q > 0);
    double c = sqrt(q); HV_ASSUME(c > 0);
    double x = a[0] / c, y = a[1] / c, z = a[2] / c;
    HV_ENSURE("extent.point_on_the_sphere", (x*x + y*y + z*z) == 1);
    HV_ENSURE("extent.attained", a[0]*x + a[1]*y + a[2]*z == c);
    HV_REACH("end");
}
/* every kind of part is measured by its own function, with the same box and mode */
static unsigned g_hit; static void const *g_obj;
static void got(unsigned k, box_t *bb, void const *r) { HV_ENSURE("dispatch.same_box_and_object", bb == g_bb && r == g_obj && g_hit == 0); g_hit = k; }
void d_add(box_t *bb, cp_csg_add_t const *r, bool max) { got(1, bb, r); HV_ENSURE("dispatch.same_mode", max == g_max); }
void d_xor(box_t *bb, cp_csg_xor_t const *r, bool max) { got(2, bb, r); HV_ENSURE("dispatch.same_mode", max == g_max); }
void d_sub(box_t *bb, cp_csg_sub_t const *r, bool max) { got(3, bb, r); HV_ENSURE("dispatch.same_mode", max == g_max); }
void d_cut(box_t *bb, cp_csg_cut_t const *r, bool max) { got(4, bb, r); HV_ENSURE("dispatch.same_mode", max == g_max); }
void d_sphere(box_t *bb, cp_csg3_sphere_t const *r) { got(5, bb, r); }
void d_poly(box_t *bb, cp_csg3_poly_t const *r) { got(6, bb, r); }
void h_dispatch(void)
{
    static cp_csg_add_t a; static cp_csg_xor_t x; static cp_csg_sub_t s; static cp_csg_cut_t c; static cp_csg3_sphere_t p; static cp_csg3_poly_t o; box_t bb;
    a.type = CP_CSG_ADD; x.type = CP_CSG_XOR; s.type = CP_CSG_SUB; c.type = CP_CSG_CUT; p.type = CP_CSG3_SPHERE; o.type = CP_CSG3_POLY;
    g_bb = &bb; g_max = hv_bool(); unsigned k;
    if (hv_bool()) { g_obj = &a; k = 1; } else if (hv_bool()) { g_obj = &x; k = 2; } else if (hv_bool()) { g_obj = &s; k = 3; } else if (hv_bool()) { g_obj = &c; k = 4; } else if (hv_bool()) { g_obj = &p; k = 5; } else { g_obj = &o; k = 6; }
    get_bb_csg3(&bb, g_obj, g_max);
    HV_ENSURE("dispatch.by_kind_of_part", g_hit == k);
    cp_csg3_tree_t t; t.root = hv_bool() ? &a : NULL; g_hit = 0; g_obj = &a;
    cp_csg3_tree_minmax(&bb, &t, g_max);
    HV_ENSURE("dispatch.whole_tree", g_hit == (t.root != NULL));
    HV_REACH("end");
}
#endif
