/* contracts for src/hob3l/csg2-2stl.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <csg2-2stl.c>

/* ---------------------------------------------------------------- one binary record (bit-precise) */
static unsigned char g_buf[80]; static size_t g_len; static int g_dst;
static void wr(void *d, void const *b, size_t n)
{
    HV_ENSURE("record.written_to_the_given_stream", d == &g_dst);
    HV_ENSURE("record.at_most_50_bytes", g_len + n <= sizeof(g_buf));
    for (size_t i = 0; i < n; i++) g_buf[g_len + i] = ((unsigned char const *)b)[i];
    g_len += n;
}
static uint32_t le(size_t o) { return (uint32_t)g_buf[o] | (uint32_t)g_buf[o + 1] << 8 | (uint32_t)g_buf[o + 2] << 16 | (uint32_t)g_buf[o + 3] << 24; }
static uint32_t fbits(double d) { union { float f; uint32_t u; } x; x.f = (float)d; return x.u; }
void h_record(void)
{
    double v[12]; for (int i = 0; i < 12; i++) { v[i] = hv_f64(); HV_ASSUME(v[i] == v[i]); }
    cp_vec2_loc_t a, b, c;
    a.coord.x = v[3]; a.coord.y = v[4]; b.coord.x = v[6]; b.coord.y = v[7]; c.coord.x = v[9]; c.coord.y = v[10];
    cp_stream_t s = { .data = &g_dst, .write = wr };
    unsigned n0 = hv_u32();
    ctxt_t x = { .stream = &s, .bin = true, .tri_count = n0 };
    g_len = 0;
    triangle_put_stl(&x, v[0], v[1], v[2], &a, v[5], &b, v[8], &c, v[11]);
    HV_ENSURE("record.exactly_50_bytes", g_len == 50);
    for (unsigned i = 0; i < 12; i++) HV_ENSURE("record.little_endian_floats_in_order", le(4 * i) == fbits(v[i]));
    HV_ENSURE("record.attribute_is_zero", g_buf[48] == 0 && g_buf[49] == 0);
    HV_ENSURE("record.counted_once", x.tri_count == n0 + 1);
    HV_REACH("record");
}
void h_count_only(void)
{
    cp_vec2_loc_t a = { 0 };
    unsigned n0 = hv_u32();
    ctxt_t x = { .stream = NULL, .bin = true, .tri_count = n0 };
    triangle_put_stl(&x, hv_f64(), hv_f64(), hv_f64(), &a, hv_f64(), &a, hv_f64(), &a, hv_f64());
    HV_ENSURE("record.counting_pass_counts_alike", x.tri_count == n0 + 1);
    HV_REACH("count_only");
}

#ifdef HV_CBMC
/* ---------------------------------------------------------------- one text facet */
static double g_in[12]; static int g_prints; static cp_stream_t *g_st;
void c_printf(cp_stream_t *s, char const *form, double a, double b, double c, double d, double e, double f, double g, double h, double i, double j, double k, double l)
{
    (void)form;
    double v[12] = { a, b, c, d, e, f, g, h, i, j, k, l };
    HV_ENSURE("facet.to_the_given_stream", s == g_st);
    for (int q = 0; q < 12; q++) HV_ENSURE("facet.normal_and_vertices_in_order", v[q] == g_in[q]);
    g_prints++;
}
void h_text(void)
{
    for (int i = 0; i < 12; i++) g_in[i] = hv_f64();
    cp_vec2_loc_t a, b, c;
    a.coord.x = g_in[3]; a.coord.y = g_in[4]; b.coord.x = g_in[6]; b.coord.y = g_in[7]; c.coord.x = g_in[9]; c.coord.y = g_in[10];
    cp_stream_t s; g_st = &s;
    ctxt_t x = { .stream = &s, .bin = false, .tri_count = hv_range(0, 1u << 31) };
    unsigned n0 = x.tri_count;
    triangle_put_stl(&x, g_in[0], g_in[1], g_in[2], &a, g_in[5], &b, g_in[8], &c, g_in[11]);
    HV_ENSURE("facet.written_once", g_prints == 1 && x.tri_count == n0 + 1);
    HV_REACH("text");
}

/* ---------------------------------------------------------------- the two side triangles of an outline edge */
typedef struct { double n[3]; cp_vec2_loc_t const *p[3]; double z[3]; } tri_t;
static tri_t g_t[2]; static unsigned g_nt; static ctxt_t *g_ctx; static double g_nrm[3], g_na[9]; static unsigned g_nn;
void c_tri(ctxt_t *c, double xn, double yn, double zn, cp_vec2_loc_t const *a, double za, cp_vec2_loc_t const *b, double zb, cp_vec2_loc_t const *d, double zd)
{
    HV_ENSURE("side.two_triangles_only", g_nt < 2 && c == g_ctx);
    tri_t t = { { xn, yn, zn }, { a, b, d }, { za, zb, zd } };
    g_t[g_nt++] = t;
    c->tri_count++;
}
bool c_normal(cp_vec3_t *r, cp_vec3_t const *a, cp_vec3_t const *o, cp_vec3_t const *b)
{
    for (int i = 0; i < 3; i++) { g_na[i] = a->v[i]; g_na[3 + i] = o->v[i]; g_na[6 + i] = b->v[i]; r->v[i] = g_nrm[i]; }
    g_nn++;
    return true;
}
/* triangle t is (a,za),(b,zb),(c,zc) up to rotation */
static bool is_tri(tri_t const *t, cp_vec2_loc_t const *a, double za, cp_vec2_loc_t const *b, double zb, cp_vec2_loc_t const *c, double zc)
{
    for (int r = 0; r < 3; r++)
        if (t->p[r] == a && t->z[r] == za && t->p[(r + 1) % 3] == b && t->z[(r + 1) % 3] == zb && t->p[(r + 2) % 3] == c && t->z[(r + 2) % 3] == zc) return true;
    return false;
}
void h_edge(void)
{
    cp_vec2_loc_t d[2];
    for (int i = 0; i < 2; i++) { d[i].coord.x = hv_f64(); d[i].coord.y = hv_f64(); }
    cp_v_vec2_loc_t pt = { .data = d, .size = 2 };
    double z0 = hv_f64(), z1 = hv_f64();
    HV_ASSUME(z0 < z1);
    for (int i = 0; i < 3; i++) g_nrm[i] = hv_f64();
    ctxt_t x = { .tri_count = 7 }; g_ctx = &x;
    size_t j = 0, k = 1; if (hv_bool()) { j = 1; k = 0; }
    poly_put_stl_outline_edge(&x, &pt, z0, z1, j, k);
    HV_ENSURE("side.two_triangles", g_nt == 2 && x.tri_count == 9);
    cp_vec2_loc_t const *pj = &d[j], *pk = &d[k];
    bool fst = is_tri(&g_t[0], pk, z0, pj, z1, pk, z1) && is_tri(&g_t[1], pk, z0, pj, z0, pj, z1);
    bool snd = is_tri(&g_t[1], pk, z0, pj, z1, pk, z1) && is_tri(&g_t[0], pk, z0, pj, z0, pj, z1);
    bool alt = (is_tri(&g_t[0], pj, z0, pj, z1, pk, z1) && is_tri(&g_t[1], pj, z0, pk, z1, pk, z0)) || (is_tri(&g_t[1], pj, z0, pj, z1, pk, z1) && is_tri(&g_t[0], pj, z0, pk, z1, pk, z0));
    HV_ENSURE("side.quad_facing_outward", fst || snd || alt);
    HV_ENSURE("side.normal_written", g_nn == 1 && g_t[0].n[0] == g_nrm[0] && g_t[0].n[1] == g_nrm[1] && g_t[0].n[2] == g_nrm[2] && g_t[1].n[0] == g_nrm[0] && g_t[1].n[1] == g_nrm[1] && g_t[1].n[2] == g_nrm[2]);
    /* the normal is that of a triangle of the quad, taken in the left-handed argument order (see h_normal) */
    double A[4][3] = { { pk->coord.x, pk->coord.y, z0 }, { pj->coord.x, pj->coord.y, z0 }, { pj->coord.x, pj->coord.y, z1 }, { pk->coord.x, pk->coord.y, z1 } };
    int at[3] = { -1, -1, -1 };
    for (int q = 0; q < 3; q++) for (int v = 0; v < 4; v++) if (g_na[3 * q] == A[v][0] && g_na[3 * q + 1] == A[v][1] && g_na[3 * q + 2] == A[v][2]) at[q] = v;
    if (pj->coord.x != pk->coord.x)
        HV_ENSURE("side.normal_of_the_quad", at[0] >= 0 && at[1] >= 0 && at[2] >= 0 && at[0] != at[1] && at[1] != at[2] && at[0] != at[2] &&
            ((at[1] - at[0] + 4) % 4 + (at[2] - at[1] + 4) % 4 + (at[0] - at[2] + 4) % 4 == 4));
    HV_REACH("edge");
}
/* the normal: perpendicular, on the side from which a, o, b run counter-clockwise */
void h_normal(void)
{
    cp_vec3_t a, o, b, n;
    for (int i = 0; i < 3; i++) { a.v[i] = hv_f64(); o.v[i] = hv_f64(); b.v[i] = hv_f64(); }
    double u[3], v[3], c[3];
    for (int i = 0; i < 3; i++) { u[i] = o.v[i] - a.v[i]; v[i] = b.v[i] - o.v[i]; }
    for (int i = 0; i < 3; i++) c[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3];
    double l2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2], l = sqrt(l2);
    HV_ASSUME(l > 0);
    bool ok = cp_vec3_left_normal3_x(&n, &a, &o, &b);
    HV_ENSURE("normal.exists", ok);
    for (int i = 0; i < 3; i++) HV_ENSURE("normal.unit_cross_product", n.v[i] * l == c[i]);
    HV_REACH("normal");
}

/* ---------------------------------------------------------------- one layer polygon */
static cp_csg2_tri_t *g_tri; static cp_vec2_loc_t *g_pt; static size_t g_n, g_m, g_cur, g_zi; static double g_z0, g_z1; static unsigned g_ph, g_mask, g_emit, g_base, g_sides;
static bool g_flat;
static void lpre(size_t i) { if (i < g_n) for (int k = 0; k < 3; k++) HV_ASSUME(g_tri[i].p[k] < g_m); }
static unsigned nside(unsigned f) { return (f & 1) + ((f >> 1) & 1) + ((f >> 2) & 1); }
static bool linv(unsigned ph, size_t i)
{
    if (hv_assuming()) { g_ph = ph; g_cur = i; g_mask = 0; g_emit = 0; lpre(i); return i <= g_n; }
    if (i == 0) return g_emit == 0;
    unsigned want = ph == 3 ? (unsigned)g_tri[g_cur].flags & 7 : 1;
    return i <= g_n && i == g_cur + 1 && g_ph == ph && g_mask == want && g_emit == (ph == 3 ? nside(want) : 1);
}
bool inv_top(size_t i) { return linv(1, i); }
bool inv_bot(size_t i) { return linv(2, i); }
bool inv_side(size_t i) { return linv(3, i); }
static size_t idx(cp_vec2_loc_t const *p) { return (size_t)(p - g_pt); }
void c_tri2(ctxt_t *c, double xn, double yn, double zn, cp_vec2_loc_t const *a, double za, cp_vec2_loc_t const *b, double zb, cp_vec2_loc_t const *d, double zd)
{
    size_t const *p = g_tri[g_cur].p; size_t q[3] = { idx(a), idx(b), idx(d) };
    bool top = za == g_z1 && zb == g_z1 && zd == g_z1 && xn == 0 && yn == 0 && zn == 1;
    bool bot = za == g_z0 && zb == g_z0 && zd == g_z0 && xn == 0 && yn == 0 && zn == -1;
    HV_ENSURE("layer.triangle_of_the_polygon", g_ph == 1 ? top : g_ph == 2 && bot);
    bool same = (q[0] == p[0] && q[1] == p[1] && q[2] == p[2]) || (q[0] == p[1] && q[1] == p[2] && q[2] == p[0]) || (q[0] == p[2] && q[1] == p[0] && q[2] == p[1]);
    bool rev = (q[0] == p[1] && q[1] == p[0] && q[2] == p[2]) || (q[0] == p[0] && q[1] == p[2] && q[2] == p[1]) || (q[0] == p[2] && q[1] == p[1] && q[2] == p[0]);
    HV_ENSURE("layer.bottom_as_triangulated_top_reversed", g_ph == 1 ? rev : same);
    g_mask |= 1; g_emit++; c->tri_count++;
}
void c_edge2(ctxt_t *c, cp_v_vec2_loc_t const *point, double z0, double z1, size_t ij, size_t ik)
{
    size_t const *p = g_tri[g_cur].p;
    HV_ENSURE("layer.side_of_the_polygon", g_ph == 3 && point->data == g_pt && point->size == g_m && z0 == g_z0 && z1 == g_z1 && ij < g_m && ik < g_m);
    unsigned f = (unsigned)g_tri[g_cur].flags & 7, k = g_emit;
    /* sides are written in the order of the flags: edge e = (p[e], p[e+1]) */
    unsigned e = 3;
    for (unsigned q = 0; q < 3; q++) if (e == 3 && ((f >> q) & 1) && !((g_mask >> q) & 1)) e = q;
    HV_ENSURE("layer.side_only_for_outline_edges", e < 3);
    if (e < 3) HV_ENSURE("layer.side_of_the_flagged_edge", ij == p[e] && ik == p[e == 2 ? 0 : e + 1]);
    g_mask |= 1u << e; g_emit = k + 1; c->tri_count += 2;
}
void h_layer(void)
{
    g_n = hv_range(0, 1ULL << 40); g_m = hv_range(0, 1ULL << 40);
    g_tri = hv_dyn(g_n, sizeof(cp_csg2_tri_t)); g_pt = hv_dyn(g_m, sizeof(cp_vec2_loc_t));
    size_t nz = hv_range(1, 1ULL << 40); double *z = hv_dyn(nz, sizeof(double));
    g_zi = hv_range(0, 1ULL << 40); HV_ASSUME(g_zi < nz);
    cp_csg_opt_t opt; opt.layer_gap = hv_f64();
    cp_csg2_tree_t t; t.z.data = z; t.z.size = nz; t.opt = &opt; t.thick = hv_f64();
    cp_csg2_poly_t r; r.tri.data = g_tri; r.tri.size = g_n; r.point.data = g_pt; r.point.size = g_m;
    double gap = opt.layer_gap; if (gap < -1 + 1.0 / 32768 && gap > -1 - 1.0 / 32768) gap = 0.01;
    g_z0 = z[g_zi]; g_z1 = t.thick > gap ? g_z0 + (t.thick - gap) : g_z0;
    HV_ASSUME(g_z1 - g_z0 >= 1.0 / 32768);      /* thinner layers are flat: no solid */
    ctxt_t x = { .tree = &t, .tri_count = 0 };
    g_emit = 0; g_ph = 0;
    poly_put_stl(&x, g_zi, &r);
    HV_ENSURE("layer.all_parts_written", g_ph == 3 && g_cur == g_n);
    HV_REACH("layer");
}
double c_thick(cp_csg2_tree_t *r, size_t zi) { HV_ENSURE("layer.thickness_of_this_layer", zi == g_zi); return r->thick; }

/* ---------------------------------------------------------------- lemma: the boundary chain of what is written for one triangle */
static int hit(size_t a, int la, size_t b, int lb, size_t u, int lu, size_t v, int lv)    /* directed edge (a,la)->(b,lb) counted against (u,lu)->(v,lv) */
{ return (a == u && la == lu && b == v && lb == lv) - (a == v && la == lv && b == u && lb == lu); }
static int tri_chain(size_t a, int la, size_t b, int lb, size_t c, int lc, size_t u, int lu, size_t v, int lv)
{ return hit(a, la, b, lb, u, lu, v, lv) + hit(b, lb, c, lc, u, lu, v, lv) + hit(c, lc, a, la, u, lu, v, lv); }
void h_chain(void)
{
    size_t p[3], u = hv_u64(), v = hv_u64(); int lu = hv_bool(), lv = hv_bool(); unsigned f = (unsigned)hv_range(0, 7);
    for (int i = 0; i < 3; i++) p[i] = hv_u64();
    int s = tri_chain(p[1], 1, p[0], 1, p[2], 1, u, lu, v, lv) + tri_chain(p[0], 0, p[1], 0, p[2], 0, u, lu, v, lv), e = 0;
    for (unsigned q = 0; q < 3; q++) {
        size_t j = p[q], k = p[q == 2 ? 0 : q + 1];
        if ((f >> q) & 1) {
            s += tri_chain(k, 0, j, 1, k, 1, u, lu, v, lv) + tri_chain(k, 0, j, 0, j, 1, u, lu, v, lv);
            e += hit(k, 1, k, 0, u, lu, v, lv) + hit(j, 0, j, 1, u, lu, v, lv);      /* only the verticals remain: cancelled by the neighbouring outline edges */
        }
        else e += hit(k, 1, j, 1, u, lu, v, lv) + hit(j, 0, k, 0, u, lu, v, lv);     /* cancelled by the adjacent triangle */
    }
    HV_ENSURE("chain.only_inner_edges_and_outline_verticals_remain", s == e);
    HV_REACH("chain");
}

/* ---------------------------------------------------------------- the file and the traversal */
static unsigned g_total, g_pass, g_w80, g_w4; static bool g_bin; static cp_stream_t g_s; static cp_csg2_tree_t *g_tr; static cp_csg2_t *g_root; static unsigned char g_cnt[4]; static unsigned g_seq;
void wr_file(void *d, void const *b, size_t n)
{
    (void)d;
    if (g_seq == 0) { HV_ENSURE("file.header_of_80_zero_bytes", n == 80); for (int i = 0; i < 80; i++) HV_ENSURE("file.header_of_80_zero_bytes", ((unsigned char const*)b)[i] == 0); g_seq = 1; }
    else { HV_ENSURE("file.count_after_header", g_seq == 1 && n == 4); for (int i = 0; i < 4; i++) g_cnt[i] = ((unsigned char const*)b)[i]; g_seq = 2; }
}
void c_put(ctxt_t *c, size_t zi, cp_csg2_t *r)
{
    (void)zi;
    HV_ENSURE("file.traverses_the_whole_tree", r == g_root && c->tree == g_tr && c->bin == g_bin);
    if (c->stream != NULL) { HV_ENSURE("file.records_after_header", c->stream == &g_s && (g_bin ? g_seq == 2 : g_seq == 10)); g_seq++; }
    else HV_ENSURE("file.counted_before_writing", g_bin && g_seq == 0);
    c->tri_count += g_total; g_pass++;
}
void c_puts(cp_stream_t *s, char const *form) { (void)form; HV_ENSURE("file.text_frame", s == &g_s && !g_bin && (g_seq == 0 || g_seq == 11)); g_seq += 10; }
void h_file(void)
{
    cp_csg2_t root; cp_csg2_tree_t t; g_tr = &t; t.root = g_root = &root;
    g_s.write = wr_file; g_s.data = &g_s;
    g_bin = hv_bool(); g_total = (unsigned)hv_range(0, UINT32_MAX);
    cp_csg2_tree_put_stl(&g_s, &t, g_bin);
    if (g_bin) {
        HV_ENSURE("file.written_once", g_seq == 3 && g_pass == 2);
        HV_ENSURE("file.count_is_number_of_records", (uint64_t)g_cnt[0] + 256 * (uint64_t)g_cnt[1] + 65536 * (uint64_t)g_cnt[2] + 16777216 * (uint64_t)g_cnt[3] == g_total);
    }
    else HV_ENSURE("file.written_once", g_seq == 21 && g_pass == 1);
    HV_REACH("file");
}
/* traversal: every member of a list in order; of a stack, every nonempty layer with its own index */
static cp_v_obj_p_t *g_v; static size_t g_done, g_w; static cp_csg2_t *g_objs;
void c_put1(ctxt_t *c, size_t zi, cp_csg2_t *r)
{
    HV_ENSURE("traversal.member_with_same_layer", c == g_ctx && zi == g_zi && g_done < g_n && r == (cp_csg2_t*)g_v->data[g_done]);
    g_done++;
}
bool inv_v(size_t i) { return i <= g_n && g_done == i; }
void h_list(void)
{
    g_n = hv_range(0, 1ULL << 40); g_m = hv_range(1, 1ULL << 40);
    cp_obj_t **d = hv_dyn(g_n, sizeof(cp_obj_t*)); g_objs = hv_dyn(g_m, sizeof(cp_csg2_t));
    hv_dyn_ptr(d, 0, g_objs); hv_dyn_among(g_objs, offsetof(cp_csg2_t, type), CP_CSG2_POLY, CP_CSG_ADD, CP_CSG2_STACK);
    cp_v_obj_p_t v; v.data = d; v.size = g_n; g_v = &v; g_zi = hv_u64();
    ctxt_t x; g_ctx = &x;
    v_csg2_put_stl(&x, g_zi, &v);
    HV_ENSURE("traversal.every_member_once", g_done == g_n);
    HV_REACH("list");
}
static cp_csg2_layer_t *g_lay; static cp_csg_add_t *g_adds; static size_t g_i0; static unsigned g_calls;
void c_vput(ctxt_t *c, size_t zi, cp_v_obj_p_t *r)
{
    HV_ENSURE("traversal.layer_with_its_index", c == g_ctx && g_cur < g_n && zi == g_i0 + g_cur && r == &g_lay[g_cur].root->add);
    g_calls++;
}
bool inv_st(size_t i)
{
    if (hv_assuming()) { g_cur = i; g_calls = 0; if (i < g_n) HV_ASSUME(g_lay[i].zi == g_i0 + i); return i <= g_n; }
    return i <= g_n && (i == 0 ? g_calls == 0 : g_calls == (g_lay[g_cur].root->add.size != 0 ? 1 : 0) && i == g_cur + 1);
}
void h_stack(void)
{
    g_n = hv_range(0, 1ULL << 40); g_m = hv_range(1, 1ULL << 40); g_i0 = hv_range(0, 1ULL << 40);
    g_lay = hv_dyn(g_n, sizeof(cp_csg2_layer_t)); g_adds = hv_dyn(g_m, sizeof(cp_csg_add_t));
    hv_dyn_ptr(g_lay, offsetof(cp_csg2_layer_t, root), g_adds);
    cp_csg2_stack_t s; s.idx0 = g_i0; s.layer.data = g_lay; s.layer.size = g_n;
    ctxt_t x; g_ctx = &x;
    stack_put_stl(&x, &s);
    HV_ENSURE("traversal.every_layer", g_cur == g_n);
    HV_REACH("stack");
}
/* dispatch by type */
static void *g_want; static unsigned g_kind;
void d_v(ctxt_t *c, size_t zi, cp_v_obj_p_t *r) { HV_ENSURE("traversal.members_of_the_node", c == g_ctx && zi == g_zi && r == g_want); g_kind = 1; }
void d_poly(ctxt_t *c, size_t zi, cp_csg2_poly_t *r) { HV_ENSURE("traversal.the_polygon", c == g_ctx && zi == g_zi && r == g_want); g_kind = 2; }
void d_stack(ctxt_t *c, cp_csg2_stack_t *r) { HV_ENSURE("traversal.the_stack", c == g_ctx && r == g_want); g_kind = 3; }
void h_dispatch(void)
{
    ctxt_t x; g_ctx = &x; g_zi = hv_u64();
    unsigned k = (unsigned)hv_range(0, 3);
    if (k == 0) { csg2_put_stl(&x, g_zi, NULL); HV_ENSURE("traversal.null_writes_nothing", g_kind == 0); }
    else if (k == 1) { cp_csg_add_t a; a.type = CP_CSG_ADD; g_want = &a.add; csg2_put_stl(&x, g_zi, (void*)&a); HV_ENSURE("traversal.union", g_kind == 1); }
    else if (k == 2) { cp_csg2_poly_t a; a.type = CP_CSG2_POLY; g_want = &a; csg2_put_stl(&x, g_zi, (void*)&a); HV_ENSURE("traversal.polygon", g_kind == 2); }
    else { cp_csg2_stack_t a; a.type = CP_CSG2_STACK; g_want = &a; csg2_put_stl(&x, g_zi, (void*)&a); HV_ENSURE("traversal.stack", g_kind == 3); }
    HV_REACH("dispatch");
}
#endif
