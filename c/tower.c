/* contracts for the tower builder of src/hob3l/csg3.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <csg3.c>
#ifdef HV_CBMC
double cp_eq_epsilon = CP_EQ_EPSILON_DEFAULT;
#ifndef TRI
#define TRI 0
#define TOP 1
#endif
#define BIGN (1ULL << 29)
/* A tower has g_fnz layers of g_fn points; point (l,j) has index l*fn+j.  Without a top ring, the last layer is one point.
 * An arbitrary directed edge (lx,jx) -> (ly,jy) is followed: how often do the faces contain it, how often its reverse. */
static size_t g_fn, g_fnz, lx, jx, ly, jy, g_k, g_i; static unsigned g_xy, g_yx, g_mode;
static bool g_flip;      /* the bottom ring shall be run backwards */
static cp_csg3_poly_t *g_o; static cp_mat3wi_t g_mat; static size_t g_pt; static unsigned g_xf;
static size_t nx(size_t j) { return j + 1 == g_fn ? 0 : j + 1; }
/* point (l,j) has one index only (lemma, proved below) */
static bool same(size_t l1, size_t j1, size_t l2, size_t j2) { return l1 == l2 && j1 == j2; }
static bool lem(size_t l1, size_t j1, size_t l2, size_t j2) { return l1 * g_fn + j1 != l2 * g_fn + j2 || same(l1, j1, l2, j2); }
static bool mono(size_t a, size_t b) { return a > b || a * g_fn <= b * g_fn; }
void h_lemma_index(void)
{
    g_fn = hv_range(3, BIGN); size_t l1 = hv_range(0, BIGN), l2 = hv_range(0, BIGN), j1 = hv_range(0, BIGN), j2 = hv_range(0, BIGN);
    HV_ASSUME(j1 < g_fn && j2 < g_fn);
    if (l1 == l2) { HV_ENSURE("lemma.index_identifies_the_point", lem(l1, j1, l2, j2)); HV_REACH("eq"); return; }
    if (l1 > l2) { size_t t = l1; l1 = l2; l2 = t; t = j1; j1 = j2; j2 = t; }
    size_t d = l2 - l1;
    HV_ENSURE("lemma.step", d * g_fn >= g_fn);
    HV_ENSURE("lemma.expand", l2 * g_fn == l1 * g_fn + d * g_fn);
    HV_ENSURE("lemma.index_identifies_the_point", lem(l1, j1, l2, j2) && lem(l2, j2, l1, j1));
    HV_REACH("end");
}
void h_lemma_mono(void)
{
    g_fn = hv_range(3, BIGN); size_t a = hv_range(0, BIGN), b = hv_range(0, BIGN); HV_ASSUME(a <= b);
    size_t d = b - a;
    HV_ENSURE("lemma.expand", b * g_fn == a * g_fn + d * g_fn);
    HV_ENSURE("lemma.monotone", mono(a, b));
    HV_REACH("end");
}
/* the side faces of ring i, position j that contain directed edge (l1,j1)->(l2,j2), when all up to (excluding) (i,j) are made */
static bool done(size_t i, size_t j, size_t ii, size_t jj) { return ii >= 1 && (ii < i || (ii == i && jj < j)); }
static unsigned b01(bool b) { return b ? 1 : 0; }
/* n(p(j)) == j */
static size_t pv(size_t j) { return j == 0 ? g_fn - 1 : j - 1; }
static unsigned listed(size_t i, size_t j, size_t l1, size_t j1, size_t l2, size_t j2)
{
    unsigned r = 0;
    if (l1 == l2) {
        r += b01(j2 == nx(j1) && done(i, j, l1 + 1, j1));           /* lower side of a face above */
        r += b01(j1 == nx(j2) && done(i, j, l1, j2));               /* upper side of a face below */
    }
    if (l2 == l1 + 1) {
        r += b01(j1 == j2 && done(i, j, l2, pv(j1)));               /* upwards */
        if (g_mode == TRI_LEFT)  r += b01(j1 == nx(j2) && done(i, j, l2, j2));
        if (g_mode == TRI_RIGHT) r += b01(j2 == nx(j1) && done(i, j, l2, j1));
    }
    if (l1 == l2 + 1) {
        r += b01(j1 == j2 && done(i, j, l1, j1));                   /* downwards */
        if (g_mode == TRI_LEFT)  r += b01(j2 == nx(j1) && done(i, j, l1, j1));
        if (g_mode == TRI_RIGHT) r += b01(j1 == nx(j2) && done(i, j, l1, j2));
    }
    return r;
}
static unsigned lid(size_t layer, size_t l1, size_t j1, size_t l2, size_t j2) { return b01(l1 == layer && l2 == layer && j2 == nx(j1)); }
/* roof triangles below j: ring fnz-2 and the point (fnz-1,0) */
static unsigned roof(size_t j, size_t l1, size_t j1, size_t l2, size_t j2)
{
    unsigned r = 0;
    r += b01(l1 == g_fnz - 2 && l2 == g_fnz - 2 && j2 == nx(j1) && j1 < j);
    r += b01(l1 == g_fnz - 2 && l2 == g_fnz - 1 && pv(j1) < j);
    r += b01(l1 == g_fnz - 1 && l2 == g_fnz - 2 && j2 < j);
    return r;
}
static unsigned cnt(size_t i, size_t j, size_t jr, size_t l1, size_t j1, size_t l2, size_t j2)
{
    unsigned r = 0;
    /* sides and roof run the other way round than the bottom */
    r += g_flip ? lid(0, l2, j2, l1, j1) + listed(i, j, l1, j1, l2, j2) : lid(0, l1, j1, l2, j2) + listed(i, j, l2, j2, l1, j1);
    if (TOP) r += g_flip ? lid(g_fnz - 1, l1, j1, l2, j2) : lid(g_fnz - 1, l2, j2, l1, j1);
    else r += g_flip ? roof(jr, l1, j1, l2, j2) : roof(jr, l2, j2, l1, j1);
    return r;
}
/* contracts of the parts */
void *c_calloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s) { return calloc(n, s); }
void c_xform(cp_vec3_t *r, cp_mat3w_t const *m, cp_vec3_t const *a)
{
    size_t k = (size_t)((cp_vec3_loc_t*)(void*)r - g_o->point.data);
    HV_ENSURE("tower.point_transformed_in_place", r == a && m == &g_mat.n && k < g_o->point.size && r == &g_o->point.data[k].coord);
    if (k == g_pt) g_xf++;
}
static unsigned g_lids;
void c_lid(size_t *k, cp_csg3_poly_t *o, cp_loc_t loc, size_t fn, bool rev, bool top)
{
    HV_ENSURE("tower.lid_arguments", o == g_o && fn == g_fn && *k == g_k && g_k < o->face.size && g_k < 2);
    HV_ENSURE("tower.orientation_as_requested", rev == g_flip);
    HV_ENSURE("tower.one_bottom_one_top", !(g_lids & (top ? 2 : 1))); g_lids |= top ? 2 : 1;
    HV_ENSURE("tower.top_ring_is_complete", !top || TOP);
    size_t la = top ? g_fnz - 1 : 0;
    bool bw = rev != top;
    g_xy += bw ? lid(la, ly, jy, lx, jx) : lid(la, lx, jx, ly, jy);
    g_yx += bw ? lid(la, lx, jx, ly, jy) : lid(la, ly, jy, lx, jx);
    g_k++; *k = g_k;
}
/* the coordinates of a point in a face of the phase at hand: g_p0 is the index of the first point of the lower ring g_i - 1 */
static size_t g_p0; static bool g_roof;
static void decode(size_t p, size_t *l, size_t *j)
{
    HV_ENSURE("tower.point_exists", p < g_o->point.size);
    HV_ENSURE("tower.point_of_this_ring_pair", p >= g_p0 && p - g_p0 < 2 * g_fn && (!g_roof || p - g_p0 <= g_fn));
    bool up = p - g_p0 >= g_fn;
    *l = up ? g_i : g_i - 1; *j = up ? p - g_p0 - g_fn : p - g_p0;
}
static unsigned hit(size_t l1, size_t j1, size_t l2, size_t j2, size_t a, size_t b, size_t c, size_t d) { return b01(l1 == a && j1 == b && l2 == c && j2 == d); }
cp_csg3_face_t *c_face(cp_csg3_face_t *face, cp_csg3_poly_t const *poly, size_t const *data, size_t size, bool rev, cp_loc_t loc)
{
    HV_ENSURE("tower.faces_made_in_order", poly == g_o && g_k < g_o->face.size && face == &g_o->face.data[g_k]);
    g_k++;
    HV_ENSURE("tower.triangles_and_quads_only", size == 3 || size == 4);
    size_t l[4], j[4];
    for (size_t e = 0; e < size; e++) decode(data[e], &l[e], &j[e]);
    for (size_t e = 0; e < size; e++) {
        size_t f = e + 1 == size ? 0 : e + 1, u = rev ? f : e, v = rev ? e : f;
        g_xy += hit(l[u], j[u], l[v], j[v], lx, jx, ly, jy);
        g_yx += hit(l[u], j[u], l[v], j[v], ly, jy, lx, jx);
    }
    return face;
}
static size_t nk(size_t i, size_t j, size_t jr)
{
    size_t t = TRI ? 2 : 1; return 1 + TOP + ((i - 1) * g_fn + j) * t + jr;
}
static bool common(void) { return g_lids == (TOP ? 3 : 1) && g_xf == 1; }
bool inv_xf(size_t i) { return i <= g_o->point.size && g_k == 0 && g_xy == 0 && g_yx == 0 && g_xf == b01(g_pt < i); }
static bool st(size_t i, size_t j, size_t jr)
{
    return common() && g_k == nk(i, j, jr) && g_xy == cnt(i, j, jr, lx, jx, ly, jy) && g_yx == cnt(i, j, jr, ly, jy, lx, jx);
}
bool inv_ring(size_t i, size_t k, size_t fn, size_t fnz, bool rev, cp_csg3_poly_t *o)
{
    if (hv_assuming()) { size_t e = TOP ? g_fnz : g_fnz - 1; HV_ASSUME(mono(i, e) && mono(e, i) && mono(1, i)); }
    return k == g_k && fn == g_fn && fnz == g_fnz && rev == g_flip && o == g_o && i >= 1 && i <= (TOP ? g_fnz : g_fnz - 1) && st(i, 0, 0);
}
bool inv_side(size_t j0, size_t i, size_t k, size_t k0, size_t k1, size_t fn, size_t fnz, bool rev, cp_csg3_poly_t *o)
{
    if (hv_assuming()) {
        g_i = i; g_roof = 0; g_p0 = k0;
        HV_ASSUME(mono(i, g_fnz - 1)); HV_ASSUME(mono(1, i)); if (!TOP) HV_ASSUME(mono(i, g_fnz - 2));
    }
    return k == g_k && fn == g_fn && fnz == g_fnz && rev == g_flip && o == g_o && i >= 1 && i < (TOP ? g_fnz : g_fnz - 1) && j0 <= g_fn && k1 == i * g_fn && k0 == k1 - g_fn && st(i, j0, 0);
}
bool inv_roof(size_t j0, size_t k, size_t kv, size_t kw, size_t fn, size_t fnz, bool rev, cp_csg3_poly_t *o)
{
    if (hv_assuming()) { g_i = g_fnz - 1; g_roof = 1; g_p0 = kv; HV_ASSUME(mono(1, g_fnz - 1)); }
    return k == g_k && fn == g_fn && fnz == g_fnz && rev == g_flip && o == g_o && j0 <= g_fn && kw == (g_fnz - 1) * g_fn && kv == kw - g_fn && st(g_fnz - 1, 0, j0);
}
void h_tower(void)
{
    static cp_csg3_poly_t o; g_o = &o; ctxt_t *c = NULL; g_mode = TRI;
    g_fn = hv_range(3, BIGN); g_fnz = hv_range(2, BIGN);
    lx = hv_range(0, BIGN); ly = hv_range(0, BIGN); jx = hv_range(0, BIGN); jy = hv_range(0, BIGN);
    HV_ASSUME(lx < g_fnz && ly < g_fnz && jx < g_fn && jy < g_fn && !same(lx, jx, ly, jy));
    if (!TOP) HV_ASSUME((lx < g_fnz - 1 || jx == 0) && (ly < g_fnz - 1 || jy == 0));
    size_t np = TOP ? g_fn * g_fnz : 1 + g_fn * (g_fnz - 1);
    HV_ASSUME(mono(1, g_fnz - 1) && mono(lx, g_fnz - 1) && mono(ly, g_fnz - 1));
    o.point.size = np; o.point.data = hv_dyn(np, sizeof(cp_vec3_loc_t)); g_pt = hv_u64(); HV_ASSUME(g_pt < np);
    g_mat.d = hv_f64(); bool rev = hv_bool(); g_flip = rev != (g_mat.d < 0);
    cp_loc_t loc = "";
    faces_n_edges_from_tower(&o, c, &g_mat, loc, g_fn, g_fnz, rev, TRI);
    HV_ENSURE("tower.every_face_made", g_k == o.face.size);
    HV_ENSURE("tower.every_point_transformed_once", g_xf == 1);
    HV_ENSURE("tower.directed_edge_at_most_once", g_xy <= 1);
    HV_ENSURE("tower.edge_and_reverse_edge_pair_up", g_xy == g_yx);
    if (lx == ly && jy == nx(jx) && (TOP || lx < g_fnz - 1)) HV_ENSURE("tower.ring_edge_is_used", g_xy == 1);
    if (!TOP && lx == g_fnz - 1 && ly == g_fnz - 2) HV_ENSURE("tower.tip_is_used", g_xy == 1);
    HV_REACH("end");
}

/* ---------------------------------------------------------------- one face: its points in the given order, reversed if requested */
static cp_csg3_face_t *g_f; static size_t *g_data, g_n, g_q, g_off; static unsigned g_rev; static cp_loc_t g_loc; static bool g_isref; static char *g_lbuf;
static void *f_calloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s)
{
    void *r = hv_dyn(n, s); hv_dyn_ptr(r, offsetof(cp_vec3_loc_ref_t, ref), g_o->point.data); hv_dyn_ptr(r, offsetof(cp_vec3_loc_ref_t, loc), g_lbuf);
    return r;
}
void *c_fcalloc(char const *f, int l, cp_alloc_t *m, size_t n, size_t s) { return f_calloc(f, l, m, n, s); }
/* element i is the right point */
static bool elem(size_t i)
{
    cp_vec3_loc_ref_t *r = &g_f->point.data[i];
    return r->ref == &g_o->point.data[g_isref ? g_data[i] : i + g_off] && r->loc == g_loc;
}
void c_rev(cp_v_t *v, size_t esz, size_t pos, size_t size)
{
    HV_ENSURE("face.all_points_reversed", v == (cp_v_t*)&g_f->point && esz == sizeof(cp_vec3_loc_ref_t) && pos == 0 && size >= g_f->point.size);
    HV_ENSURE("face.reversed_when_filled", g_f->point.size == g_n && elem(g_q));
    g_rev++;
}
bool inv_ref(size_t i)
{
    if (hv_assuming()) HV_ASSUME(i >= g_n || g_data[i] < g_o->point.size);
    return g_f->point.size == g_n && i <= g_n && g_rev == 0 && (g_q >= i || elem(g_q));
}
bool inv_lid(size_t j, cp_csg3_face_t *f) { return f == g_f && g_f->point.size == g_n && j <= g_n && g_rev == 0 && (g_q >= j || elem(g_q)); }
static void face_start(void)
{
    static cp_csg3_poly_t o; g_o = &o; size_t np = hv_range(3, BIGN); o.point.size = np; o.point.data = hv_dyn(np, sizeof(cp_vec3_loc_t));
    g_lbuf = hv_dyn(BIGN, 1); g_loc = g_lbuf + hv_range(0, BIGN); g_q = hv_range(0, BIGN);
}
void h_ref(void)
{
    face_start(); g_isref = 1;
    static cp_csg3_face_t f; g_f = &f; g_n = hv_range(3, BIGN); HV_ASSUME(g_q < g_n);
    g_data = hv_dyn(g_n, sizeof(size_t));
    HV_ASSUME(g_data[g_q] < g_o->point.size);
    bool rev = hv_bool();
    cp_csg3_face_t *r = face_init_from_point_ref(&f, g_o, g_data, g_n, rev, g_loc);
    HV_ENSURE("face.points_in_the_given_order", r == &f && f.point.size == g_n && elem(g_q) && f.loc == g_loc);
    HV_ENSURE("face.reversed_when_requested", g_rev == b01(rev));
    HV_REACH("end");
}
void h_lid(void)
{
    face_start(); g_isref = 0;
    static cp_csg3_face_t fs[2]; size_t nf = hv_range(1, BIGN), k = hv_bool(), k0 = k; HV_ASSUME(k < nf);
    g_o->face.size = nf; g_o->face.data = fs;       /* the lids are the first two faces (precondition, checked at the calls) */
    g_f = &g_o->face.data[k]; g_n = hv_range(3, BIGN); HV_ASSUME(g_n <= g_o->point.size && g_q < g_n);
    bool rev = hv_bool(), top = hv_bool(); g_off = top ? g_o->point.size - g_n : 0;
    face_from_poly_lid(&k, g_o, g_loc, g_n, rev, top);
    HV_ENSURE("lid.next_face_used", k == k0 + 1);
    HV_ENSURE("lid.ring_points_in_order", g_f->point.size == g_n && elem(g_q) && g_f->loc == g_loc);
    HV_ENSURE("lid.top_runs_against_bottom", g_rev == b01(rev != top));
    HV_REACH("end");
}
#endif
