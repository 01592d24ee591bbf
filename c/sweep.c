/* contracts for the event orders of src/hob3lop/op-sweep.c, op-sweep-internal.h (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>
typedef __int128 W;
typedef unsigned __int128 UW;
static void hv_fail_exit(void) { HV_ENSURE("no_overflow_failure", false); HV_STOP(); }
void cq_fail(char const *m) { (void)m; hv_fail_exit(); while (1) {} }
char const *cq_dim_scale_str_(char *d, size_t n) { (void)n; return d; }
static int hv_noprint(void) { return 0; }
#define abort() hv_fail_exit()
#define exit(x) hv_fail_exit()
#define fprintf(...) hv_noprint()
#include <matq.c>
#undef fprintf
#include <op-sweep.c>
#undef abort
#undef exit

#define COORD ((1 << CQ_INT_DIG) - 1)
static cq_vec2_t in_vec(void) { cq_vec2_t v; v.x = (cq_dim_t)hv_irange(-COORD, COORD); v.y = (cq_dim_t)hv_irange(-COORD, COORD); return v; }
static int sg(W x) { return x < 0 ? -1 : x > 0 ? +1 : 0; }
static W cr(cq_vec2_t o, cq_vec2_t a, cq_vec2_t b)     /* (a-o) x (b-o) */
{ return ((W)a.x - o.x) * ((W)b.y - o.y) - ((W)a.y - o.y) * ((W)b.x - o.x); }
static int lex(cq_vec2_t a, cq_vec2_t b) { return a.x < b.x ? -1 : a.x > b.x ? +1 : a.y < b.y ? -1 : a.y > b.y ? +1 : 0; }
static int lexs(cq_vec2_t a, cq_vec2_t b) { return a.x < b.x ? -1 : a.x > b.x ? +1 : a.y < b.y ? +1 : a.y > b.y ? -1 : 0; }
static void mk_edge(edge_t *e)
{
    memset(e, 0, sizeof(*e));
    e->left.vec2 = in_vec(); e->rigt.vec2 = in_vec();
    e->left.side = LEFT; e->rigt.side = RIGT;
    HV_ASSUME(lex(e->left.vec2, e->rigt.vec2) < 0);
}
static edge_t A, B;
static data_t D;
/* the order of end points: position (y mirrored in the southern pass), RIGT before LEFT, angle */
static int spec_vertex(cq_vec2_t a, unsigned as, cq_vec2_t ao, cq_vec2_t b, unsigned bs, cq_vec2_t bo, bool south)
{
    int i = south ? lexs(a, b) : lex(a, b);
    if (i != 0) return i;
    if (as != bs) return as == RIGT ? -1 : +1;
    return sg(cr(a, ao, bo));
}
static void vertex_case(bool sa, bool sb, int f)
{
    vertex_t *a = sa ? &A.rigt : &A.left, *ao = sa ? &A.left : &A.rigt;
    vertex_t *b = sb ? &B.rigt : &B.left, *bo = sb ? &B.left : &B.rigt;
    if (f == 0) {
        D.phase = INTERSECT;
        int r = cq_sweep_agenda_vertex_phase1_cmp(&a->in_agenda, &b->in_agenda, &D);
        HV_ENSURE("phase1.vertex_order", r == spec_vertex(a->vec2, sa, ao->vec2, b->vec2, sb, bo->vec2, false));
        HV_REACH("phase1");
    }
    else if (f == 1 || f == 2) {
        D.phase = f == 1 ? SNAP_NORTH : SNAP_SOUTH;
        int r = cq_sweep_agenda_vertex_phase2_cmp(&a->in_agenda, &b->in_agenda, &D);
        HV_ENSURE("phase2.vertex_order", r == spec_vertex(a->vec2, sa, ao->vec2, b->vec2, sb, bo->vec2, f == 2));
        HV_REACH("phase2");
    }
    else {
        D.phase = SNAP_NORTH;
        /* overlapping edges have been made equal before (snap rounding) */
        int e = lex(a->vec2, b->vec2);
        HV_ASSUME(!(e == 0 && sa == sb && cr(a->vec2, ao->vec2, bo->vec2) == 0 && lex(ao->vec2, bo->vec2) != 0));
        int r = cq_sweep_result_vertex_cmp(&a->in_agenda, &b->in_agenda, &D);
        if (e == 0) e = sa != sb ? (sa ? -1 : +1) : sg(cr(a->vec2, bo->vec2, ao->vec2));
        HV_ENSURE("result.vertex_order", r == e);
        HV_REACH("result");
    }
}
static void vertex_all(int f) { mk_edge(&A); mk_edge(&B); bool sa = hv_bool(), sb = hv_bool(); if (sa) { if (sb) vertex_case(true, true, f); else vertex_case(true, false, f); } else { if (sb) vertex_case(false, true, f); else vertex_case(false, false, f); } }
void h_vertex1(void) { vertex_all(0); }
void h_vertex2n(void) { vertex_all(1); }
void h_vertex2s(void) { vertex_all(2); }
void h_result(void) { vertex_all(3); }

/* the specified order is total: reversing it flips the sign, and it is transitive */
void h_order_lemma(void)
{
    cq_vec2_t a = in_vec(), b = in_vec(), ao = in_vec(), bo = in_vec();
    bool sa = hv_bool(), sb = hv_bool(), s = hv_bool();
    HV_ENSURE("lemma.antisymmetric", spec_vertex(a, sa, ao, b, sb, bo, s) == -spec_vertex(b, sb, bo, a, sa, ao, s));
    HV_REACH("antisymmetric");
}
/* directions u, v, w in the half plane of the other ends of left end points (right end points: negate) */
void h_angle_lemma(void)
{
    W ux = hv_irange(0, 2 * (int64_t)COORD), uy = hv_irange(-2 * (int64_t)COORD, 2 * (int64_t)COORD);
    W vx = hv_irange(0, 2 * (int64_t)COORD), vy = hv_irange(-2 * (int64_t)COORD, 2 * (int64_t)COORD);
    W wx = hv_irange(0, 2 * (int64_t)COORD), wy = hv_irange(-2 * (int64_t)COORD, 2 * (int64_t)COORD);
    HV_ASSUME((ux > 0 || uy > 0) && (vx > 0 || vy > 0) && (wx > 0 || wy > 0));
    W uv = ux * vy - uy * vx, vw = vx * wy - vy * wx, uw = ux * wy - uy * wx;
    HV_ENSURE("lemma.x", vx * uw == ux * vw + wx * uv);
    HV_ENSURE("lemma.y", vy * uw == uy * vw + wy * uv);
    HV_ASSUME(uv >= 0 && vw >= 0);
    HV_ENSURE("lemma.vertical", vx != 0 || (wx == 0 && vy > 0));
    if (vx == 0) HV_ENSURE("lemma.vertical_transitive", uw >= 0);
    else {
        HV_ENSURE("lemma.prod1", ux * vw >= 0); HV_ENSURE("lemma.prod2", wx * uv >= 0);
        HV_ENSURE("lemma.neg", uw >= 0 || vx * uw < 0);
    }
    HV_ENSURE("lemma.angle_transitive", uw >= 0);
    HV_REACH("angle");
}

/* ---- crossings */
static cq_dimif_t in_if(void) { cq_dimif_t a; a.i = (cq_dim_t)hv_irange(-COORD, COORD); a.n = hv_u64(); a.d = hv_u64(); HV_ASSUME(a.n < a.d); return a; }
static int cmpif(cq_dimif_t a, cq_dimif_t b)
{
    if (a.i != b.i) return a.i < b.i ? -1 : +1;
    UW p = (UW)a.n * b.d, q = (UW)b.n * a.d;
    return p < q ? -1 : p > q ? +1 : 0;
}
static W rnd(cq_dimif_t a) { return (W)a.i + (2 * (UW)a.n >= a.d ? 1 : 0); }
static xing_t X, Y;
static void xing_case(int f)
{
    memset(&X, 0, sizeof(X)); memset(&Y, 0, sizeof(Y));
    X.x = in_if(); X.y = in_if(); Y.x = in_if(); Y.y = in_if();
    int ex = cmpif(X.x, Y.x), ey = cmpif(X.y, Y.y);
    if (f == 0) {
        D.phase = INTERSECT;
        HV_ENSURE("phase1.crossing_order", cq_sweep_agenda_xing_phase1_cmp(&X.in_agenda, &Y.in_agenda, &D) == (ex != 0 ? ex : ey));
        HV_REACH("xing1");
        return;
    }
    D.phase = f == 1 ? SNAP_NORTH : SNAP_SOUTH;
    int m = f == 1 ? +1 : -1;
    W x = rnd(X.x), y = rnd(X.y), u = rnd(Y.x), v = rnd(Y.y);
    int e = x != u ? sg(x - u) : y != v ? m * sg(y - v) : ex != 0 ? ex : m * ey;
    int r = cq_sweep_agenda_xing_phase2_cmp(&X.in_agenda, &Y.in_agenda, &D);
    HV_ENSURE("phase2.crossing_order", r == e);
    HV_REACH("xing2");
}
void h_xing1(void) { xing_case(0); }
void h_xing2n(void) { xing_case(1); }
void h_xing2s(void) { xing_case(2); }

/* ---- the order of edges and bundles on the scan line (P05, P16) */
void h_tree_cmp(void)
{
    mk_edge(&A); mk_edge(&B);
    D.phase = INTERSECT;
    cq_vec2_t v = A.left.vec2, r = A.rigt.vec2;
    W side = cr(B.rigt.vec2, v, B.left.vec2), ang = cr(v, B.rigt.vec2, r);
    int k = cq_sweep_tree_vertex_edge_cmp(&A.left, &B.in_tree, &D);
    HV_ENSURE("tree.side", side == 0 || k == sg(side));
    HV_ENSURE("tree.angle", side != 0 || ang == 0 || k == sg(ang));
    HV_ENSURE("tree.continuation", side != 0 || ang != 0 || k == (lex(v, B.rigt.vec2) == 0 ? -1 : 0));
    HV_REACH("tree");
}
void h_edge_cmp(void)
{
    mk_edge(&B);
    cq_vec2_t v = in_vec();
    HV_ENSURE("edge.exact_side", vec2_edge_cmp_exact(&v, &B) == sg(cr(B.rigt.vec2, v, B.left.vec2)));
    /* above the supporting line is positive */
    HV_ENSURE("edge.above_is_positive", B.left.vec2.x == B.rigt.vec2.x || B.left.vec2.y != B.rigt.vec2.y || vec2_edge_cmp_exact(&v, &B) == sg((W)v.y - B.left.vec2.y));
    int t = cq_cmp_edge_rnd(v.x, v.y, B.rigt.vec2.x, B.rigt.vec2.y, B.left.vec2.x, B.left.vec2.y);
    HV_ENSURE("edge.tolerant", vec2_edge_cmp_tolerant(&v, &B) == sg(t));
    HV_ENSURE("edge.tolerant_search", cq_sweep_bundle_vec2_edge_cmp(&v, &B.in_tree, NULL) == sg(t));
    HV_REACH("edge");
}
static bundle_t G, H;
void h_pixel_bundle(void)
{
    mk_edge(&A); mk_edge(&B);
    memset(&G, 0, sizeof(G)); memset(&H, 0, sizeof(H));
    D.phase = SNAP_NORTH;
    H.vec2 = in_vec();
    G.bundle.top = &A.in_tree; G.bundle.bot = &B.in_tree;
    cq_vec2_t v = H.vec2;
    int t = cq_cmp_edge_rnd(v.x, v.y, A.rigt.vec2.x, A.rigt.vec2.y, A.left.vec2.x, A.left.vec2.y);
    int b = cq_cmp_edge_rnd(v.x, v.y, B.rigt.vec2.x, B.rigt.vec2.y, B.left.vec2.x, B.left.vec2.y);
    int r = cq_sweep_state_pixel_bundle_cmp(&H, &G.in_state, &D);
    /* above the top edge: above; on the top edge or between or on the bottom edge: in the bundle; else below */
    HV_ENSURE("pixel_bundle.order", r == (t > 0 ? +1 : t == 0 ? 0 : b < 0 ? -1 : 0));
    HV_REACH("pixel_bundle");
}
void h_bundle_bundle(void)
{
    mk_edge(&A); mk_edge(&B);
    edge_t *C = &A;
    memset(&G, 0, sizeof(G)); memset(&H, 0, sizeof(H));
    D.phase = SNAP_NORTH;
    G.vec2 = in_vec(); H.vec2 = in_vec();
    G.bundle.top = G.bundle.bot = &B.in_tree; H.bundle.top = H.bundle.bot = &C->in_tree;
    bool eq = lex(G.vec2, H.vec2) == 0;
    W side = cr(B.rigt.vec2, H.vec2, B.left.vec2), ang = cr(H.vec2, B.rigt.vec2, A.rigt.vec2);
    HV_ASSUME(eq ? ang != 0 : side != 0);           /* disjoint bundles */
    int r = cq_sweep_state_bundle_bundle_cmp(&H, &G.in_state, &D);
    HV_ENSURE("bundle_bundle.order", r == (eq ? sg(ang) : sg(side)));
    HV_REACH("bundle_bundle");
}
