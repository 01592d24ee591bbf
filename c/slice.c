/* contracts for src/hob3lop/op-slice.c (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#include <hob3lbase/vec.h>
#include <hob3lbase/arith.h>
#include <op-slice.c>

#define LIM ((1 << 30) - 1)     /* supported coordinates: 30 bits and a sign */
static cq_dim_t co(void)
{
#ifdef HV_NATIVE
    extern int hv_native_random; extern void hv_fix_last(uint64_t v);
    if (hv_native_random) { int64_t v = (int64_t)hv_in(); int64_t q = ((v >> 60) & 3) == 0 ? v % (LIM + 1) : (v >> 8) % 9; hv_fix_last((uint64_t)q); return (cq_dim_t)q; }
#endif
    return (cq_dim_t)hv_irange(-LIM, LIM);
}
/* the point at height z on the line (a0,z0)-(a1,z1), rounded to the nearest coordinate */
static void chk_nearest(char const *dummy, cq_dim_t r, cq_dim_t z, cq_dim_t z0, cq_dim_t z1, cq_dim_t a0, cq_dim_t a1)
{
    (void)dummy;
    int64_t w = (int64_t)z1 - z0, e = (int64_t)r * w - ((int64_t)a0 * ((int64_t)z1 - z) + (int64_t)a1 * ((int64_t)z - z0));
    HV_ENSURE("slice.point_is_nearest_on_edge", 2 * e <= w && 2 * e >= -w);
}
void h_interpol(void)
{
    cq_dim_t z = co(), z0 = co(), z1 = co(), a0 = co(), a1 = co();
    HV_ASSUME(z0 < z1 && z0 <= z && z <= z1);
    cq_dim_t r = cq_slice_interpol(z, z0, z1, a0, a1);
    chk_nearest("", r, z, z0, z1, a0, a1);
    HV_REACH("interpol");
}
void h_interpol_ends(void)
{
    cq_dim_t z = co(), z0 = co(), z1 = co(), a0 = co(), a1 = co();
    HV_ASSUME(z0 < z1 && (z == z0 || z == z1));
    cq_dim_t r = cq_slice_interpol(z, z0, z1, a0, a1);
    HV_ENSURE("slice.exact_at_end_points", r == (z == z0 ? a0 : a1));
    HV_REACH("interpol_ends");
}

/* vector growth by its contract (P10): room for one more element at the end; data is a large enough block */
#ifdef HV_CBMC
static size_t g_inflates;
void *c_insert(cp_alloc_t *m, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t size)
{
    (void)m;
    HV_ENSURE("slice.appends_one_point", esz == sizeof(cq_vec2_t) && pos == v->size && size == 1);
    ((cq_v_vec2_t*)v)->data[pos] = *(cq_vec2_t const *)data;
    v->size++; g_inflates++;
    return v->data;
}
cq_divmodw_t c_divmodw(cq_dimw_t x, cq_dimw_t d)      /* P01 */
{
    HV_ENSURE("slice.divides_by_positive_height", d > 0);
    cq_divmodw_t r = { .div = hv_any_i64(), .mod = hv_any_i64() };
    HV_ASSUME(r.div <= (1LL << 32) && r.div >= -(1LL << 32) && r.mod >= 0 && r.mod < d && r.div * d + r.mod == x);
    return r;
}
cq_dim_t c_interpol(cq_dim_t z, cq_dim_t z0, cq_dim_t z1, cq_dim_t a0, cq_dim_t a1)
{
    HV_ENSURE("slice.edge_passes_through_the_plane", z0 < z1 && z0 <= z && z <= z1);
    HV_ENSURE("slice.coordinates_supported", a0 <= LIM && a0 >= -LIM && a1 <= LIM && a1 >= -LIM && z0 >= -LIM && z1 <= LIM);
    cq_dim_t r = hv_any_i32();
    int64_t w = (int64_t)z1 - z0, e = (int64_t)r * w - ((int64_t)a0 * ((int64_t)z1 - z) + (int64_t)a1 * ((int64_t)z - z0));
    HV_ASSUME(2 * e <= w && 2 * e >= -w);
    return r;
}
#endif
void h_edge(void)
{
    cq_vec3_t a, b; cq_dim_t z = co();
    a.x = co(); a.y = co(); a.z = co(); b.x = co(); b.y = co(); b.z = co();
    size_t n0 = hv_range(0, 1ULL << 40);
#ifdef HV_NATIVE
    n0 %= 20;
    cq_v_vec2_t out = { .data = NULL, .size = 0, .alloc = 0 };
    cp_v_ensure_size(&out, n0);
    for (size_t i = 0; i < n0; i++) { out.data[i].x = (int)i; out.data[i].y = 77; }
#else
    cq_v_vec2_t out = { .data = hv_dyn((1ULL << 41), sizeof(cq_vec2_t)), .size = n0, .alloc = 1ULL << 41 };
#endif
    size_t w = hv_range(0, 1ULL << 40); cq_vec2_t ow = { .x = 0, .y = 0 };
#ifdef HV_NATIVE
    w %= n0 + 1;
#endif
    if (w < n0) ow = out.data[w];
    cq_slice_polyline_int(&out, z, &a, &b);
    bool cross = (a.z <= z) != (b.z <= z);
    HV_ENSURE("slice.one_point_iff_edge_crosses_the_plane", out.size == n0 + (cross ? 1 : 0));
    if (w < n0) HV_ENSURE("slice.earlier_points_kept", out.data[w].x == ow.x && out.data[w].y == ow.y);
    if (cross) {
        cq_vec3_t lo = a.z < b.z ? a : b, hi = a.z < b.z ? b : a;
        cq_vec2_t p = out.data[n0];
        chk_nearest("", p.x, z, lo.z, hi.z, lo.x, hi.x);
        chk_nearest("", p.y, z, lo.z, hi.z, lo.y, hi.y);
    }
    HV_REACH("edge");
#ifdef HV_NATIVE
    free(out.data);
#endif
}
/* direction independence: the very same point for both directions */
void h_edge_reversed(void)
{
    cq_vec3_t a, b; cq_dim_t z = co();
    a.x = co(); a.y = co(); a.z = co(); b.x = co(); b.y = co(); b.z = co();
#ifdef HV_NATIVE
    cq_v_vec2_t o1 = { .data = NULL, .size = 0, .alloc = 0 }, o2 = o1;
#else
    cq_v_vec2_t o1 = { .data = hv_dyn(4, sizeof(cq_vec2_t)), .size = 0, .alloc = 4 }, o2 = { .data = hv_dyn(4, sizeof(cq_vec2_t)), .size = 0, .alloc = 4 };
#endif
    cq_slice_polyline_int(&o1, z, &a, &b);
    cq_slice_polyline_int(&o2, z, &b, &a);
    HV_ENSURE("slice.both_directions_cut_alike", o1.size == o2.size);
    if (o1.size == 1) HV_ENSURE("slice.both_directions_same_point", o1.data[0].x == o2.data[0].x && o1.data[0].y == o2.data[0].y);
    HV_REACH("edge_reversed");
#ifdef HV_NATIVE
    free(o1.data); free(o2.data);
#endif
}
/* conversion of the face's points */
#ifdef HV_CBMC
static double g_in[7]; static int g_val[7]; static cq_vec3_t g_a, g_b; static cq_dim_t g_z; static int g_cuts; static cq_v_vec2_t *g_out;
int c_import(double v) { int r = hv_any_i32(); for (int i = 0; i < 7; i++) if (v == g_in[i]) r = g_val[i]; return r; }
void c_poly_int(cq_v_vec2_t *out, cq_dim_t z, cq_vec3_t const *a, cq_vec3_t const *b) { g_out = out; g_z = z; g_a = *a; g_b = *b; g_cuts++; }
void h_convert(void)
{
    cp_vec3_loc_t p[2]; cp_vec3_loc_ref_t a = { .ref = &p[0] }, b = { .ref = &p[1] };
    for (int i = 0; i < 7; i++) { g_in[i] = hv_f64(); g_val[i] = hv_i32(); }
    for (int i = 0; i < 7; i++) for (int j = 0; j < i; j++) HV_ASSUME(g_in[i] != g_in[j]);
    for (int i = 0; i < 3; i++) { p[0].coord.v[i] = g_in[i]; p[1].coord.v[i] = g_in[3 + i]; }
    cq_v_vec2_t out;
    cq_slice_polyline_float(&out, g_in[6], &a, &b);
    HV_ENSURE("slice.edge_converted_to_grid", g_cuts == 1 && g_out == &out && g_z == g_val[6]);
    bool fwd = g_a.x == g_val[0] && g_a.y == g_val[1] && g_a.z == g_val[2] && g_b.x == g_val[3] && g_b.y == g_val[4] && g_b.z == g_val[5];
    bool rev = g_b.x == g_val[0] && g_b.y == g_val[1] && g_b.z == g_val[2] && g_a.x == g_val[3] && g_a.y == g_val[4] && g_a.z == g_val[5];
    HV_ENSURE("slice.end_points_converted", fwd || rev);
    HV_REACH("convert");
}

/* ---- one face: ghost below[i] (point i is at or below the plane), witness edge g_w */
static unsigned char *g_below; static cp_vec3_loc_ref_t *g_data; static size_t g_n, g_i0, g_w, g_hit, g_sorted; static double g_zz; static cq_v_vec2_t *g_o;
static bool below(size_t i) { return (g_below[i] & 1) != 0; }
void c_edge(cq_v_vec2_t *out, double z, cp_vec3_loc_ref_t const *a, cp_vec3_loc_ref_t const *b)
{
    size_t i = (size_t)(a - g_data), j = (size_t)(b - g_data);
    HV_ENSURE("face.edge_joins_neighbours", i < g_n && j < g_n && (i + 1 == g_n ? j == 0 : j == i + 1));
    HV_ENSURE("face.cut_at_the_plane_into_the_output", z == g_zz && out == g_o);
    if (i == g_w) g_hit++;
    if (below(i) != below(j)) out->size++;
}
bool inv_face(cq_slice_t *slice, size_t i)
{
    return slice->out == g_o && slice->z == g_zz && i <= g_n && g_o->size >= g_i0 && g_o->size - g_i0 <= i && g_hit == (i > g_w ? 1 : 0) &&
        ((g_o->size - g_i0) & 1) == ((i == 0 || i == g_n || below(0) == below(i)) ? 0 : 1);
}
bool inv_bb(size_t i, size_t n) { return i <= n; }
void c_minmax(cq_vec2_minmax_t *r, cq_vec2_t const *v) { (void)v; r->min.x = hv_any_i32(); r->min.y = hv_any_i32(); r->max.x = hv_any_i32(); r->max.y = hv_any_i32(); }
void c_qsort(cp_v_t *v, size_t esz, size_t pos, size_t size, int (*cmp)(void const*, void const*, void*), void *user)
{
    (void)cmp; (void)user;
    HV_ENSURE("face.sorts_exactly_its_own_points", (void*)v == (void*)g_o && esz == sizeof(cq_vec2_t) && pos == g_i0 && size == g_o->size - g_i0);
    g_sorted++;
}
void h_face(void)
{
    size_t n = g_n = hv_range(0, 1ULL << 40);
    g_data = hv_dyn(n, sizeof(cp_vec3_loc_ref_t)); g_below = hv_dyn(n, 1);
    cp_a_vec3_loc_ref_t face = { .data = g_data, .size = n };
    g_i0 = hv_range(0, 1ULL << 40);
    HV_ASSUME((g_i0 & 1) == 0);
    cq_v_vec2_t out = { .data = hv_dyn((1ULL << 42), sizeof(cq_vec2_t)), .size = g_i0, .alloc = 1ULL << 42 };
    g_o = &out;
    g_w = hv_range(0, 1ULL << 40); g_zz = hv_f64();
    HV_ASSUME(g_w < n);
    cq_slice_t s; s.out = &out; s.z = g_zz;
    cq_slice_add_face(&s, &face);
    if (n < 3) HV_ENSURE("face.degenerate_ignored", out.size == g_i0 && g_hit == 0);
    else {
        HV_ENSURE("face.every_edge_cut_once", g_hit == 1);
        HV_ENSURE("face.even_number_of_points", ((out.size - g_i0) & 1) == 0 && out.size >= g_i0);
        HV_ENSURE("face.sorted_once_if_any", g_sorted == (out.size > g_i0 ? 1 : 0));
    }
    HV_REACH("face");
}

/* ---- begin and end of a slice */
static size_t g_cur, g_p1, g_p2, g_q, g_s0; static cq_line2_t g_l1, g_l2; static cq_v_line2_t *g_r; static bool g_two;
static bool zero(cq_line2_t const *l) { return l->a.x == l->b.x && l->a.y == l->b.y; }
static bool same(cq_line2_t const *l, cq_line2_t const *k) { return l->a.x == k->a.x && l->a.y == k->a.y && l->b.x == k->b.x && l->b.y == k->b.y; }
void c_extract(void *e, cp_v_t *v, size_t esz, size_t pos)
{
    HV_ENSURE("fini.takes_the_last_line", (void*)v == (void*)g_r && esz == sizeof(cq_line2_t) && v->size > 0 && pos == v->size - 1);
    HV_ENSURE("fini.removes_only_lines_of_length_zero", g_cur < v->size && zero(&g_r->data[g_cur]));
    *(cq_line2_t*)e = g_r->data[pos];
    v->size--;
    if (g_p1 == pos) g_p1 = g_cur;
    if (g_p2 == pos) g_p2 = g_cur;
}
bool inv_fini(cq_v_line2_t *r, cq_line2_t *i)
{
    size_t c = (size_t)(i - r->data);
    g_cur = c;
    return r == g_r && r->size <= g_s0 && c <= r->size && g_p1 < r->size && same(&r->data[g_p1], &g_l1) && g_p2 < r->size && same(&r->data[g_p2], &g_l2) &&
        (!g_two || g_p1 != g_p2) && !(g_q < c && zero(&r->data[g_q]));
}
void h_fini(void)
{
    size_t n = g_s0 = hv_range(1, 1ULL << 40);
    cq_v_vec2_t out = { .data = hv_dyn(2 * n, sizeof(cq_vec2_t)), .size = 2 * n, .alloc = 2 * n };
    g_r = (cq_v_line2_t*)&out;
    g_p1 = hv_range(0, 1ULL << 40); g_p2 = hv_range(0, 1ULL << 40); g_q = hv_range(0, 1ULL << 40);
    HV_ASSUME(g_p1 < n && g_p2 < n);
    cq_line2_t *d = (cq_line2_t*)out.data;
    g_l1 = d[g_p1]; g_l2 = d[g_p2];
    g_two = g_p1 != g_p2;
    HV_ASSUME(!zero(&g_l1) && !zero(&g_l2));
    cq_slice_t s; s.out = &out; s.z = 0;
    cq_slice_fini(&s);
    HV_ENSURE("fini.keeps_every_line_of_nonzero_length", g_p1 < g_r->size && same(&g_r->data[g_p1], &g_l1));
    HV_ENSURE("fini.keeps_them_apart", !g_two || (g_p1 != g_p2 && g_p2 < g_r->size && same(&g_r->data[g_p2], &g_l2)));
    HV_ENSURE("fini.no_line_of_length_zero_left", g_q >= g_r->size || !zero(&g_r->data[g_q]));
    HV_REACH("fini");
}
#endif
