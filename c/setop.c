/* contracts for the tree of set operations: model -> 3D objects (csg3.c) -> stacks of layers (csg2-tree.c) -> slices (csg2-layer.c);
 * the denotation of an object is its truth value at one arbitrary (ghost) point, so the statements hold for every point */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include "hv.h"
#ifdef PART_MODEL
#include <csg3.c>
#endif
#ifdef PART_TREE
#include <csg2-tree.c>
#endif
#ifdef PART_LAYER
#include <csg2-layer.c>
#endif
#ifdef PART_BOOL
#define mode_t hv_mode_t
#include <csg2-bool.c>
#undef mode_t
#define mode_t hv_mode_t
#endif
#ifdef HV_CBMC
double cp_eq_epsilon = CP_EQ_EPSILON_DEFAULT;
#define BIGN (1ULL << 29)
#ifdef PART_MODEL
/* ---------------------------------------------------------------- children of the syntax tree */
static ctxt_t g_c; static local_t g_mo; static cp_csg_opt_t g_opt; static cp_err_t g_err; static cp_v_obj_p_t g_r; static cp_csg3_tree_t g_tree;
static char *g_lbuf; static cp_loc_t g_loc;
static cp_v_scad_p_t *g_child; static char *g_kids; static size_t g_k; static bool g_failed, g_no, g_no0, g_sawno, g_split;
static bool g_p, g_n;              /* value of the union of the children before / after the split */
/* vectors of objects are recognised by the array they refer to: value and size of array k */
static cp_obj_t *g_d[3][1]; static bool g_val[3]; static size_t g_sz[3]; static unsigned g_nb;
static bool g_rv; static size_t g_rs0; static bool g_rfirst, g_rnew, g_rnone;
static cp_obj_t g_fobj; static cp_csg_sub_t g_fsub; static cp_csg_add_t g_fadd, g_fneg; static bool g_A, g_B, g_issub;
static cp_csg_sub_t g_o; static cp_csg_add_t g_oa[2]; static unsigned g_no_sub, g_no_add;
static bool fval(void) { return g_issub ? g_A && !g_B : g_val[0]; }
static unsigned back(void const *d) { return d == g_d[0] ? 0 : d == g_d[1] ? 1 : d == g_d[2] ? 2 : 3; }
bool c_scad(bool *no, cp_v_obj_p_t *r, ctxt_t *c, local_t const *m, cp_scad_t const *s)
{
    HV_ENSURE("children.each_once_in_order", g_k < g_child->size && s == g_child->data[g_k] && !g_failed);
    HV_ENSURE("children.same_context", c == &g_c && m == &g_mo);
    g_k++;
    if (hv_bool()) { g_failed = 1; g_err.msg.size = 1; return 0; }
    bool v = hv_bool(), cno = hv_bool(); size_t n = hv_range(0, BIGN);
    if (n == 0) HV_ASSUME(!v);
    if (n > 0 && r != &g_r && r != &g_fneg.add) {
        if (r->size == 0) {
            HV_ENSURE("children.fresh_vector", g_nb < 2 && r->data == NULL);
            if (g_nb == 0) HV_ASSUME(!g_issub || (n == 1 ? v == (g_A && !g_B) : v || !(g_A && !g_B)));
            r->data = g_d[g_nb]; g_val[g_nb] = 0; g_nb++;
        }
        unsigned k = back(r->data); HV_ENSURE("children.fresh_vector", k < 3);
        g_val[k] = g_val[k] || v; g_sz[k] = r->size + n;
        HV_ASSUME(g_sz[k] <= BIGN);
    }
    if (r == &g_r) g_rv = g_rv || v;
    if (r == &g_fneg.add) g_B = g_B || v;
    r->size += n; HV_ASSUME(r->size <= BIGN);
    if (!g_split) g_p = g_p || v; else g_n = g_n || v;
    if (cno) { *no = 1; g_sawno = 1; g_split = 1; }
    return 1;
}
void *c_calloc(char const *f, int l, cp_alloc_t *a, size_t n, size_t s)
{
    if (s == sizeof(cp_csg_sub_t)) { HV_ENSURE("difference.one_object", n == 1 && g_no_sub == 0); g_no_sub++; return &g_o; }
    HV_ENSURE("difference.two_operands", n == 1 && s == sizeof(cp_csg_add_t) && g_no_add < 2);
    return &g_oa[g_no_add++];
}
void c_fini(cp_alloc_t *a, cp_v_t *v) { HV_ENSURE("difference.result_kept", v != (cp_v_t*)&g_r && v != (cp_v_t*)&g_fneg.add); }
void *c_ins(cp_alloc_t *a, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    HV_ENSURE("difference.appended_to_the_result", v == (cp_v_t*)&g_r && pos == v->size && esz == sizeof(void*));
    v->size += n;
    unsigned k = back(data);
    if (k < 3) { HV_ENSURE("difference.all_objects_appended", n == g_sz[k]); g_rv = g_rv || g_val[k]; return NULL; }
    HV_ENSURE("difference.one_object_appended", n == 1);
    cp_obj_t *o = *(cp_obj_t**)data;
    if (o == (cp_obj_t*)&g_o) g_rnew = 1;
    else { HV_ENSURE("difference.known_object", o == g_d[0][0] && g_sz[0] == 1); g_rfirst = 1; }
    return NULL;
}
static bool opval(cp_csg_add_t *a) { unsigned k = back(a->add.data); HV_ENSURE("difference.operand_complete", k < 3 && a->type == CP_CSG_ADD && a->add.size == g_sz[k]); return k < 3 && g_val[k]; }
static void mstart(void)
{
    g_c.tree = &g_tree; g_c.opt = &g_opt; g_c.err = &g_err; g_c.context = IN3D; g_rs0 = hv_range(0, BIGN); g_r.size = g_rs0;
    g_lbuf = hv_dyn(BIGN, 1); g_loc = g_lbuf + hv_range(0, BIGN);
    g_no = g_no0 = hv_bool(); g_A = hv_bool(); g_B = hv_bool(); g_issub = hv_bool(); bool r0 = hv_bool(); g_rv = r0;
    g_fsub.type = CP_CSG_SUB; g_fsub.add = &g_fadd; g_fsub.sub = &g_fneg; g_fadd.type = CP_CSG_ADD; g_fneg.type = CP_CSG_ADD; g_fneg.add.size = hv_range(0, BIGN);
    g_fobj.type = CP_CSG3_POLY; g_fobj.loc = g_loc;
    g_d[0][0] = g_issub ? (cp_obj_t*)&g_fsub : &g_fobj; g_d[1][0] = &g_fobj; g_d[2][0] = &g_fobj;
}
static void kids(cp_v_scad_p_t *v)
{
    g_child = v; v->size = hv_range(0, BIGN); v->data = hv_dyn(BIGN, sizeof(void*)); g_kids = hv_dyn(BIGN, 1); hv_dyn_ptr(v->data, 0, g_kids);
}
static bool vok(cp_v_obj_p_t const *f, unsigned k) { return f->size <= BIGN && (g_nb <= k ? f->size == 0 && f->data == NULL : f->data == g_d[k] && f->size > 0 && f->size == g_sz[k]); }
static bool keep(void) { return !g_failed && g_err.msg.size == 0 && g_k <= g_child->size && g_no_sub == 0 && g_no_add == 0; }
bool inv_pos(size_t sub_i, bool add_no, cp_v_obj_p_t f)
{
    return keep() && sub_i == g_k && g_nb <= 1 && vok(&f, 0) && g_split == add_no && g_sawno == add_no && !g_n
        && (g_nb == 0 ? !g_p : g_val[0] == g_p)
        && (g_nb == 0 || !g_issub || (f.size == 1 ? g_p == (g_A && !g_B) : 1));
}
static bool g_p1, g_B0; static size_t g_nf;
/* the remaining children are subtracted by extending the negative operand of the only positive object */
bool inv_ext(size_t i, cp_v_obj_p_t f)
{
    return keep() && i == g_k && g_nb == 1 && (g_split || i == g_child->size) && vok(&f, 0) && f.size == 1 && g_issub && g_rfirst && !g_rnew && g_p == (g_A && !g_B0) && g_B == (g_B0 || g_n) && g_val[0] == g_p
        && g_r.size == g_rs0 + 1 && g_no == (g_no0 || g_sawno);
}
bool inv_neg(size_t i, cp_v_obj_p_t f, cp_v_obj_p_t g)
{
    return keep() && i == g_k && g_nb >= 1 && g_nb <= 2 && (g_split || i == g_child->size) && f.size <= BIGN && f.data == g_d[0] && f.size > 0 && f.size == g_sz[0] && g_val[0] == g_p && vok(&g, 1)
        && !g_rfirst && !g_rnew && g_r.size == g_rs0 && (g_nb == 1 ? !g_n : g_val[1] == g_n) && g_B == g_B0 && (!g_issub || f.size != 1) && g_no == (g_no0 || g_sawno);
}
void h_difference(void)
{
    mstart(); bool r0 = g_rv; g_B0 = g_B; cp_scad_difference_t s = {0}; s.loc = g_loc; kids(&s.child);
    bool ok = csg3_from_difference(&g_no, &g_r, &g_c, &g_mo, &s);
    HV_ENSURE("difference.fails_exactly_with_a_child", ok == !g_failed);
    if (ok) {
        bool rv = g_rv;
        if (g_rfirst) rv = rv || (g_issub ? g_A && !g_B : g_val[0]);
        if (g_rnew) { HV_ENSURE("difference.operands", g_o.type == CP_CSG_SUB && g_o.add == &g_oa[0] && g_o.sub == &g_oa[1]); rv = rv || (opval(g_o.add) && !opval(g_o.sub)); }
        HV_ENSURE("difference.first_object_minus_all_others", rv == (r0 || (g_p && !g_n)));
        HV_ENSURE("difference.all_children_considered", g_k == g_child->size || !g_p);
        HV_ENSURE("difference.counts_as_an_object", g_no == (g_no0 || g_sawno));
    }
    HV_REACH("end");
}
/* ---------------------------------------------------------------- intersection */
static size_t g_cnt, g_kc; static bool g_and, g_kand, g_fresh, g_cobj; static cp_csg_add_t g_e[3], *g_cutd[1]; static unsigned g_alloc;
bool i_scad(bool *no, cp_v_obj_p_t *r, ctxt_t *c, local_t const *m, cp_scad_t const *s)
{
    HV_ENSURE("children.each_once_in_order", g_k < g_child->size && s == g_child->data[g_k] && !g_failed);
    HV_ENSURE("children.same_context", c == &g_c && m == &g_mo && no == &g_no);
    g_k++;
    if (hv_bool()) { g_failed = 1; g_err.msg.size = 1; return 0; }
    bool v = hv_bool(); size_t n = hv_range(0, BIGN);
    if (hv_bool()) *no = 1;
    if (n == 0) return 1;
    unsigned k = g_cnt > 0;
    HV_ENSURE("intersection.operand_of_its_own", r != &g_r && r->size == 0 && r->data == NULL && r->alloc == 0);
    r->data = g_d[k]; r->size = n; g_sz[k] = n; g_val[k] = v;
    g_kc++; g_kand = g_kand && v;
    return 1;
}
void *i_calloc(char const *f, int l, cp_alloc_t *a, size_t n, size_t s)
{
    HV_ENSURE("intersection.allocation", n == 1 && s == sizeof(cp_csg_add_t) && s == sizeof(cp_csg_cut_t) && g_alloc < 3);
    cp_csg_add_t z = {0}; unsigned k = g_cnt == 0 ? 0 : 1; if (g_fresh) k = 2;
    g_e[k] = z; g_fresh = 1; return &g_e[k];
}
void *i_ins(cp_alloc_t *a, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    HV_ENSURE("intersection.appended", pos == v->size && esz == sizeof(void*));
    v->size += n;
    if (n == 0) return NULL;
    if (v == (cp_v_t*)&g_r) {
        unsigned k = back(data);
        if (k < 3) { HV_ENSURE("intersection.all_objects_appended", n == g_sz[k]); g_rv = g_rv || g_val[k]; return NULL; }
        cp_csg_cut_t *o = *(cp_csg_cut_t**)data;
        HV_ENSURE("intersection.one_object", n == 1 && g_fresh && !g_cobj && o == (void*)&g_e[1]);
        g_fresh = 0; g_cobj = 1; return NULL;
    }
    cp_csg_add_t *o = *(cp_csg_add_t**)data; unsigned k = g_cnt > 0;
    HV_ENSURE("intersection.operand", n == 1 && g_fresh && o == &g_e[k] && o->type == CP_CSG_ADD && o->add.data == g_d[k] && o->add.size == g_sz[k]);
    g_fresh = 0; if (g_cnt == 0) v->data = (void*)g_cutd;
    g_cnt++; g_and = g_and && g_val[k];
    return NULL;
}
bool inv_cut(size_t i, cp_v_obj_p_t add, cp_v_csg_add_p_t cut)
{
    bool pend = add.size > 0;
    return !g_failed && g_err.msg.size == 0 && g_k <= g_child->size && i == g_k && !g_fresh && !g_cobj && cut.size == g_cnt && g_cnt <= i && g_kc == g_cnt + pend && g_r.size == g_rs0
        && (g_cnt == 0 ? cut.data == NULL && g_and : cut.data == g_cutd)
        && (g_cnt == 0 || (g_e[0].add.data == g_d[0] && g_e[0].add.size == g_sz[0] && g_sz[0] > 0 && g_e[0].type == CP_CSG_ADD))
        && (g_cnt != 1 || g_and == g_val[0])
        && (pend ? add.data == g_d[g_cnt > 0] && add.size == g_sz[g_cnt > 0] : add.data == NULL && add.alloc == 0)
        && g_kand == (g_and && (!pend || g_val[g_cnt > 0]));
}
void h_intersection(void)
{
    mstart(); bool r0 = g_rv; cp_scad_intersection_t s = {0}; s.loc = g_loc; kids(&s.child);
    for (unsigned k = 0; k < 3; k++) g_d[k][0] = &g_fobj;
    g_cutd[0] = &g_e[0]; g_and = g_kand = 1;
    bool ok = csg3_from_intersection(&g_no, &g_r, &g_c, &g_mo, &s);
    HV_ENSURE("intersection.fails_exactly_with_a_child", ok == !g_failed);
    if (ok) {
        if (g_cobj) {
            cp_csg_cut_t *o = (void*)&g_e[1];
            HV_ENSURE("intersection.object", o->type == CP_CSG_CUT && o->cut.data == g_cutd && o->cut.size == g_cnt && g_cnt > 0);
            g_rv = g_rv || g_and;
        }
        HV_ENSURE("intersection.of_all_children_with_objects", g_rv == (r0 || (g_kc > 0 && g_kand)));
        HV_ENSURE("intersection.all_children_considered", g_k == g_child->size);
        HV_ENSURE("intersection.nothing_from_nothing", g_kc > 0 || g_r.size == g_rs0);
    }
    HV_REACH("end");
}
/* ---------------------------------------------------------------- union: the children of a list in order */
bool u_scad(bool *no, cp_v_obj_p_t *r, ctxt_t *c, local_t const *m, cp_scad_t const *s)
{
    HV_ENSURE("children.each_once_in_order", g_k < g_child->size && s == g_child->data[g_k] && !g_failed);
    HV_ENSURE("children.same_context", c == &g_c && m == &g_mo && no == &g_no && r == &g_r);
    g_k++; if (hv_bool()) { g_failed = 1; g_err.msg.size = 1; return 0; }
    return 1;
}
bool inv_list(size_t i) { return !g_failed && i == g_k && g_k <= g_child->size; }
void h_union(void)
{
    mstart(); cp_scad_union_t s = {0}; kids(&s.child);
    bool ok = csg3_from_rec(&g_no, &g_r, &g_c, &g_mo, (cp_scad_rec_t*)&s);
    HV_ENSURE("union.of_all_children", ok == !g_failed && (!ok || g_k == g_child->size));
    HV_REACH("end");
}
#endif

#ifdef PART_TREE
/* ---------------------------------------------------------------- the same tree over stacks of layers */
static cp_csg2_tree_t g_r; static cp_range_t g_s; static char *g_lbuf; static cp_loc_t g_loc;
static size_t g_n, g_m, g_k, g_g; static cp_obj_t **g_in; static cp_csg2_t *g_out; static cp_obj_t *g_src; static unsigned g_calls;
static cp_csg_add_t *g_adds, *g_outa;
void *c_ensure(cp_alloc_t *a, cp_v_t *v, size_t esz, size_t size)
{
    HV_ENSURE("tree.room_for_every_object", v->size == 0 && esz == sizeof(void*));
    v->data = hv_dyn(size, sizeof(void*)); hv_dyn_ptr(v->data, 0, g_out); v->size = size; return v->data;
}
static bool t3(unsigned k) { return k == CP_CSG3_SPHERE || k == CP_CSG3_POLY || k == CP_CSG_ADD || k == CP_CSG_SUB || k == CP_CSG_CUT || k == CP_CSG_XOR; }
static void tstart(void)
{
    g_n = hv_range(0, BIGN); g_m = hv_range(1, BIGN); g_g = hv_range(0, BIGN);
    g_in = hv_dyn(g_n, sizeof(void*)); g_src = hv_dyn(g_m, sizeof(cp_obj_t)); hv_dyn_ptr(g_in, 0, g_src); hv_dyn_among(g_src, offsetof(cp_obj_t, type), CP_CSG3_SPHERE, CP_CSG3_POLY, CP_CSG_ADD, CP_CSG_SUB, CP_CSG_CUT, CP_CSG_XOR);
    g_out = hv_dyn(BIGN, sizeof(cp_csg2_t)); g_adds = hv_dyn(g_m, sizeof(cp_csg_add_t)); g_outa = hv_dyn(BIGN, sizeof(cp_csg_add_t));
    g_lbuf = hv_dyn(BIGN, 1); g_loc = g_lbuf + hv_range(0, BIGN); hv_dyn_ptr(g_src, offsetof(cp_obj_t, loc), g_lbuf); hv_dyn_ptr(g_adds, offsetof(cp_obj_t, loc), g_lbuf);
}
cp_csg2_t *t_obj(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg3_t const *d)
{
    HV_ENSURE("tree.each_object_once_in_order", r == &g_r && s == &g_s && g_k < g_n && (void*)d == g_in[g_k]);
    cp_csg2_t *o = &g_out[g_k]; HV_ASSUME(o->type == CP_CSG2_STACK || o->type == CP_CSG_ADD || o->type == CP_CSG_SUB || o->type == CP_CSG_CUT || o->type == CP_CSG_XOR);
    g_k++; return o;
}
bool inv_v(size_t i, cp_v_obj_p_t *c)
{
    return i <= g_n && g_k == i && c->size == g_n && (g_g >= i || c->data[g_g] == (void*)&g_out[g_g]);
}
void h_tree_v(void)
{
    tstart(); cp_v_obj_p_t c = {0}, d = {0}; d.data = g_in; d.size = g_n;
    csg2_tree_from_v_csg3(&g_r, &g_s, &c, &d);
    HV_ENSURE("tree.every_object_converted", c.size == g_n && g_k == g_n && (g_g >= g_n || c.data[g_g] == (void*)&g_out[g_g]));
    HV_REACH("end");
}
static cp_csg_add_t g_a1, g_a2, g_o1, g_o2; static cp_csg_sub_t g_osub; static cp_csg2_stack_t g_stack; static size_t g_lay;
void *t_calloc(char const *f, int l, cp_alloc_t *a, size_t n, size_t s)
{
    g_calls++;
    if (s == sizeof(void*)) { void *r = hv_dyn(n, s); hv_dyn_ptr(r, 0, g_outa); return r; }
    if (s == sizeof(cp_csg2_layer_t)) { g_lay = n; return hv_dyn(n, s); }
    if (s == sizeof(cp_csg_sub_t) && n == 1) return &g_osub;
    if (s == sizeof(cp_csg2_stack_t)) return &g_stack;
    HV_ENSURE("tree.one_new_object", n == 1 && s == sizeof(cp_csg_add_t)); return &g_o1;
}
static cp_v_obj_p_t const *g_dv; static cp_v_obj_p_t *g_cv;
void t_v(cp_csg2_tree_t *r, cp_range_t const *s, cp_v_obj_p_t *c, cp_v_obj_p_t const *d) { HV_ENSURE("tree.members", r == &g_r && s == &g_s && d == g_dv && c->size == 0 && c->data == NULL); g_cv = c; g_k++; }
void h_tree_add(void)
{
    tstart(); g_a1.type = CP_CSG_ADD; g_a1.loc = g_loc; g_dv = &g_a1.add;
    cp_csg_add_t *c = csg2_tree_from_csg3_add(&g_r, &g_s, &g_a1);
    HV_ENSURE("tree.union", c == &g_o1 && c->type == CP_CSG_ADD && c->loc == g_loc && g_k == 1 && g_cv == &c->add);
    HV_REACH("end");
}
cp_csg_add_t *t_add(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_add_t const *d) { HV_ENSURE("tree.operand", r == &g_r && s == &g_s && (d == &g_a1 || d == &g_a2)); return d == &g_a1 ? &g_o1 : &g_o2; }
void h_tree_sub(void)
{
    tstart(); cp_csg_sub_t d = {0}; d.type = CP_CSG_SUB; d.loc = g_loc; d.add = &g_a1; d.sub = &g_a2;
    cp_csg_sub_t *c = csg2_tree_from_csg3_sub(&g_r, &g_s, &d);
    HV_ENSURE("tree.difference_operands", c->type == CP_CSG_SUB && c->loc == g_loc && c->add == &g_o1 && c->sub == &g_o2);
    HV_REACH("end");
}
static cp_v_csg_add_p_t *g_ops;
cp_csg_add_t *t_addi(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_add_t const *d)
{
    HV_ENSURE("tree.each_operand_once_in_order", r == &g_r && s == &g_s && g_k < g_n && d == g_ops->data[g_k]);
    return &g_outa[g_k++];
}
bool inv_cut(size_t i, cp_csg_cut_t *c) { return i <= g_n && g_k == i && c->cut.size == g_n && c->type == CP_CSG_CUT && c->loc == g_loc && (g_g >= i || c->cut.data[g_g] == &g_outa[g_g]); }
bool inv_xor(size_t i, cp_csg_xor_t *c) { return i <= g_n && g_k == i && c->xor.size == g_n && c->type == CP_CSG_XOR && c->loc == g_loc && (g_g >= i || c->xor.data[g_g] == &g_outa[g_g]); }
static cp_csg_cut_t g_dcut; static cp_csg_xor_t g_dxor;
void h_tree_cut(void)
{
    tstart(); g_dcut.type = CP_CSG_CUT; g_dcut.loc = g_loc; g_ops = &g_dcut.cut; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    cp_csg_cut_t *c = csg2_tree_from_csg3_cut(&g_r, &g_s, &g_dcut);
    HV_ENSURE("tree.intersection_operands", c->type == CP_CSG_CUT && c->cut.size == g_n && g_k == g_n && (g_g >= g_n || c->cut.data[g_g] == &g_outa[g_g]));
    HV_REACH("end");
}
void h_tree_xor(void)
{
    tstart(); g_dxor.type = CP_CSG_XOR; g_dxor.loc = g_loc; g_ops = (void*)&g_dxor.xor; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    cp_csg_xor_t *c = csg2_tree_from_csg3_xor(&g_r, &g_s, &g_dxor);
    HV_ENSURE("tree.exclusive_union_operands", c->type == CP_CSG_XOR && c->xor.size == g_n && g_k == g_n && (g_g >= g_n || c->xor.data[g_g] == &g_outa[g_g]));
    HV_REACH("end");
}
/* the conversion of each kind of object */
static cp_csg3_t *g_obj; static cp_csg2_t g_ret[4];
cp_csg_add_t *d_add(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_add_t const *d) { HV_ENSURE("tree.kind", r == &g_r && s == &g_s && (void*)d == g_obj && g_obj->type == CP_CSG_ADD); g_calls++; return (void*)&g_ret[0]; }
cp_csg_sub_t *d_sub(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_sub_t const *d) { HV_ENSURE("tree.kind", r == &g_r && s == &g_s && (void*)d == g_obj && g_obj->type == CP_CSG_SUB); g_calls++; return (void*)&g_ret[1]; }
cp_csg_cut_t *d_cut(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_cut_t const *d) { HV_ENSURE("tree.kind", r == &g_r && s == &g_s && (void*)d == g_obj && g_obj->type == CP_CSG_CUT); g_calls++; return (void*)&g_ret[2]; }
cp_csg_xor_t *d_xor(cp_csg2_tree_t *r, cp_range_t const *s, cp_csg_xor_t const *d) { HV_ENSURE("tree.kind", r == &g_r && s == &g_s && (void*)d == g_obj && g_obj->type == CP_CSG_XOR); g_calls++; return (void*)&g_ret[3]; }
void h_tree_kind(void)
{
    tstart(); cp_csg3_t d = {0}; g_obj = &d; d.type = hv_u32(); HV_ASSUME(t3(d.type)); d.loc = g_loc; g_s.cnt = hv_range(0, BIGN);
    g_ret[0].type = CP_CSG_ADD; g_ret[1].type = CP_CSG_SUB; g_ret[2].type = CP_CSG_CUT; g_ret[3].type = CP_CSG_XOR;
    cp_csg2_t *c = csg2_tree_from_csg3(&g_r, &g_s, &d);
    if (d.type == CP_CSG3_SPHERE || d.type == CP_CSG3_POLY) {
        HV_ENSURE("tree.solid_has_a_stack_of_all_layers", c == (void*)&g_stack && g_stack.type == CP_CSG2_STACK && g_stack.csg3 == &d && g_stack.idx0 == 0 && g_stack.layer.size == g_s.cnt && g_lay == g_s.cnt);
        HV_REACH("solid");
    }
    else { HV_ENSURE("tree.converted_once", g_calls == 1 && c->type == d.type && (c == &g_ret[0] || c == &g_ret[1] || c == &g_ret[2] || c == &g_ret[3])); HV_REACH("operation"); }
}
void h_init(void)
{
    static cp_csg_add_t g_root; bool have = hv_bool(); g_root.type = CP_CSG_ADD; size_t s0 = g_root.add.size = hv_range(0, BIGN); cp_csg_add_t *p = have ? &g_root : NULL;
    cp_csg_add_init_perhaps(&p, NULL);
    HV_ENSURE("slice.root_is_a_union", p == (have ? &g_root : &g_o1) && p->type == CP_CSG_ADD && p->add.size == (have ? s0 : 0));
    HV_REACH("end");
}
/* the whole tree: layer heights are min + step * i */
static cp_csg3_tree_t g_t3; static cp_csg_add_t g_root3; static cp_csg_opt_t g_opt; static double *g_z; static void *g_fl;
void *r_calloc(char const *f, int l, cp_alloc_t *a, size_t n, size_t s)
{
    if (s == sizeof(cp_csg_add_t)) return &g_o1;
    if (s == sizeof(double)) { HV_ENSURE("layers.count", n == g_s.cnt); g_calls++; return g_calls == 2 ? (void*)g_z : hv_dyn(n, s); }
    HV_ENSURE("layers.count", n == g_s.cnt); g_calls++; return hv_dyn(n, s);
}
bool inv_z(size_t zi, cp_csg2_tree_t *r)
{
    return zi <= g_s.cnt && r == &g_r && r->z.size == g_s.cnt && (g_g >= zi || r->z.data[g_g] == g_s.min + g_s.step * (double)g_g);
}
void h_tree_root(void)
{
    tstart(); g_s.cnt = hv_range(0, BIGN); g_s.min = hv_f64(); g_s.step = hv_f64(); g_z = hv_dyn(g_s.cnt, sizeof(double));
    bool empty = hv_bool(); g_root3.type = CP_CSG_ADD; g_root3.loc = g_loc; g_t3.root = empty ? NULL : &g_root3; g_t3.root_xform = NULL; g_dv = &g_root3.add;
    cp_csg2_tree_from_csg3(&g_r, &g_t3, &g_s, &g_opt);
    HV_ENSURE("layers.height_of_each_layer", g_r.z.size == g_s.cnt && g_r.flag.size == g_s.cnt && g_r.thick == g_s.step && (g_g >= g_s.cnt || g_r.z.data[g_g] == g_s.min + g_s.step * (double)g_g));
    HV_ENSURE("tree.root", g_r.root == (void*)&g_o1 && g_o1.type == CP_CSG_ADD && g_r.opt == &g_opt && g_k == !empty && (empty || g_cv == &g_o1.add));
    HV_REACH("end");
}
#endif

#ifdef PART_LAYER
/* ---------------------------------------------------------------- slicing the tree in one layer
 * an object's value is its truth value at the ghost point of layer zi; what is not visited evaluates to empty.
 * contract of slicing x: afterwards the visited part has the value of x, and *no is set if that value is true; *no is never reset */
static cp_pool_t *g_pool; static cp_csg2_tree_t g_r; static size_t g_zi, g_n, g_k, g_m; static bool g_no, g_no0, g_any, g_and;
static cp_obj_t **g_in; static cp_obj_t *g_src; static cp_csg_add_t *g_adds; static cp_v_csg_add_p_t *g_ops; static char g_pl[1];
static bool t2(unsigned k) { return k == CP_CSG2_STACK || k == CP_CSG_ADD || k == CP_CSG_SUB || k == CP_CSG_CUT || k == CP_CSG_XOR; }
static void lstart(void)
{
    g_pool = (void*)g_pl; g_zi = hv_range(0, BIGN); g_n = hv_range(0, BIGN); g_m = hv_range(1, BIGN); g_no = g_no0 = hv_bool(); g_and = 1;
    g_in = hv_dyn(g_n, sizeof(void*)); g_src = hv_dyn(g_m, sizeof(cp_obj_t)); hv_dyn_ptr(g_in, 0, g_src); hv_dyn_among(g_src, offsetof(cp_obj_t, type), CP_CSG2_STACK, CP_CSG_ADD, CP_CSG_SUB, CP_CSG_CUT, CP_CSG_XOR); g_adds = hv_dyn(g_m, sizeof(cp_csg_add_t));
}
static void ret(bool *no) { bool v = hv_bool(), n = hv_bool(); HV_ASSUME(!v || n); g_any = g_any || v; g_and = g_and && v; if (n) *no = 1; }
void l_obj(bool *no, cp_pool_t *pool, cp_csg2_tree_t *r, size_t zi, cp_csg2_t *c)
{
    HV_ENSURE("slice.each_object_once_in_order", pool == g_pool && r == &g_r && zi == g_zi && g_k < g_n && (void*)c == g_in[g_k]);
    g_k++; ret(no);
}
bool inv_lv(size_t i)
{
    return i <= g_n && g_k == i && (!g_any || g_no) && (!g_no0 || g_no);
}
void h_layer_v(void)
{
    lstart(); cp_csg_add_t a = {0}; a.type = CP_CSG_ADD; a.add.data = g_in; a.add.size = g_n;
    csg2_add_layer_add(&g_no, g_pool, &g_r, g_zi, &a);
    HV_ENSURE("slice.every_object", g_k == g_n); HV_ENSURE("slice.nothing_missed", (!g_any || g_no) && (!g_no0 || g_no));
    HV_REACH("end");
}
void l_add(bool *no, cp_pool_t *pool, cp_csg2_tree_t *r, size_t zi, cp_csg_add_t *c)
{
    HV_ENSURE("slice.each_operand_once_in_order", pool == g_pool && r == &g_r && zi == g_zi && g_k < g_n && c == g_ops->data[g_k]);
    g_k++; ret(no);
}
static cp_csg_cut_t g_cut; static cp_csg_xor_t g_xor;
bool inv_lc(size_t i) { return i <= g_n && g_k == i && (i == 0 || !g_and || g_no) && (!g_no0 || g_no); }
void h_layer_cut(void)
{
    lstart(); g_ops = &g_cut.cut; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    csg2_add_layer_cut(&g_no, g_pool, &g_r, g_zi, &g_cut);       /* an operand may be left out (it stays empty) if another one is empty anyway */
    HV_ENSURE("slice.every_object", g_k == g_n || !g_and); HV_ENSURE("slice.nothing_missed", (g_k < g_n || !g_n || !g_and || g_no) && (!g_no0 || g_no));
    HV_REACH("end");
}
void h_layer_xor(void)
{
    lstart(); g_ops = (void*)&g_xor.xor; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    csg2_add_layer_xor(&g_no, g_pool, &g_r, g_zi, &g_xor);
    HV_ENSURE("slice.every_object", g_k == g_n); HV_ENSURE("slice.nothing_missed", (!g_any || g_no) && (!g_no0 || g_no));
    HV_REACH("end");
}
static cp_csg_sub_t g_sub; static cp_csg_add_t g_a1, g_a2; static unsigned g_c1, g_c2; static bool g_v1, g_v2;
void l_sub(bool *no, cp_pool_t *pool, cp_csg2_tree_t *r, size_t zi, cp_csg_add_t *c)
{
    HV_ENSURE("slice.operand", pool == g_pool && r == &g_r && zi == g_zi && (c == &g_a1 || c == &g_a2));
    bool n = hv_bool();
    if (c == &g_a1) { g_c1++; HV_ASSUME(!g_v1 || n); } else { g_c2++; HV_ASSUME(!g_v2 || n); }
    if (n) *no = 1;
}
void h_layer_sub(void)
{
    lstart(); g_v1 = hv_bool(); g_v2 = hv_bool(); g_sub.add = &g_a1; g_sub.sub = &g_a2;
    csg2_add_layer_sub(&g_no, g_pool, &g_r, g_zi, &g_sub);
    bool a = g_c1 && g_v1, b = g_c2 && g_v2, want = g_v1 && !g_v2;
    HV_ENSURE("slice.difference_keeps_its_value", g_c1 <= 1 && g_c2 <= 1 && (a && !b) == want);
    HV_ENSURE("slice.nothing_missed", (!want || g_no) && (!g_no0 || g_no));
    HV_REACH("end");
}
/* a solid: its slice at the height of the layer */
static cp_csg2_stack_t g_st; static cp_csg3_t g_d; static cp_csg2_layer_t *g_lay; static double *g_z; static unsigned g_cs, g_cp; static unsigned g_ci; static size_t g_add; static size_t g_i;
void l_init(cp_csg_add_t **r, cp_loc_t loc) { HV_ENSURE("slice.root", r == &g_lay[g_i].root && loc == g_d.loc); HV_ASSUME((*r)->add.size <= BIGN); g_ci++; }
static void slice(cp_pool_t *pool, double z, cp_v_obj_p_t *c) { HV_ENSURE("slice.height_of_the_layer", pool == g_pool && z == g_z[g_zi] && c == &g_lay[g_i].root->add); c->size += g_add; }
void l_sphere(cp_pool_t *pool, double z, cp_v_obj_p_t *c, cp_csg3_sphere_t const *d) { HV_ENSURE("slice.solid", (void*)d == &g_d && g_d.type == CP_CSG3_SPHERE); slice(pool, z, c); g_cs++; }
void l_poly(cp_pool_t *pool, double z, cp_v_obj_p_t *c, cp_csg3_poly_t *d) { HV_ENSURE("slice.solid", (void*)d == &g_d && g_d.type == CP_CSG3_POLY); slice(pool, z, c); g_cp++; }
void h_layer_stack(void)
{
    lstart(); g_r.z.size = hv_range(0, BIGN); HV_ASSUME(g_zi < g_r.z.size); g_z = hv_dyn(g_r.z.size, sizeof(double)); g_r.z.data = g_z;
    g_lay = hv_dyn(g_n, sizeof(cp_csg2_layer_t)); g_st.layer.size = g_n; g_st.layer.data = g_lay; g_st.idx0 = hv_range(0, BIGN); g_st.csg3 = &g_d; g_st.type = CP_CSG2_STACK;
    g_d.type = hv_bool() ? CP_CSG3_SPHERE : CP_CSG3_POLY; g_add = hv_range(0, 1);
    bool in = g_st.idx0 <= g_zi && g_zi - g_st.idx0 < g_n; g_i = in ? g_zi - g_st.idx0 : 0;
    hv_dyn_ptr(g_lay, offsetof(cp_csg2_layer_t, root), g_adds);
    csg2_add_layer_stack(&g_no, g_pool, &g_r, g_zi, &g_st);
    HV_ENSURE("slice.exactly_once_if_in_range", g_cs + g_cp == (in ? 1 : 0) && g_ci == g_cs + g_cp);
    if (in) {
        HV_ENSURE("slice.layer_is_marked_visited", g_lay[g_i].zi == g_zi);
        HV_ENSURE("slice.nothing_missed", g_no == (g_no0 || g_lay[g_i].root->add.size > 0));
    } else HV_ENSURE("slice.nothing_missed", g_no == g_no0);
    HV_REACH("end");
}
static cp_csg2_t g_o; static unsigned g_cc;
#define DI(F, T, K) void F(bool *no, cp_pool_t *pool, cp_csg2_tree_t *r, size_t zi, T *c) { HV_ENSURE("slice.kind", no == &g_no && pool == g_pool && r == &g_r && zi == g_zi && (void*)c == &g_o && g_o.type == K); g_cc++; }
DI(k_stack, cp_csg2_stack_t, CP_CSG2_STACK) DI(k_add, cp_csg_add_t, CP_CSG_ADD) DI(k_sub, cp_csg_sub_t, CP_CSG_SUB) DI(k_cut, cp_csg_cut_t, CP_CSG_CUT) DI(k_xor, cp_csg_xor_t, CP_CSG_XOR)
void h_layer_kind(void)
{
    lstart(); g_o.type = hv_u32(); HV_ASSUME(t2(g_o.type));
    csg2_add_layer(&g_no, g_pool, &g_r, g_zi, &g_o);
    HV_ENSURE("slice.once", g_cc == 1);
    HV_REACH("end");
}
#endif

#ifdef PART_BOOL
/* ---------------------------------------------------------------- evaluating the tree in one layer
 * a lazy combination o denotes den(o): its value at the ghost point.  Callees (by contract, or by P15 for flatten_lazy) leave the value in a
 * ghost bit of the table; the verified functions never look into it */
static op_ctxt_t g_c; static cp_csg_opt_t g_opt; static char g_tp[1]; static size_t g_zi, g_n, g_k, g_m; static bool g_or, g_and, g_xor;
static cp_obj_t **g_in; static cp_obj_t *g_src; static cp_csg_add_t *g_adds; static cp_v_csg_add_p_t *g_ops; static cp_v_obj_p_t g_v; static lazy_t g_o, g_t;
static bool zero(lazy_t const *o) { return o->size == 0 && o->comb.b[0] == 0; }
static bool den(lazy_t const *o) { return o->size != 0 && o->comb.b[0] == 2; }
static void give(lazy_t *o, bool v) { HV_ENSURE("evaluate.into_an_empty_result", zero(o)); if (!v && hv_bool()) return; o->size = 1; o->comb.b[0] = v ? 2 : 4; }
bool b_is0(void *d, size_t n) { return n == sizeof(lazy_t) && zero(d); }
void b_lazy(cp_csg_opt_t const *opt, cp_pool_t *tmp, lazy_t *r, lazy_t *b, cp_bool_op_t op)
{
    HV_ENSURE("evaluate.combination", opt == &g_opt && tmp == (void*)g_tp && r != b);
    bool x = den(r), y = den(b);
    bool v = op == CP_OP_ADD ? x || y : op == CP_OP_CUT ? x && y : op == CP_OP_SUB ? x && !y : x != y;
    HV_ENSURE("evaluate.operator", op == CP_OP_ADD || op == CP_OP_CUT || op == CP_OP_SUB || op == CP_OP_XOR);
    r->size = v || hv_bool(); r->comb.b[0] = !r->size ? 0 : v ? 2 : 4;
}
static void bstart(void)
{
    g_c.opt = &g_opt; g_c.tmp = (void*)g_tp; g_zi = hv_range(0, BIGN); g_n = hv_range(0, BIGN); g_m = hv_range(1, BIGN); g_and = 1;
    g_in = hv_dyn(g_n, sizeof(void*)); g_src = hv_dyn(g_m, sizeof(cp_obj_t)); hv_dyn_ptr(g_in, 0, g_src); hv_dyn_among(g_src, offsetof(cp_obj_t, type), CP_CSG2_POLY, CP_CSG2_VLINE2, CP_CSG2_STACK, CP_CSG_ADD, CP_CSG_SUB, CP_CSG_CUT, CP_CSG_XOR); g_adds = hv_dyn(g_m, sizeof(cp_csg_add_t));
}
static bool any(bool v) { g_or = g_or || v; g_and = g_and && v; g_xor = g_xor != v; return v; }
void b_rec(op_ctxt_t *c, size_t zi, lazy_t *o, cp_csg2_t *a)
{
    HV_ENSURE("evaluate.each_object_once_in_order", c == &g_c && zi == g_zi && g_k < g_n && (void*)a == g_in[g_k]);
    g_k++; give(o, any(hv_bool()));
}
static bool tb(unsigned k) { return k == CP_CSG2_POLY || k == CP_CSG2_VLINE2 || k == CP_CSG2_STACK || k == CP_CSG_ADD || k == CP_CSG_SUB || k == CP_CSG_CUT || k == CP_CSG_XOR; }
bool inv_bv(size_t i, lazy_t *o)
{
    return i <= g_n && g_k == i && (i == 0 ? zero(&g_o) && !g_or : den(&g_o) == g_or);
}
void h_eval_v(void)
{
    bstart(); cp_csg_add_t a = {0}; a.type = CP_CSG_ADD; a.add.data = g_in; a.add.size = g_n;
    flatten_lazy_add(&g_c, g_zi, &g_o, &a);
    HV_ENSURE("evaluate.union", g_k == g_n && den(&g_o) == g_or);
    HV_REACH("end");
}
void b_add(op_ctxt_t *c, size_t zi, lazy_t *o, cp_csg_add_t *a)
{
    HV_ENSURE("evaluate.each_operand_once_in_order", c == &g_c && zi == g_zi && g_k < g_n && a == g_ops->data[g_k]);
    g_k++; give(o, any(hv_bool()));
}
bool inv_bcut(size_t i) { return i <= g_n && g_k == i && (i == 0 ? zero(&g_o) && g_and : den(&g_o) == g_and); }
bool inv_bxor(size_t i) { return i <= g_n && g_k == i && (i == 0 ? zero(&g_o) && !g_xor : den(&g_o) == g_xor); }
static cp_csg_cut_t g_cutn; static cp_csg_xor_t g_xorn; static cp_csg_sub_t g_subn; static cp_csg_add_t g_a1, g_a2; static bool g_v1, g_v2;
void h_eval_cut(void)
{
    bstart(); g_ops = &g_cutn.cut; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    flatten_lazy_cut(&g_c, g_zi, &g_o, &g_cutn);
    HV_ENSURE("evaluate.intersection", g_k == g_n && den(&g_o) == (g_n > 0 && g_and));
    HV_REACH("end");
}
void h_eval_xor(void)
{
    bstart(); g_ops = (void*)&g_xorn.xor; g_ops->size = g_n; g_ops->data = hv_dyn(g_n, sizeof(void*)); hv_dyn_ptr(g_ops->data, 0, g_adds);
    flatten_lazy_xor(&g_c, g_zi, &g_o, &g_xorn);
    HV_ENSURE("evaluate.exclusive_union", g_k == g_n && den(&g_o) == g_xor);
    HV_REACH("end");
}
void b_add2(op_ctxt_t *c, size_t zi, lazy_t *o, cp_csg_add_t *a) { HV_ENSURE("evaluate.operand", c == &g_c && zi == g_zi && (a == &g_a1 || a == &g_a2)); give(o, a == &g_a1 ? g_v1 : g_v2); }
void h_eval_sub(void)
{
    bstart(); g_v1 = hv_bool(); g_v2 = hv_bool(); g_subn.add = &g_a1; g_subn.sub = &g_a2;
    flatten_lazy_sub(&g_c, g_zi, &g_o, &g_subn);
    HV_ENSURE("evaluate.difference", den(&g_o) == (g_v1 && !g_v2));
    HV_REACH("end");
}
/* leaves: the identity table of the polygon, or empty */
void h_eval_leaf(void)
{
    bstart(); bool isp = hv_bool(); cp_csg2_poly_t p = {0}; cp_csg2_vline2_t v = {0}; p.type = CP_CSG2_POLY; v.type = CP_CSG2_VLINE2; size_t n = hv_range(0, BIGN);
    p.q.point.size = n; v.q.size = n;
    if (isp) flatten_lazy_poly(&g_o, &p); else flatten_lazy_vline2(&g_o, &v);
    HV_ENSURE("evaluate.leaf_is_itself", n == 0 ? zero(&g_o) : g_o.size == 1 && g_o.comb.b[0] == 2 && g_o.data[0] == (isp ? (void*)&p : (void*)&v));
    HV_REACH("end");
}
/* a stack: its layer zi if it was visited */
static cp_csg2_layer_t *g_lay; static cp_csg2_stack_t g_st; static size_t g_i; static unsigned g_calls;
void b_lay(op_ctxt_t *c, size_t zi, lazy_t *o, cp_csg_add_t *a) { HV_ENSURE("evaluate.layer", c == &g_c && zi == g_zi && a == g_lay[g_i].root); g_calls++; give(o, g_v1); }
void h_eval_stack(void)
{
    bstart(); g_v1 = hv_bool(); g_lay = hv_dyn(g_n, sizeof(cp_csg2_layer_t)); hv_dyn_ptr(g_lay, offsetof(cp_csg2_layer_t, root), g_adds);
    g_st.layer.size = g_n; g_st.layer.data = g_lay; g_st.idx0 = hv_range(0, BIGN);
    bool in = g_st.idx0 <= g_zi && g_zi - g_st.idx0 < g_n; g_i = in ? g_zi - g_st.idx0 : 0;
    if (in) HV_ASSUME(g_lay[g_i].zi == 0 || g_lay[g_i].zi == g_zi);
    bool vis = in && g_lay[g_i].zi == g_zi;
    flatten_lazy_stack(&g_c, g_zi, &g_o, &g_st);
    HV_ENSURE("evaluate.layer_once_if_visited", g_calls == vis && den(&g_o) == (vis && g_v1) && (vis || zero(&g_o)));
    HV_REACH("end");
}
void h_eval_noroot(void)
{
    bstart(); cp_csg2_layer_t l = {0}; l.zi = g_zi;
    flatten_lazy_layer(&g_c, &g_o, &l);
    HV_ENSURE("evaluate.layer_without_objects_is_empty", zero(&g_o));
    HV_REACH("end");
}
static cp_csg2_t g_obj;
#define DK(F, T, K) void F(op_ctxt_t *c, size_t zi, lazy_t *o, T *a) { HV_ENSURE("evaluate.kind", c == &g_c && zi == g_zi && o == &g_o && (void*)a == &g_obj && g_obj.type == K); g_calls++; }
#define DL(F, T, K) void F(lazy_t *o, T *a) { HV_ENSURE("evaluate.kind", o == &g_o && (void*)a == &g_obj && g_obj.type == K); g_calls++; }
DK(e_stack, cp_csg2_stack_t, CP_CSG2_STACK) DK(e_add, cp_csg_add_t, CP_CSG_ADD) DK(e_sub, cp_csg_sub_t, CP_CSG_SUB) DK(e_cut, cp_csg_cut_t, CP_CSG_CUT) DK(e_xor, cp_csg_xor_t, CP_CSG_XOR) DL(e_poly, cp_csg2_poly_t, CP_CSG2_POLY) DL(e_vline2, cp_csg2_vline2_t, CP_CSG2_VLINE2)
void h_eval_kind(void)
{
    bstart(); g_obj.type = hv_u32(); HV_ASSUME(tb(g_obj.type));
    flatten_lazy_rec(&g_c, g_zi, &g_o, &g_obj);
    HV_ENSURE("evaluate.once", g_calls == 1);
    HV_REACH("end");
}
/* the result of a layer: one triangulated polygon, or nothing if empty */
static cp_csg2_tree_t g_r, g_a; static cp_err_t g_err; static cp_csg2_t g_root, g_sweep; static bool g_triok, g_err0; static cp_csg2_poly_t g_p; static size_t g_ps; static unsigned g_evals, g_red, g_tri, g_push;
void f_rec(op_ctxt_t *c, size_t zi, lazy_t *o, cp_csg2_t *a) { HV_ENSURE("layer.whole_tree", c->opt == &g_opt && c->tmp == (void*)g_tp && zi == g_zi && a == &g_root && g_evals == 0); g_evals++; give(o, g_v1); o->size = 2; }
void f_eager(cp_pool_t *tmp, lazy_t *r, mode_t mode)
{
    HV_ENSURE("layer.reduced_once", tmp == (void*)g_tp && r->size == 2 && g_red == 0 && g_evals == 1); g_red++;
    if (g_v2) { r->size = 1; r->data[0] = &g_sweep; r->comb.b[0] = 2; } else r->size = 0;
}
bool f_tri(cp_err_t *e, cq_sweep_t *s, cq_csg2_poly_t *o) { HV_ENSURE("layer.triangulated", e == &g_err && s == (void*)&g_sweep && o == (void*)&g_p.q); g_tri++; if (!g_triok) return 0; o->point.size = g_ps; return 1; }
void f_del(cq_sweep_t *s) { HV_ENSURE("layer.sweep_released", s == (void*)&g_sweep); }
void *f_calloc(char const *f, int l, cp_alloc_t *a, size_t n, size_t s) { HV_ENSURE("layer.one_polygon", n == 1 && s == sizeof(cp_csg2_poly_t)); return &g_p; }
void f_init(cp_csg_add_t **r, cp_loc_t loc) { HV_ENSURE("layer.root", r == &g_lay[g_i].root); g_calls++; }
void *f_ins(cp_alloc_t *a, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    HV_ENSURE("layer.polygon_added_to_this_layer", v == (void*)&g_lay[g_i].root->add && n == 1 && *(void**)data == &g_p && g_calls == 1); g_push++; return NULL;
}
void h_flatten_layer(void)
{
    bstart(); g_v1 = hv_bool(); g_v2 = hv_bool(); g_triok = hv_bool(); g_ps = hv_range(1, BIGN); g_sweep.type = CP_CSG2_SWEEP; g_a.root = &g_root; g_root.type = CP_CSG_ADD;
    g_st.type = CP_CSG2_STACK; g_r.root = (void*)&g_st; g_lay = hv_dyn(g_n, sizeof(cp_csg2_layer_t)); hv_dyn_ptr(g_lay, offsetof(cp_csg2_layer_t, root), g_adds);
    g_st.layer.size = g_n; g_st.layer.data = g_lay; HV_ASSUME(g_zi < g_n); g_i = g_zi; g_r.flag.size = g_n; g_r.flag.data = hv_dyn(g_n, sizeof(*g_r.flag.data));
    size_t k = hv_range(0, BIGN); HV_ASSUME(k < g_n); size_t f0 = g_r.flag.data[k];
    size_t zi0 = g_lay[g_zi].zi;
    bool ok = cp_csg2_op_flatten_layer(&g_err, &g_opt, (void*)g_tp, &g_r, &g_a, g_zi);
    HV_ENSURE("layer.fails_exactly_with_the_triangulation", ok == (!g_v2 || g_triok) && g_evals == 1 && g_red == 1 && g_tri == g_v2);
    bool made = g_v2 && g_triok;
    HV_ENSURE("layer.result_unless_empty", g_push == made && g_lay[g_zi].zi == (made ? g_zi : zi0));
    HV_ENSURE("layer.flag", k == g_zi && made ? g_r.flag.data[k] % (2 * CP_CSG2_FLAG_NON_EMPTY) / CP_CSG2_FLAG_NON_EMPTY == 1 : g_r.flag.data[k] == f0);
    HV_REACH("end");
}
/* flattening the children of an extrusion */
static cp_v_obj_p_t g_rootv; static cp_csg2_bool_mode_t g_mode; static unsigned g_poly;
void p_v(op_ctxt_t *c, size_t zi, lazy_t *o, cp_v_obj_p_t *a) { HV_ENSURE("flatten.whole_list", c->opt == &g_opt && c->tmp == (void*)g_tp && zi == 0 && a == &g_rootv && g_evals == 0); g_evals++; give(o, g_v1); o->size = 2; }
bool p_poly(cp_err_t *e, cq_sweep_t *s, cq_csg2_poly_t *o) { HV_ENSURE("flatten.outline", e == &g_err && s == (void*)&g_sweep && o == (void*)&g_p.q); g_poly++; if (!g_triok) return 0; o->point.size = g_ps; return 1; }
void h_flatten(void)
{
    bstart(); g_v1 = hv_bool(); g_v2 = hv_bool(); g_triok = hv_bool(); g_ps = hv_range(1, BIGN); g_sweep.type = CP_CSG2_SWEEP; g_mode = hv_bool() ? CP_CSG2_BOOL_MODE_PATH : CP_CSG2_BOOL_MODE_TRI;
    char *lb = hv_dyn(BIGN, 1); hv_dyn_ptr(g_src, offsetof(cp_obj_t, loc), lb); g_rootv.data = g_in; g_rootv.size = g_n;
    cp_csg2_poly_t *p = cp_csg2_flatten(&g_err, &g_opt, (void*)g_tp, &g_rootv, g_mode);
    bool made = g_n > 0 && g_v2 && g_triok;
    HV_ENSURE("flatten.polygon_unless_empty", p == (made ? &g_p : NULL) && (!made || p->type == CP_CSG2_POLY));
    HV_ENSURE("flatten.requested_form", g_evals == (g_n > 0) && g_poly == (g_n > 0 && g_v2 && g_mode == CP_CSG2_BOOL_MODE_PATH) && g_tri == (g_n > 0 && g_v2 && g_mode != CP_CSG2_BOOL_MODE_PATH));
    HV_REACH("end");
}
#endif
#endif
