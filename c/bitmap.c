/* contracts for the boolean function tables: src/hob3lbase/bool-bitmap.c, the lazy combination in
 * src/hob3l/csg2-bool.c and the evaluation in src/hob3lop/op-sweep-reduce.c (real texts) */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <hob3lbase/panic.h>
#include <hob3lbase/bool-bitmap.h>
#ifdef HV_CBMC
#  undef assert
#  define assert(x) __CPROVER_assert(x, "assert " #x)
#endif
static void hv_die(void) { HV_ENSURE("no_failure_exit", false); HV_STOP(); }
#define cp_panic(...) hv_die()
#include <bool-bitmap.c>
#ifndef HAVE
#define HAVE 3
#define ADD 4
#endif
#define BITS (1U << CP_BOOL_BITMAP_MAX_LAZY)
static bool bit(cp_bool_bitmap_t const *b, size_t i) { return (b->b[i / 8] >> (i % 8)) & 1; }
static void mk(cp_bool_bitmap_t *b, size_t n) { for (size_t i = 0; i < n; i++) b->w[i] = hv_u64(); }
static cp_bool_bitmap_t B, O, C;
#define WORDS(n) ((n) <= 6 ? (size_t)1 : (size_t)1 << ((n) - 6))

/* every bit of the result of spreading is the old bit with the new low inputs ignored */
void h_spread(void)
{
    mk(&B, WORDS(HAVE)); O = B;
    cp_bool_bitmap_spread(&B, HAVE, ADD);
    size_t i = (size_t)hv_range(0, (1U << (HAVE + ADD)) - 1);
    HV_ENSURE("spread.ignores_new_low_inputs", bit(&B, i) == bit(&O, i >> ADD));
    HV_REACH("spread");
}
/* every bit of the result of repeating is the old bit with the new high inputs ignored */
void h_repeat(void)
{
    mk(&B, WORDS(HAVE)); O = B;
    cp_bool_bitmap_repeat(&B, HAVE, ADD);
    size_t i = (size_t)hv_range(0, (1U << (HAVE + ADD)) - 1);
    HV_ENSURE("repeat.ignores_new_high_inputs", bit(&B, i) == bit(&O, i & ((1U << HAVE) - 1)));
    HV_REACH("repeat");
}
static bool op_of(cp_bool_op_t op, bool a, bool b)
{ return op == CP_OP_ADD ? a || b : op == CP_OP_CUT ? a && b : op == CP_OP_SUB ? a && !b : a != b; }
static cp_bool_op_t in_op(void)
{ static cp_bool_op_t const o[4] = { CP_OP_ADD, CP_OP_CUT, CP_OP_SUB, CP_OP_XOR }; return o[hv_range(0, 3)]; }
void h_combine(void)
{
    mk(&B, WORDS(HAVE)); mk(&C, WORDS(HAVE)); O = B; cp_bool_op_t op = in_op();
    cp_bool_bitmap_t c0 = C;
    cp_bool_bitmap_combine(&B, &C, HAVE, op);
    size_t i = (size_t)hv_range(0, (1U << HAVE) - 1);
    HV_ENSURE("combine.operation", bit(&B, i) == op_of(op, bit(&O, i), bit(&c0, i)));
    HV_ENSURE("combine.operand_kept", bit(&C, i) == bit(&c0, i));
    HV_REACH("combine");
}
void h_getset(void)
{
    mk(&B, BITS / 64); O = B;
    size_t i = (size_t)hv_range(0, BITS - 1), k = (size_t)hv_range(0, BITS - 1); bool v = hv_bool();
    HV_ENSURE("get.bit", cp_bool_bitmap_get(&B, i) == bit(&O, i));
    cp_bool_bitmap_set(&B, i, v);
    HV_ENSURE("set.bit", bit(&B, k) == (k == i ? v : bit(&O, k)));
    HV_ENSURE("set.get", cp_bool_bitmap_get(&B, i) == v);
    HV_REACH("getset");
}
#ifdef LAZY
#ifndef MS
#define MS 10
#endif
#ifdef HV_CBMC
/* callee contracts (each one is proved above for every size), instantiated at the witness entries 0, 1 and hv_w */
static size_t hv_w;
static void hv_havoc(cp_bool_bitmap_t *c) { cp_bool_bitmap_t t; *c = t; }
static void hv_bm_spread(cp_bool_bitmap_t *c, size_t have, size_t add)
{
    HV_ENSURE("spread.pre", have + add <= CP_BOOL_BITMAP_MAX_LAZY);
    cp_bool_bitmap_t o = *c; hv_havoc(c); size_t w[3] = { 0, 1, hv_w };
    for (int k = 0; k < 3; k++) if (w[k] < (1U << (have + add))) HV_ASSUME(bit(c, w[k]) == bit(&o, w[k] >> add));
}
static void hv_bm_repeat(cp_bool_bitmap_t *c, size_t have, size_t add)
{
    HV_ENSURE("repeat.pre", have + add <= CP_BOOL_BITMAP_MAX_LAZY);
    cp_bool_bitmap_t o = *c; hv_havoc(c); size_t w[3] = { 0, 1, hv_w };
    for (int k = 0; k < 3; k++) if (w[k] < (1U << (have + add))) HV_ASSUME(bit(c, w[k]) == bit(&o, w[k] & ((1U << have) - 1)));
}
static void hv_bm_combine(cp_bool_bitmap_t *r, cp_bool_bitmap_t const *b, size_t size, cp_bool_op_t op)
{
    HV_ENSURE("combine.pre", size <= CP_BOOL_BITMAP_MAX_LAZY && (op == CP_OP_ADD || op == CP_OP_CUT || op == CP_OP_SUB || op == CP_OP_XOR));
    cp_bool_bitmap_t o = *r; hv_havoc(r); size_t w[3] = { 0, 1, hv_w };
    for (int k = 0; k < 3; k++) if (w[k] < (1U << size)) HV_ASSUME(bit(r, w[k]) == op_of(op, bit(&o, w[k]), bit(b, w[k])));
}
#define cp_bool_bitmap_spread hv_bm_spread
#define cp_bool_bitmap_repeat hv_bm_repeat
#define cp_bool_bitmap_combine hv_bm_combine
#endif
static bool hv_is0(void *p, size_t n) { for (size_t i = 0; i < n / 8; i++) if (((uint64_t*)p)[i] != 0) return false; return true; }
#define cp_mem_is0 hv_is0
#define mode_t hv_mode_t
#include <csg2-bool.c>
#undef mode_t
cp_csg2_layer_t *cp_csg2_stack_get_layer(cp_csg2_stack_t *c, size_t zi)    /* contract: P23 */
{ return zi >= c->idx0 && zi - c->idx0 < c->layer.size ? &c->layer.data[zi - c->idx0] : NULL; }
/* ---- lazy evaluation: each polygon is represented by the ghost bit 'the point is inside of it' ---- */
#ifndef RS
#define RS 4
#define BS 4
#endif
#define NOBJ 20
static union { cp_csg2_t o; cp_csg2_poly_t p; cp_csg2_vline2_t v; } obj[NOBJ]; static bool inside[NOBJ];
static struct { cp_csg2_t o; } swp[3]; static bool swp_in[3]; static unsigned nswp; static bool swp_deleted[3];
static unsigned acc_mask, used_mask; static unsigned acc_of;
#ifdef HV_CBMC
#define SAME(p, a) __CPROVER_same_object(p, a)
#else
#define SAME(p, a) ((uintptr_t)(p) >= (uintptr_t)(a) && (uintptr_t)(p) < (uintptr_t)(a) + sizeof(a))
#endif
static int id_of(void const *p) { return SAME(p, obj) ? (int)((size_t)((char const*)p - (char const*)obj) / sizeof(obj[0])) : -1; }
static int sid_of(void const *p) { return SAME(p, swp) ? (int)((size_t)((char const*)p - (char const*)swp) / sizeof(swp[0])) : -1; }
static bool in_of(void const *p)
{
    int k = sid_of(p);
    if (k >= 0) { HV_ENSURE("lazy.no_deleted_polygon_is_used", !swp_deleted[k]); return swp_in[k]; }
    k = id_of(p); HV_ENSURE("lazy.known_polygon", k >= 0); return inside[k];
}
cq_sweep_t *cq_sweep_new(cp_pool_t *t, cp_loc_t l, size_t n)
{
    (void)t; (void)l; (void)n;
    HV_ENSURE("lazy.at_most_three_reductions", nswp < 3);
    if (nswp >= 3) HV_STOP();
    acc_of = nswp; acc_mask = 0; used_mask = 0; swp[nswp].o.type = CP_CSG2_SWEEP; swp_deleted[nswp] = false;
    return (cq_sweep_t*)(void*)&swp[nswp++];
}
static void add_in(cq_sweep_t *s, bool in, size_t member)
{
    HV_ENSURE("lazy.adds_to_the_new_sweep", (void*)s == (void*)&swp[acc_of]);
    HV_ENSURE("lazy.distinct_member_bits", member != 0 && (member & (member - 1)) == 0 && (used_mask & member) == 0 && member < 1024);
    used_mask |= (unsigned)member; if (in) acc_mask |= (unsigned)member;
}
static void hv_add_obj(cq_sweep_t *s, void const *o, size_t member) { add_in(s, in_of(o), member); }
#define CONT(p, T, f) ((void const*)((char const*)(p) - offsetof(T, f)))
void cq_sweep_add_v_line2(cq_sweep_t *s, cq_v_line2_t const *v, size_t m) { hv_add_obj(s, CONT(v, cp_csg2_vline2_t, q), m); }
void cq_sweep_add_poly(cq_sweep_t *s, cq_csg2_poly_t const *v, size_t m) { hv_add_obj(s, CONT(v, cp_csg2_poly_t, q), m); }
void cq_sweep_add_sweep(cq_sweep_t *s, cq_sweep_t *v, size_t m) { hv_add_obj(s, v, m); }
void cq_sweep_delete(cq_sweep_t *s) { int k = sid_of(s); if (k >= 0) swp_deleted[k] = true; }
void cq_sweep_intersect(cq_sweep_t *s) { (void)s; }
void cq_sweep_reduce(cq_sweep_t *s, cp_bool_bitmap_t const *c, size_t n)
{
    HV_ENSURE("lazy.table_covers_all_inputs", (used_mask + 1) == n);
    swp_in[acc_of] = bit(c, acc_mask);
    (void)s;
}
static bool empt[3];   /* which reductions leave no edge at all */
bool cq_sweep_empty(cq_sweep_t *s) { int k = sid_of(s); bool e = empt[acc_of]; if (k >= 0) HV_ASSUME(!e || !swp_in[k]); return e; }
static size_t mask_of(lazy_t const *l)
{
    size_t m = 0;
    for (size_t i = 0; i < CP_BOOL_BITMAP_MAX_LAZY; i++) if (i < l->size && in_of(l->data[i])) m |= (size_t)1 << i;
    return m;
}
static bool den(lazy_t const *l) { return bit(&l->comb, mask_of(l)); }
static lazy_t R, L;
static void mk_lazy(lazy_t *l, size_t n, unsigned base)
{
    l->size = n; mk(&l->comb, WORDS(n));
    static cp_csg2_type_t const ty[2] = { CP_CSG2_POLY, CP_CSG2_VLINE2 };
    for (size_t i = 0; i < n; i++) { unsigned k = base + (unsigned)i; l->data[i] = &obj[k].o; obj[k].o.type = ty[hv_range(0, 1)]; inside[k] = hv_bool(); }
    HV_ASSUME(!bit(&l->comb, 0));         /* nothing is inside where no operand is: kept by all operations */
}
static void lazy_case(bool skip, bool e0, bool e1)
{
    nswp = 0; empt[0] = e0; empt[1] = e1;
    mk_lazy(&R, RS, 0); mk_lazy(&L, BS, 10);
    cp_csg_opt_t opt; memset(&opt, 0, sizeof(opt));
    opt.max_simultaneous = MS;
    size_t ms = MS < 10 ? MS : 10;
    opt.optimise = skip ? CP_CSG2_OPT_SKIP_EMPTY : 0;
    cp_bool_op_t op = in_op();
    bool want = op_of(op, den(&R), den(&L));
#ifdef HV_CBMC
    { size_t w; hv_w = w; }          /* the mask at which the result is going to be read */
#endif
    flatten_lazy(&opt, NULL, &R, &L, op);
    HV_ENSURE("lazy.size_in_limit", R.size <= ms);
#ifdef HV_CBMC
    HV_ASSUME(hv_w == mask_of(&R));
#endif
    HV_ENSURE("lazy.result_is_the_operation", den(&R) == want);
    HV_ENSURE("lazy.empty_outside", !bit(&R.comb, 0));
}
void h_lazy(void)
{
    if (RS + BS <= MS && RS + BS <= CP_BOOL_BITMAP_MAX_LAZY) {   /* fits: nothing to reduce */
        if (hv_bool()) lazy_case(false, false, false); else lazy_case(true, false, false);
    }
    else {
        switch (hv_range(0, 7)) {
        case 0: lazy_case(false, false, false); break;
        case 1: lazy_case(true, false, false); break;
        case 2: lazy_case(false, true, false); break;
        case 3: lazy_case(true, true, false); break;
        case 4: lazy_case(false, false, true); break;
        case 5: lazy_case(true, false, true); break;
        case 6: lazy_case(false, true, true); break;
        default: lazy_case(true, true, true); break;
        }
    }
    HV_REACH("lazy");
}
void h_eager(void)
{
    mk_lazy(&R, RS, 0);
    if (RS == 1 && hv_bool()) { swp[0].o.type = CP_CSG2_SWEEP; swp_in[0] = hv_bool(); nswp = 1; R.data[0] = &swp[0].o; }
    static cp_csg2_bool_mode_t const mo[3] = { CP_CSG2_BOOL_MODE_VLINE2, CP_CSG2_BOOL_MODE_PATH, CP_CSG2_BOOL_MODE_TRI };
    cp_csg2_bool_mode_t m = mo[hv_range(0, 2)];
    bool want = den(&R); empt[0] = hv_bool(); empt[1] = hv_bool();
    flatten_eager(NULL, &R, m);
    HV_ENSURE("eager.at_most_one", R.size <= 1);
    HV_ENSURE("eager.value", (R.size == 0 ? false : in_of(R.data[0])) == want);
    HV_ENSURE("eager.table_is_identity", R.size == 0 || (!bit(&R.comb, 0) && bit(&R.comb, 1)));
    HV_ENSURE("eager.outside_stays_outside", !bit(&R.comb, 0));
    HV_ENSURE("eager.is_a_sweep", R.size == 0 || m == CP_CSG2_BOOL_MODE_VLINE2 || R.data[0]->type == CP_CSG2_SWEEP);
    HV_REACH("eager");
}

/* ---- expression trees: KIND of the root, NCH operands of up to two leaves each ---- */
#ifndef KIND
#define KIND 0
#define NCH 2
#define NLEAF 1
#endif
static cp_csg_add_t add[3]; static cp_obj_t *leaf[3][2]; static bool aval[3];
static bool mk_leaf(unsigned k, bool empty)
{
    if (((k ^ (k >> 1)) & 1) == 0) { obj[k].o.type = CP_CSG2_POLY; obj[k].p.q.point.size = empty ? 0 : 3; }
    else { obj[k].o.type = CP_CSG2_VLINE2; obj[k].v.q.size = empty ? 0 : 3; }
    inside[k] = empty ? false : hv_bool();
    return inside[k];
}
static void mk_add(unsigned j, unsigned em)
{
    add[j].type = CP_CSG_ADD; add[j].add.data = leaf[j]; add[j].add.size = NLEAF; aval[j] = false;
    for (unsigned i = 0; i < NLEAF; i++) { unsigned k = j * 2 + i; leaf[j][i] = (cp_obj_t*)&obj[k]; if (mk_leaf(k, (em >> (j * NLEAF + i)) & 1)) aval[j] = true; }
}
#ifdef HV_CBMC
/* contract of flatten_lazy (proved above): the value is the operation on the operands' values; here sizes 100, 101 stand for
 * any lazy result that is false or true at the point */
static bool val(lazy_t const *l)
{
    if (l->size == 0) return false;
    if (l->size == 1) { HV_ENSURE("leaf.table_is_identity", l->comb.b[0] == 2); return in_of(l->data[0]); }
    return l->size == 101;
}
void c_flatten_lazy(cp_csg_opt_t const *opt, cp_pool_t *tmp, lazy_t *r, lazy_t *b, cp_bool_op_t op)
{
    (void)opt; (void)tmp;
    HV_ENSURE("lazy.pre", op == CP_OP_ADD || op == CP_OP_CUT || op == CP_OP_SUB || op == CP_OP_XOR);
    bool v = op_of(op, val(r), val(b));
    memset(r, 0, sizeof(*r)); r->size = v ? 101 : 100;
    memset(b, 170, sizeof(*b));
}
#else
static bool val(lazy_t const *l) { return den(l); }
#endif
static void tree_case(unsigned em, bool skip)
{
    static cp_csg_add_t *ops[3]; static union { cp_csg2_t o; cp_csg_add_t a; cp_csg_sub_t s; cp_csg_cut_t c; cp_csg_xor_t x; cp_csg2_stack_t st; } root;
    static cp_csg2_layer_t lay[2];
    nswp = 0; memset(&root, 0, sizeof(root));
    for (unsigned j = 0; j < NCH; j++) { mk_add(j, em); ops[j] = &add[j]; }
    cp_csg_opt_t opt; memset(&opt, 0, sizeof(opt)); opt.max_simultaneous = 10; opt.optimise = skip ? CP_CSG2_OPT_SKIP_EMPTY : 0;
    op_ctxt_t c = { &opt, NULL }; size_t zi = 0;
    bool want = aval[0];
    switch (KIND) {
    case 0: root.a.type = CP_CSG_ADD; root.a.add.data = (cp_obj_t**)ops; root.a.add.size = NCH; for (unsigned j = 1; j < NCH; j++) want = want || aval[j]; break;
    case 1: root.c.type = CP_CSG_CUT; root.c.cut.data = ops; root.c.cut.size = NCH; for (unsigned j = 1; j < NCH; j++) want = want && aval[j]; break;
    case 2: root.x.type = CP_CSG_XOR; root.x.xor.data = ops; root.x.xor.size = NCH; for (unsigned j = 1; j < NCH; j++) want = want != aval[j]; break;
    case 3: root.s.type = CP_CSG_SUB; root.s.add = ops[0]; root.s.sub = ops[1]; want = want && !aval[1]; break;
    default:
        root.st.type = CP_CSG2_STACK; root.st.idx0 = 5; root.st.layer.data = lay; root.st.layer.size = 2;
        lay[0].zi = 5; lay[0].root = ops[0]; lay[1].zi = 6; lay[1].root = NCH > 1 ? ops[1] : NULL;
        zi = KIND == 4 ? 5 : KIND == 5 ? 6 : KIND == 6 ? 4 : 7;
        want = KIND == 4 ? aval[0] : KIND == 5 && NCH > 1 ? aval[1] : false;
        break;
    }
    static lazy_t o; memset(&o, 0, sizeof(o));
    flatten_lazy_rec(&c, zi, &o, &root.o);
    HV_ENSURE("tree.value_of_the_expression", val(&o) == want);
}
void h_tree(void)
{
    unsigned em = 0;
    for (unsigned k = 0; k < NCH * NLEAF; k++) if (hv_bool()) em |= 1u << k;
    if (hv_bool()) tree_case(em, true); else tree_case(em, false);
    HV_REACH("tree");
}
#endif
