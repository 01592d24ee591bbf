"""groups for the evaluation of the tree of set operations in a layer (shared by P15 and P34)"""
from hv.vcg import Vcg
M=("vok","keep","back","opval","fval","t3","t2","den","zero","tb")
def G(n, fn, loops={}, contracts={}, **k):
    d=k.pop("defines",[])
    return Vcg(n,"setop.c","h_"+k.pop("h",n),k.pop("src",[]),functions=fn,timeout=k.pop("timeout",200),merge=M,native=False,defines=d,engine=dict(reals=True,contracts=contracts,loops=loops,**k))
BC={"flatten_lazy":"b_lazy","cp_mem_is0":"b_is0"}
Z="flatten_lazy"
def B(n,fn,loops={},contracts={},**k):
    c=dict(BC); c.update(contracts)
    return G(n,fn,loops,c,defines=["PART_BOOL"],**k)
EVAL=[B("eval_v",[Z+"_v_csg2",Z+"_add"],{(Z+"_v_csg2",0):dict(inv="inv_bv")},{Z+"_rec":"b_rec"}),
  B("eval_cut",[Z+"_cut"],{(Z+"_cut",0):dict(inv="inv_bcut")},{Z+"_add":"b_add"}), B("eval_xor",[Z+"_xor"],{(Z+"_xor",0):dict(inv="inv_bxor")},{Z+"_add":"b_add"}),
  B("eval_sub",[Z+"_sub"],{},{Z+"_add":"b_add2"}), B("eval_leaf",[Z+"_poly",Z+"_vline2"]), B("eval_stack",[Z+"_stack",Z+"_layer"],{},{Z+"_add":"b_lay"},src=["src/hob3l/csg2-layer.c"]), B("eval_noroot",[Z+"_layer"]),
  B("eval_kind",[Z+"_rec"],{},{Z+"_"+x:"e_"+x for x in ("stack","add","sub","cut","xor","poly","vline2")}),
  B("flatten_layer",["cp_csg2_op_flatten_layer"],{},{Z+"_rec":"f_rec","flatten_eager":"f_eager","cq_sweep_trianglify":"f_tri","cq_sweep_delete":"f_del","cp_calloc_":"f_calloc","cp_csg_add_init_perhaps":"f_init","cp_v_insert_arr_":"f_ins"},src=["src/hob3l/csg2-layer.c"]),
  B("flatten",["cp_csg2_flatten"],{},{Z+"_v_csg2":"p_v","flatten_eager":"f_eager","cq_sweep_trianglify":"f_tri","cq_sweep_poly":"p_poly","cq_sweep_delete":"f_del","cp_calloc_":"f_calloc"})]
