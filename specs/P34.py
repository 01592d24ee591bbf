from hv.vcg import Vcg
M=("vok","keep","back","opval","fval","t3","t2","den","zero","tb")
def G(n, fn, loops={}, contracts={}, **k):
    d=k.pop("defines",[])
    return Vcg(n,"setop.c","h_"+k.pop("h",n),k.pop("src",[]),functions=fn,timeout=k.pop("timeout",200),merge=M,native=False,defines=d,engine=dict(reals=True,contracts=contracts,loops=loops,**k))
MC={"csg3_from_scad":"c_scad","cp_calloc_":"c_calloc","cp_v_insert_arr_":"c_ins","cp_v_fini_":"c_fini"}
D="csg3_from_difference"
GROUPS=[G("difference",[D],{(D,0):dict(inv="inv_pos"),(D,1):dict(inv="inv_ext"),(D,2):dict(inv="inv_neg")},MC,defines=["PART_MODEL"])]
I="csg3_from_intersection"
GROUPS+=[G("intersection",[I,"csg3_cut_push_add"],{(I,0):dict(inv="inv_cut")},{"csg3_from_scad":"i_scad","cp_calloc_":"i_calloc","cp_v_insert_arr_":"i_ins","cp_v_fini_":"c_fini"},defines=["PART_MODEL"]),
  G("union",["csg3_from_rec","csg3_from_v_scad"],{("csg3_from_v_scad",0):dict(inv="inv_list")},{"csg3_from_scad":"u_scad"},defines=["PART_MODEL"])]
def T(n,fn,loops={},contracts={},**k):
    c={"cp_calloc_":"t_calloc","cp_v_ensure_size_":"c_ensure"}; c.update(contracts)
    return G(n,fn,loops,c,defines=["PART_TREE"],**k)
X="csg2_tree_from_csg3"
GROUPS+=[T("tree_v",["csg2_tree_from_v_csg3"],{("csg2_tree_from_v_csg3",0):dict(inv="inv_v")},{X:"t_obj"}),
  T("tree_add",[X+"_add"],{},{"csg2_tree_from_v_csg3":"t_v"}), T("tree_sub",[X+"_sub"],{},{X+"_add":"t_add"}),
  T("tree_cut",[X+"_cut"],{(X+"_cut",0):dict(inv="inv_cut")},{X+"_add":"t_addi"}), T("tree_xor",[X+"_xor"],{(X+"_xor",0):dict(inv="inv_xor")},{X+"_add":"t_addi"}),
  T("tree_kind",[X,X+"_obj"],{},{X+"_add":"d_add",X+"_sub":"d_sub",X+"_cut":"d_cut",X+"_xor":"d_xor"}),
  T("tree_root",["cp_csg2_tree_from_csg3"],{("cp_csg2_tree_from_csg3",0):dict(inv="inv_z")},{"csg2_tree_from_v_csg3":"t_v","cp_calloc_":"r_calloc"})]
def L(n,fn,loops={},contracts={},**k):
    return G(n,fn,loops,contracts,defines=["PART_LAYER"],**k)
Y="csg2_add_layer"
GROUPS+=[L("layer_v",[Y+"_v",Y+"_add"],{(Y+"_v",0):dict(inv="inv_lv")},{Y:"l_obj"}), L("layer_sub",[Y+"_sub"],{},{Y+"_add":"l_sub"}),
  L("layer_cut",[Y+"_cut"],{(Y+"_cut",0):dict(inv="inv_lc")},{Y+"_add":"l_add"}), L("layer_xor",[Y+"_xor"],{(Y+"_xor",0):dict(inv="inv_lv")},{Y+"_add":"l_add"}),
  L("layer_stack",[Y+"_stack","cp_csg2_stack_get_layer"],{},{Y+"_sphere":"l_sphere",Y+"_poly":"l_poly","cp_csg_add_init_perhaps":"l_init"}),
  T("init",["cp_csg_add_init_perhaps"]),
  L("layer_kind",[Y],{},{Y+"_"+x:"k_"+x for x in ("stack","add","sub","cut","xor")})]
from hv.evalgroups import EVAL
GROUPS+=EVAL
ASSUMPTIONS=['combining two lazy combinations has the value of the set operation (proved in P15)', 'the recursion over the object tree is well founded: each function is checked against the contract of its callees for arbitrary children (induction on the height of the tree)', 'no allocation failure (the library stops)', 'vectors have fewer than 2^29 members', 'a vector append puts the members at the end (P10)']
TRUSTED=['tools/hv/vcg.py verification condition generator (goto-cc C front end of CBMC 6.11)', 'z3, cvc5']
TECHNIQUE='pre/postconditions and loop invariants with the truth value at a ghost point as ghost state on the real tree functions of csg3.c, csg2-tree.c, csg2-layer.c and csg2-bool.c; obligations discharged by z3/cvc5'
LEVEL_NOTE='All trees: any number of children, any depth (no bound).'
