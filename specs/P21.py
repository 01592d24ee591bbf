from hv.vcg import Vcg
M=("mn","mx","nonempty","hull","ch","typed","lim","INFP","extend","all_inf","pts","inv_cut")
def G(n, fn, loops={}, contracts={}, src=[], **k):
    return Vcg(n,"bbox.c","h_"+n,src,functions=fn,timeout=k.pop("timeout",250),merge=M,native=False,engine=dict(reals=True,infinite=True,contracts=contracts,loops=loops,**k))
ALG=["src/hob3lmat/algo.c","src/hob3lmat/mat_gen_ext.c"]
GROUPS=[G("vec",["get_bb_v_csg3"],{("get_bb_v_csg3",0):dict(inv="inv_hull")},{"get_bb_csg3":"c_csg3"}),G("add",["get_bb_add"],{("get_bb_v_csg3",0):dict(inv="inv_hull")},{"get_bb_csg3":"c_csg3"}),
 G("xor",["get_bb_xor"],{("get_bb_xor",0):dict(inv="inv_hull")},{"get_bb_add":"c_addx"}),G("sub",["get_bb_sub"],{},{"get_bb_add":"c_addx"}),
 G("cut",["get_bb_cut"],{("get_bb_cut",0):dict(inv="inv_hull"),("get_bb_cut",1):dict(inv="inv_cut")},{"get_bb_add":"c_addcut"},ALG),G("cut_none",["get_bb_cut"],{},{"get_bb_add":"c_addcut"},ALG),
 G("poly",["get_bb_poly3"],{("get_bb_poly3",0):dict(inv="inv_pts")},{"cp_vec3_minmax":"c_pt"}),
 G("sphere",["get_bb_sphere","csg3_sphere_minmax","csg3_sphere_minmax1"],poly=True),G("extent",["(lemma)"],poly=True),G("extent_attained",["(lemma)"],poly=True),
 G("dispatch",["get_bb_csg3","cp_csg3_tree_minmax"],{},{"get_bb_add":"d_add","get_bb_xor":"d_xor","get_bb_sub":"d_sub","get_bb_cut":"d_cut","get_bb_sphere":"d_sphere","get_bb_poly3":"d_poly"})]
ASSUMPTIONS=["finite coordinates below 1e308 in magnitude; doubles treated as exact reals, the infinities as two values outside every finite one",
 "boxes of children are contracts: an arbitrary box, or none; that the recursion over the finite object tree ends is a paper argument",
 "sqrt is the real square root (sphere extent)", "a point whose coordinates the point contract reports is the transformed vertex stored in the polyhedron"]
TRUSTED=["tools/hv/vcg.py verification condition generator (C front end: CBMC 6.11)", "z3, cvc5"]
TECHNIQUE="contracts and loop invariants on the real bounding box functions (each caller against its callees' contracts), ghost witness children for tightness; obligations discharged by z3/cvc5"
LEVEL_NOTE="All object lists, boxes, matrices and point counts (no bound)."
