from hv.vcg import Vcg
A={"cp_calloc_":"c_calloc"}
GROUPS=[Vcg("range","layer.c","h_range",[],functions=["cp_range_init"],timeout=200,engine=dict(reals=True)),
  Vcg("get_layer","layer.c","h_get_layer",[],defines=["LAYER"],functions=["cp_csg2_stack_get_layer"],timeout=100),
  Vcg("heights","layer.c","h_heights",[],defines=["TREE"],functions=["cp_csg2_tree_from_csg3"],timeout=100,engine=dict(reals=True,contracts=dict(A,csg2_tree_from_v_csg3="c_from_v"),loops={("cp_csg2_tree_from_csg3",0):dict(inv="inv_z")})),
  Vcg("stack","layer.c","h_stack",[],defines=["TREE"],functions=["csg2_tree_from_csg3_obj"],timeout=100,engine=dict(reals=True,contracts=A))]
ASSUMPTIONS=["double arithmetic treated as exact real arithmetic (rounding not modelled); at most 2^52 layers in a range",
  "calloc returns a fresh zeroed block"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="contracts on the real functions with a loop invariant for the height table, obligations discharged by z3/cvc5"
LEVEL_NOTE="All heights, steps, stack ranges and indices; the height table by loop invariant at an arbitrary layer (no bound)."
