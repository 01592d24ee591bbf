from hv.vcg import Vcg
h=[('cmp_edge_rnd',['cq_cmp_edge_rnd'],{}),('cmp_edge_wrap',['cq_vec2_cmp_edge_rnd','cq_vec2_cmp_line2_rnd'],{})]
GROUPS=[Vcg(n,"matq.c","h_"+n,[],merge=(),functions=f,engine=e,timeout=200) for n,f,e in h]
GROUPS+=[Vcg("edge_cmp","sweep.c","h_edge_cmp",[],merge=("sg","lex","lexs"),functions=["vec2_edge_cmp_exact","vec2_edge_cmp_tolerant","cq_sweep_bundle_vec2_edge_cmp"],timeout=200)]
ASSUMPTIONS=["coordinates of at most CQ_INT_DIG=30 bits (the documented supported range)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All operands, no bound."
