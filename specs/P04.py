from hv.vcg import Vcg
h=[('euclid_unique',[],{}),('intersect',['cq_vec2if_intersect'],dict(contracts={'cq_dimif_mul_div_nww':'c_mul_div'},poly=True)),('intersect_wrap',['cq_vec2_intersect','cq_line2if_intersect'],dict(contracts={'cq_vec2if_intersect':'c_isect'}))]
GROUPS=[Vcg(n,"matq.c","h_"+n,[],merge=(),functions=f,engine=e,timeout=200) for n,f,e in h]
ASSUMPTIONS=["coordinates of at most CQ_INT_DIG=30 bits (the documented supported range)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="cq_dimif_mul_div_nww used through its contract (proved under P02); pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All operands, no bound."
