from hv.vcg import Vcg
h=[('cmp_frac',['cq_dimif_cmp_frac'],{}),('cmp_frac_aux',['cq_dimif_cmp_frac_aux'],{}),('cmp',['cq_dimif_cmp','cq_dimif_eq'],{}),('cmp_vec',['cq_vec2if_cmp','cq_vec2if_eq'],{}),('cmp_int',['cq_dim_dimif_cmp','cq_vec2_vec2if_cmp','cq_vec2if_from_vec2'],{})]
GROUPS=[Vcg(n,"matq.c","h_"+n,[],merge=(),functions=f,engine=e,timeout=200) for n,f,e in h]
ASSUMPTIONS=["fractions are proper with a non-zero denominator (established by every producer, see P02 and P04)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All operands, no bound."
