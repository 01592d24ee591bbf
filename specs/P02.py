from hv.vcg import Vcg
M=("ev",)
def G(n, fn, **k):
    return Vcg(n,"matq.c","h_"+n,[],merge=M,functions=fn,timeout=k.pop("timeout",200),**k)
GROUPS=[G("mul_aux",["cq_udimw_mul_aux","cq_udimw_mul","cq_udimq_max","cq_udimq_min"]),G("quad",["cq_udimq_cmp","cq_udimq_eq","cq_udimq"]),
 G("word",["cq_udimw_hi","cq_udimw_lo","cq_udimw","cq_udim_add_ovf","cq_udim_sub_ovf"]),
 G("udime_add",["cq_udime_add"]),G("udime_sub",["cq_udime_sub"]),G("udime_mul",["cq_udime_mul_wn"]),
 G("div_ew_cover",[]),G("div_ew_fail",["cq_dim_div_ew"]),G("div_ew_wide",["cq_dim_div_ew"]),G("div_ew_narrow",["cq_dim_div_ew"]),G("mul_div",["cq_dimif_mul_div_nww"],engine=dict(contracts={"cq_dim_div_ew":"c_div_ew","cq_udime_mul_wn":"c_mul_wn"}))]
ASSUMPTIONS=["the smallest 32/64-bit value is excluded as an operand of the scaled quotient (documented range)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5; cq_dim_div_ew used through its contract"
LEVEL_NOTE="All operands, no bound."
