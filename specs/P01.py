from hv.vcg import Vcg
M=("wabs","fits32","fits64")
def G(n, fn, **k): 
    e=k.pop("engine",{})
    return Vcg(n,"matq.c","h_"+n,[],merge=M,functions=fn,engine=e,timeout=k.pop("timeout",120),**k)
GROUPS=[G("divmod",["cq_divmod","cq_div","cq_mod"]),G("divmodw",["cq_divmodw","cq_divw","cq_modw"]),G("divmodx",["cq_divmodx","cq_divx","cq_modx"]),
 G("divw_rnd",["cq_divw_rnd"]),G("round",["cq_round"])]
ASSUMPTIONS=["the smallest value divided by -1 is excluded (the code documents min(int) as outside its range)","cq_divw_rnd is specified for positive divisors (its only use)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All operands, no bound."
