from hv.vcg import Vcg
KS=("2","3","4","2w","3w")
def G(n, fn, **k): return Vcg(n,"mat.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",300),engine=dict(reals=True,poly=True,**k))
GROUPS=[]
for n in "234":
    V="cp_vec%s_"%n
    GROUPS+=[G(f+n,[V+f]) for f in ("add","sub","neg","mulc","mul","div","lerp","min","max","divc","divz","unit","dir","minmax","minmax_or","minmax_and","minmax_valid","rev")]
    GROUPS+=[G("dot"+n,[V+f for f in ("dot","sqr_len","sqr_dist","len","dist")]),G("maxabs"+n,[V+"max_abs_coord"]),G("lencls"+n,[V+"has_len0",V+"has_len1"]),G("eq"+n,[V+"eq",V+"lex_cmp","cp_lex_cmp"])]
GROUPS+=[G("cross",["cp_vec3_cross"]),G("cross3",["cp_vec3_right_cross3"]),G("normal",["cp_vec3_normal"],contracts={"cp_vec3_max_abs_coord":"c_max_abs_3","cp_vec3_div":"c_div_3"}),G("cross_z",["cp_vec2_cross_z","cp_vec2_right_cross3_z","cp_vec2_normal_z","cp_vec2_port"]),
  G("nearest",["cp_vec2_nearest"]),G("in_line",["cp_vec2_in_line"]),G("in_line3",["cp_vec3_in_line"]),G("scalar",["cp_lerp","cp_lerp_pm","cp_t01","cp_t_pm","cp_div0"])]
ASSUMPTIONS=["double arithmetic treated as exact real arithmetic (rounding not modelled)","divisors are not negligible (at least 2^-15)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "tools/hv/poly.py rational identity decision", "z3, cvc5"]
TECHNIQUE="postconditions on the real matrix functions as identities over the reals, decided by exact polynomial normal forms and z3/cvc5"
LEVEL_NOTE="All real inputs; every aliasing of result and operands the functions allow."
