from hv.vcg import Vcg
KS=("2","3","4","2w","3w")
def G(n, fn, **k): return Vcg(n,"mat.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",300),engine=dict(reals=True,poly=True,**k))
GROUPS=[G("mul_"+k,["cp_mat%s_mul"%k]) for k in KS]+[G("xform_"+k,["cp_vec%s_xform"%k]) for k in KS]+[G("compose_"+k,["cp_vec%s_xform"%k,"cp_mat%s_mul"%k]) for k in KS]
GROUPS+=[G("trans_"+k,["cp_mat%s_trans"%k]) for k in KS]+[G("act",["cp_mat3w_xlat","cp_mat3w_scale","cp_mat2w_xlat","cp_mat2w_scale"])]
GROUPS+=[G("scale_"+k,["cp_mat%s_scale"%k]) for k in KS]+[G("xlat_"+k,["cp_mat%s_xlat"%k]) for k in ("2w","3","3w","4")]+[G("unit_"+k,["cp_mat%s_unit"%k]) for k in KS]
GROUPS+=[G("conv_3w_4",["cp_mat3w_from_mat4"]),G("conv_2w_3",["cp_mat2w_from_mat3"]),G("conv_2w_3w",["cp_mat2w_from_mat3w"]),G("conv_up",["cp_mat4_from_mat3w","cp_mat3_from_mat2w","cp_mat3w_from_mat2w"]),
  G("conv_iup",["cp_mat4i_from_mat3wi","cp_mat3i_from_mat2wi","cp_mat3wi_from_mat2wi"]),G("conv_idown",["cp_mat3wi_from_mat4i"]),G("conv_idown2",["cp_mat2wi_from_mat3i"]),G("conv_iplanar",["cp_mat2wi_from_mat3wi"])]
ASSUMPTIONS=["double arithmetic treated as exact real arithmetic (rounding not modelled)","scale factors are not negligible (at least 2^-15) where the carried inverse is concerned"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "tools/hv/poly.py rational identity decision", "z3, cvc5"]
TECHNIQUE="postconditions on the real matrix functions as identities over the reals, decided by exact polynomial normal forms and z3/cvc5"
LEVEL_NOTE="All real inputs; every aliasing of result and operands the functions allow."
