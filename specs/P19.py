from hv.vcg import Vcg
KS=("2","3","4","2w","3w")
def G(n, fn, **k): return Vcg(n,"mat.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",300),engine=dict(contracts={"cp_vec2_has_len0_or_1":"c_len01_2","cp_vec3_has_len0_or_1":"c_len01_3"},reals=True,poly=True,**k))
R3=("3","3w","4")
GROUPS=[G("rot_unit_"+k,["cp_dim3_rot_unit","cp_mat%s_rot_unit"%k]) for k in R3]+[G("rot_xyz_"+k,["cp_mat%s_rot_%s"%(k,a) for a in "xyz"]) for k in R3]
GROUPS+=[G("rot_v_"+k,["cp_mat%s_rot_v"%k,"cp_vec3_unit"]) for k in R3]+[G("rot_v0_"+k,["cp_mat%s_rot_v"%k]) for k in R3]
GROUPS+=[G("into_z_"+k,["cp_dim3_rot_unit_into_z","cp_mat%s_rot_unit_into_z"%k]) for k in R3]+[G("into_z_v_"+k,["cp_mat%s_rot_into_z"%k]) for k in R3]
GROUPS+=[G("rot_ij_"+k,["cp_mat%s_rot_ij"%k]) for k in KS]+[G("rot2_"+k,["cp_mat%s_rot"%k]) for k in ("2","2w")]
GROUPS+=[G("mirror_"+k,["cp_mat%s_mirror_unit"%k]) for k in KS]+[G("mirror_v_"+k,["cp_mat%s_mirror_v"%k]) for k in KS]
ASSUMPTIONS=["double arithmetic treated as exact real arithmetic (rounding not modelled)","sine/cosine pairs lie on the unit circle, axes given as unit vectors on the unit sphere"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "tools/hv/poly.py rational identity decision", "z3, cvc5"]
TECHNIQUE="postconditions on the real matrix functions as identities over the reals, decided by exact polynomial normal forms and z3/cvc5"
LEVEL_NOTE="All real inputs; every aliasing of result and operands the functions allow."
