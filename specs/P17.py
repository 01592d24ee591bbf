from hv.vcg import Vcg
KS=("2","3","4","2w","3w")
def G(n, fn, **k): return Vcg(n,"mat.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",300),engine=dict(reals=True,poly=True,**k))
GROUPS=[G("inv_"+k,["cp_mat%s_inv"%k,"cp_mat%s_det"%k]) for k in KS]
GROUPS+=[G("imul_"+k,["cp_mat%si_mul"%k,"cp_mat%s_mul"%k]) for k in KS]+[G("assoc_"+k,[]) for k in "234"]
GROUPS+=[G("iinv_"+k,["cp_mat%si_inv"%k]) for k in KS]+[G("ifrom_"+k,["cp_mat%si_from_mat%s"%(k,k)]) for k in KS]
GROUPS+=[G("itrans_"+k,["cp_mat%si_trans"%k]) for k in KS]+[G("scale_"+k,["cp_mat%si_scale"%k,"cp_mat%s_scale"%k]) for k in KS]
GROUPS+=[G("xlat_"+k,["cp_mat%si_xlat"%k,"cp_mat%s_xlat"%k]) for k in ("2w","3","3w","4")]+[G("unit_"+k,["cp_mat%si_unit"%k]) for k in KS]
GROUPS+=[G(n,[]) for n in ("conv_iup","conv_idown","conv_idown2","conv_iplanar")]
ASSUMPTIONS=["double arithmetic treated as exact real arithmetic (rounding not modelled)","determinants of matrices being inverted through cp_mat*i_inv and scale factors are not negligible (at least 2^-15)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "tools/hv/poly.py rational identity decision", "z3, cvc5"]
TECHNIQUE="postconditions on the real matrix functions as identities over the reals, decided by exact polynomial normal forms and z3/cvc5"
LEVEL_NOTE="All real matrices; every aliasing of result and operands."
