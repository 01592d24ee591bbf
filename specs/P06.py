from hv.cbmc import Cbmc
from hv.vcg import Vcg
h=[(x,['cq_'+x],{}) for x in ('dim_add','udim_add','dimw_add','udimw_add','dim_sub','udim_sub','dimw_sub','udimw_sub','dim_mul','udim_mul')]+[('unary',['cq_dim_neg','cq_dimw_neg','cq_udim_abs','cq_udimw_abs'],{}),('cross',['cq_cross_z'],{}),('cross3',['cq_right_cross3_z','cq_vec2_right_cross3_z'],{}),('sqr',['cq_sqr_len','cq_vec2_sqr_len'],{}),('dist',['cq_vec2_sqr_dist','cq_line2_sqr_len'],{}),('range',['cq_vec2_right_cross3_z','cq_vec2_sqr_dist'],{})]
GROUPS=[Vcg(n,"matq.c","h_"+n,[],merge=(),functions=f,engine=e,timeout=200) for n,f,e in h]
GROUPS+=[Cbmc("minmax","gon.c","h_minmax",[],unwind=3,functions=["cq_vec2_minmax","cq_line2_minmax","cq_dim_minmax"]),
  Cbmc("minmax_vec","gon.c","h_minmax_vec",[],unwind=5,kind="bounded",bound_note="vectors of at most 3 elements",functions=["cq_v_vec2_minmax","cq_v_line2_minmax"])]
ASSUMPTIONS=["unsigned/signed machine arithmetic is modelled exactly (wrap-around explicit)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="pre/postconditions on the real functions, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All operands, no bound."
