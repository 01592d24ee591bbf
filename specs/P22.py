from hv.vcg import Vcg
from hv.cbmc import Cbmc
def G(n, fn, **k): return Vcg(n,"trig.c","h_"+n,[],functions=fn,timeout=200,engine=dict(reals=True,**k))
I={"cp_f_get_int":"c_get_int","sin":"c_sin","cos":"c_cos"}
GROUPS=[Cbmc("get_int","trig.c","h_get_int",[],unwind=3,functions=["cp_f_get_int","split_float"]), Cbmc("get_int2","trig.c","h_get_int2",[],unwind=3,functions=["cp_f_get_int","split_float"]),
  G("sin",["cp_sin_deg","exact_sin"],contracts=I), G("cos",["cp_cos_deg","exact_sin"],contracts=I), G("lib",["cp_sin_deg","cp_cos_deg"],contracts={"cp_f_get_int":"c_get_int_no","sin":"c_lib","cos":"c_lib"}),
  G("step",["cp_circle_iter_step","CP_CIRCLE_ITER_INIT"],contracts={"cp_sin_deg":"c_sin_deg","cp_cos_deg":"c_cos_deg"}), G("order",["(lemma)"]), G("each",["cp_circle_each"],contracts={"cp_sin_deg":"c_sin_deg","cp_cos_deg":"c_cos_deg"})]
ASSUMPTIONS=["the C library's sin(0) is 0 and cos(0) is 1, and otherwise its sin and cos are the sine and cosine",
  "the angle of a circle point is the real number 360*i/n (rounding of the product not modelled); everything else is exact",
  "at most 2^40 segments"]
TRUSTED=["CBMC 6.11 (IEEE-754 encoding, SAT back end; C front end)", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="contracts on the real trigonometry functions and a state invariant on the real circle iterator; bit-precise obligations (CBMC) for the integer test, z3/cvc5 for the rest"
LEVEL_NOTE="All doubles; all integer angles below 2^53 in magnitude; all segment counts up to 2^40, by induction over the steps (no loop bound)."
