from hv.cbmc import Cbmc
from hv.vcg import Vcg
from hv.core import TIER
M=10
F="cp_bool_bitmap_"
U=1030
GROUPS=[Cbmc("spread_%d_%d"%(h,a),"bitmap.c","h_spread",[],unwind=U,functions=[F+"spread"],defines=["HAVE=%d"%h,"ADD=%d"%a],native_defines=["HAVE=%d"%h,"ADD=%d"%a]) for h in range(M+1) for a in range(M+1-h)]
GROUPS+=[Cbmc("repeat_%d_%d"%(h,a),"bitmap.c","h_repeat",[],unwind=U,functions=[F+"repeat"],defines=["HAVE=%d"%h,"ADD=%d"%a],native_defines=["HAVE=%d"%h,"ADD=%d"%a]) for h in range(M+1) for a in range(M+1-h)]
GROUPS+=[Cbmc("combine_%d"%h,"bitmap.c","h_combine",[],unwind=U,functions=[F+"combine"],defines=["HAVE=%d"%h,"ADD=0"],native_defines=["HAVE=%d"%h,"ADD=0"]) for h in range(M+1)]
GROUPS+=[Cbmc("getset","bitmap.c","h_getset",[],unwind=U,functions=[F+"get",F+"set"])]
GROUPS+=[Cbmc("eager_%d"%h,"bitmap.c","h_eager",[],unwind=21,functions=["flatten_eager"],defines=["LAZY","RS=%d"%h,"BS=0"],native_defines=["LAZY","RS=%d"%h,"BS=0"]) for h in range(M+1)]
LZ=[(r,b,10) for r in range(M+1) for b in range(M+1) if r+b<=10]
for ms in ([2,3,5] if TIER=="quick" else range(2,M+1)): LZ+=[(r,b,ms) for r in range(ms+1) for b in range(ms+1) if r+b>ms]
LZ+=[(r,b,ms) for ms in (M,1000) for r in range(M+1) for b in range(M+1) if r+b>M and (TIER!="quick" or (r,b) in ((1,10),(10,1),(10,10),(6,6),(9,2),(2,10),(5,6)))]
GROUPS+=[Cbmc("lazy_%d_%d_%d"%t,"bitmap.c","h_lazy",[],unwind=21,functions=["flatten_lazy","flatten_eager"],defines=["LAZY","RS=%d"%t[0],"BS=%d"%t[1],"MS=%d"%t[2]],native_defines=["LAZY","RS=%d"%t[0],"BS=%d"%t[1],"MS=%d"%t[2]]) for t in LZ]
from hv.evalgroups import EVAL
GROUPS+=EVAL
ASSUMPTIONS=["the plane sweep evaluates the function table at the mask of the polygons that contain a point (P29, not claimed)"]
TRUSTED=["CBMC 6.11 (C front end, SAT back end)","tools/hv/vcg.py verification condition generator","z3, cvc5"]
TECHNIQUE="pre/postconditions on the real table functions and on the lazy combination, obligations over all table contents for each of the finitely many sizes (CBMC, loops completely unwound with unwinding assertions)"
LEVEL_NOTE="Tables: all sizes up to the supported maximum of 10 inputs, all table contents; loops are bounded by the table size and unwound completely. Lazy combination: all operand sizes for limits 2, 3 and 5 (and selected ones for 10) on the number of polygons in the quick tier, all for every limit in the thorough tier. Recursion over the expression tree: contracts for arbitrary children, no bound."
