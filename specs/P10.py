from hv.vcg import Vcg
S=["src/hob3lbase/vec.c","src/hob3lbase/arith.c"]
GROUPS=[]
for esz in (1,8,12):
  for h in ("inflate","inflate_huge","resize","resize_huge","copy_arr","copy","insert_arr","remove","extract"):
    if h.endswith("huge") and esz == 1: continue
    GROUPS += [Vcg("%s/esz%d"%(h,esz),"vec.c","h_"+h,S,unwind=67,engine=dict(loops={("v_grow",0):dict(inv="inv_v_grow")}),merge=("hvm_holds","hvm_inside","inv"),defines=["ESZ=%d"%esz], functions=["cp_v_"+h.replace("_huge","")+"_"], timeout=100)]
def R(n, fn, h, loops, contracts={}, defines=[]):
    return Vcg(n,"rev.c",h,[],functions=fn,timeout=100,native=False,merge=("mirror","inv_rev","inv_swap"),defines=defines,engine=dict(loops=loops,contracts=contracts))
for h in ("swap","swap_self"):
    GROUPS += [R(h+"/words",["cp_memswap"],"h_"+h,{("cp_memswap",0):dict(inv="inv_swap"),("cp_memswap",1):dict(inv="inv_off")}),
               R(h+"/bytes",["cp_memswap"],"h_"+h,{("cp_memswap",0):dict(inv="inv_off"),("cp_memswap",1):dict(inv="inv_swap")},defines=["BYTES"])]
for e in (1,8,12,16): GROUPS.append(R("reverse/esz%d"%e,["cp_v_reverse_"],"h_reverse",{("cp_v_reverse_",0):dict(inv="inv_rev")},{"cp_memswap":"c_swap"},["ESZ=%d"%e]))
ASSUMPTIONS=["allocator contract: cp_alloc_t.x_remalloc returns a fresh disjoint block that keeps the old contents (block contents are tracked at an arbitrary witness byte)",
 "memmove/memcpy/memset have their C standard contracts", "vectors of at most 2^40 elements, except in the *_huge groups (all representable requests)",
 "element sizes 1, 8, 12 (sizes are compile-time constants of each instantiation)", "integers are mathematical with explicit wrap-around wherever it cannot be excluded; partial correctness (termination of the doubling loop not proved)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="contracts on the real functions, VCs over goto-cc's program discharged by z3/cvc5; loop invariant for the growth loop"
LEVEL_NOTE="All obligations for all sizes, positions and aliasing at element sizes 1/8/12; allocator and mem* by contract."
