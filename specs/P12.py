from hv.vcg import Vcg
from hv.cbmc import Cbmc
M=("off","wf","addr","some_block","blk0","inv_grow")
def G(n, fn, loops={}, contracts={}, **k):
    kk={q:k.pop(q) for q in ("kind","bound_note","defines","native_defines","unwind") if q in k}
    return Vcg(n,"pool.c","h_"+k.pop("h",n),[],functions=fn,timeout=k.pop("timeout",250),merge=M,native=k.pop("native",False),engine=dict(contracts=contracts,loops=loops,**k),**kk)
B=dict(kind="bounded",bound_note="pools of at most 4 blocks",unwind=8)
PC={"try_block_calloc":"c_try","block_next":"c_next","cp_panic":"c_panic"}
GR={("cp_pool_calloc",1):dict(inv="inv_grow")}
GROUPS=[G("try",["try_block_calloc"],contracts={"cp_mem_is0":"c_is0"},unwind=70,native=True),G("try_none",["try_block_calloc"],native=True),
 G("clear_block",["block_clear"],native=True,contracts={"memset":"c_memset"}),G("push_pop",["block_push","block_pop"],native=True),
 G("next",["block_next"],native=True,contracts={"cp_calloc_":"c_xcalloc","block_list_fini":"c_fini"}),
 G("calloc",["cp_pool_calloc"],GR,PC,native=True),G("calloc_easy",["cp_pool_calloc"],GR,PC,h="calloc",defines=["EASY"]),
 G("clear",["cp_pool_clear"],native=True,contracts={"block_clear":"c_clear"},**B),G("fini",["cp_pool_fini","block_list_fini"],native=True,contracts={"cp_free_":"c_free"},**B)]
GROUPS+=[Vcg("is0","pool.c","h_is0",["src/hob3lbase/arith.c"],functions=["cp_mem_is0"],merge=M,native=False,engine=dict(loops={("cp_mem_is0",0):dict(inv="inv_is0")})),
 G("remalloc",["pool_remalloc"],contracts={"pool_calloc":"c_pcalloc","memcpy":"c_memcpy"}),G("recalloc",["pool_recalloc"],contracts={"pool_calloc":"c_pcalloc","memcpy":"c_memcpy","memset":"c_wipe"})]
GROUPS+=[Cbmc("size_align","pool.c","h_size_align",functions=["cp_size_align"],native=False),Cbmc("align","pool.c","h_align",functions=["cp_align_down","cp_align_down_diff","cp_align_up","cp_align_up_diff"],native=False),
 G("generic",["pool_calloc","pool_malloc"],contracts={"cp_pool_calloc":"c_pool","cp_size_align":"c_size_align"},unwind=70)]
TRUSTED=["tools/hv/vcg.py verification condition generator (C front end: CBMC 6.11)", "z3, cvc5"]
ASSUMPTIONS=["heaps of blocks are at most 2^47 bytes (address space); the system's calloc returns zeroed memory that overlaps nothing else",
 "disjointness over a history is the invariant that a block's free zone ends at brk and every allocation lies inside the free zone it ends: proved per call"]
TECHNIQUE="block invariant (zeroed free zone below brk) as pre/postconditions on the real pool functions; cp_pool_calloc against the contracts of its callees; obligations discharged by z3/cvc5 (bit tricks: CBMC)"
LEVEL_NOTE="All request sizes, counts, alignments and block states (no bound); emptying/ending a pool is bounded to 4 blocks in the lists."
