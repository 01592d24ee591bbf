from hv.vcg import Vcg
M=("posok","has","ord","grand","le","frame","valid","all_up","all_down","same","inv_up","inv_down","inv_min","inv_make","inv_index")
def S(p): return {p+"up_":"c_up",p+"down_":"c_down"}
def G(n, fn, loops={}, contracts={}, **k): return Vcg(n,"heap.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",250),merge=M,native=False,engine=dict(loops=loops,contracts=contracts,**k))
def V(n, fn, loops={}, contracts={}, **k): return Vcg("vec/"+n,"heap.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",250),merge=M,native=False,defines=["HEAP_VEC"],engine=dict(contracts={"cp_memswap":"c_swap",**contracts},loops=loops,**k))
U={"cp_heap_update":"c_update",**S("cp_heap_")}
GROUPS=[G("up",["cp_heap_up_"],{("cp_heap_up_",0):dict(inv="inv_up")}), G("down",["cp_heap_down_"],{("cp_heap_down_",0):dict(inv="inv_down")}),
  G("update",["cp_heap_update"],contracts=S("cp_heap_")), G("min",["cp_heap_min"],{("h_min",0):dict(inv="inv_min")}),
  G("make",["cp_heap_make_"],{("cp_heap_make_",0):dict(inv="inv_index"),("cp_heap_make_",1):dict(inv="inv_make")},S("cp_heap_")),
  G("insert",["cp_heap_insert"],contracts={"cp_v_insert_arr_":"c_ins",**U}), G("remove",["cp_heap_remove","cp_heap_extract"],contracts=U), G("extract_empty",["cp_heap_extract"]),
  G("replace",["cp_heap_replace"],contracts=U), G("replace_special",["cp_heap_replace"],contracts={"cp_heap_insert":"d_insert","cp_heap_remove":"d_remove","cp_heap_update":"d_update"}),
  V("up",["cp_v_heap_up_"],{("cp_v_heap_up_",0):dict(inv="inv_up")}), V("down",["cp_v_heap_down_"],{("cp_v_heap_down_",0):dict(inv="inv_down")}),
  V("update",["cp_v_heap_update_"],contracts=S("cp_v_heap_")), V("make",["cp_v_heap_make_"],{("cp_v_heap_make_",0):dict(inv="inv_make")},S("cp_v_heap_")), V("remove",["cp_v_heap_extract_"],contracts={"cp_v_heap_update_":"c_update",**S("cp_v_heap_")})]
ASSUMPTIONS=["the comparison function is a total preorder (represented by integer keys)", "elements outside the heap carry an index outside the heap (as set by the library) and an element is inserted at most once", "cp_v_insert_arr_ and cp_memswap by contract (P10)"]
TRUSTED=["tools/hv/vcg.py verification condition generator (C front end: CBMC 6.11)", "z3, cvc5"]
TECHNIQUE="function contracts and loop invariants at an arbitrary position and an arbitrary element on the real sift functions and their callers, obligations discharged by z3/cvc5"
LEVEL_NOTE="All heap sizes, contents, comparison outcomes and positions (no bound)."
