from hv.vcg import Vcg
M=("ID","in","red","V","frame","near","end_of","next_to","side","chain","place","VD","nearD","EI"); SPEC=M+("inv_bi","inv_start","inv_step","inv_find","inv_root","inv_br")
M+=("inv_bi","inv_start","inv_step","inv_find","inv_root","inv_br","cp_dict_red","cp_dict_idx","idx","rb_rotate","augment","event","cp_dict_height2","cp_dict_ensure_BLACK","cp_dict_collapse_edge","cp_dict_INC_set_BLACK_if_needed","cp_dict_set_child_and_parent","good_tree","good_children","cmp")
def G(n, fn, loops={}, contracts={}, **k): return Vcg(n,"dict.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",400),merge=M,native=False,engine=dict(spec=SPEC,merge_dyn=True,split_goal=True,par=8,feas_ms=50,valid_ms=200,loops=loops,contracts=contracts,**k))
START=dict(cp_dict_start="k_start"); STEP=dict(cp_dict_step="k_step"); HEIGHT=dict(get_black_height="k_height")
GROUPS=[G("balance_insert",["_balance_insert","rb_rotate"],{("_balance_insert",0):dict(inv="inv_bi")}),
        G("height",["get_black_height","good_tree"],{},dict(get_black_height="k_height_rec"),rec=("get_black_height",)),
        G("start",["cp_dict_start"],{("cp_dict_start",0):dict(inv="inv_start")}),
        G("step",["cp_dict_step"],{("cp_dict_step",0):dict(inv="inv_step")},START),
        G("chain",["(lemma over the tree contracts)"]),
        G("find",["cp_dict_find_ref_"],{("cp_dict_find_ref_",0):dict(inv="inv_find")}),
        G("root",["cp_dict_root"],{("cp_dict_root",0):dict(inv="inv_root")}),
        G("insert",["cp_dict_insert_ref_aug"],{},dict(START,**STEP,**HEIGHT,_balance_insert="k_balance_insert"))]
ASSUMPTIONS=["members have distinct places in the order (ghost number per node); the comparison function is consistent with them, equal keys being told apart by the direction of the search",
 "the bounds kept per node (ghost) are those of its subtree, so between a node and the bound of its free side there is no member; the chain of parents of a member is finite (the step of that induction is the group chain)",
 "the validity of every node is assumed at the instances used and proved for an arbitrary node (universal contract); recursion of the height function by its own contract; termination is not proved"]
TRUSTED=["tools/hv/vcg.py verification condition generator (C front end: CBMC 6.11)", "z3, cvc5"]
TECHNIQUE="function contracts and loop invariants with ghost order, bounds and membership per node on the real red-black tree functions, obligations discharged by z3/cvc5"
LEVEL_NOTE="All trees, nodes, reference places and keys (no bound).  Removal, node exchange, join and split are not covered (P35)."
