from hv.cbmc import Cbmc
GROUPS = [
 Cbmc("chain", "list.c", "h_chain", enforce=["w_chain"], unwind=9, functions=["cp_list_chain"]),
 Cbmc("insert", "list.c", "h_insert", enforce=["w_chain"], unwind=9, functions=["cp_list_init", "cp_list_chain"]),
 Cbmc("init", "list.c", "h_insert", enforce=["w_init"], unwind=9, functions=["cp_list_init"]),
 Cbmc("remove", "list.c", "h_remove", enforce=["w_remove"], unwind=9, functions=["cp_list_remove"]),
 Cbmc("member", "list.c", "h_member", enforce=["w_member"], unwind=9, functions=["cp_list_is_member"]),
 Cbmc("iterate", "list.c", "h_iterate", unwind=9, kind="bounded", bound_note="rings of at most 7 nodes", functions=["cp_list_each", "cp_list_each_rev"]),
]
ASSUMPTIONS = [
 "locality lemma (paper): the operations touch only the fields named in the enforced frame, so the 7-node universe (named nodes, their neighbours, one arbitrary witness node and its neighbours, all possibly aliased) decides the statement for rings of every length",
 "the operations are macros: the verified text is the macro expansion from /repo's header inside one-line caller functions",
]
TRUSTED = ["CBMC 6.11 (C front end, dfcc contract instrumentation, SAT back end)", "locality lemma"]
TECHNIQUE="CBMC code contracts (dfcc) on the list operations over an arbitrarily aliased node universe"
LEVEL_NOTE="chain/init/remove/member proved with frame; iteration macros bounded to rings of 7 nodes"
