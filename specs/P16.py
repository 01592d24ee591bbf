from hv.vcg import Vcg
h=[("vertex1",["cq_sweep_agenda_vertex_phase1_cmp","vec2_cmp"]),("vertex2n",["cq_sweep_agenda_vertex_phase2_cmp","phase_south"]),("vertex2s",["cq_sweep_agenda_vertex_phase2_cmp"]),
 ("result",["cq_sweep_result_vertex_cmp"]),("order_lemma",[]),("angle_lemma",[]),("xing1",["cq_sweep_agenda_xing_phase1_cmp"]),
 ("xing2n",["cq_sweep_agenda_xing_phase2_cmp"]),("xing2s",["cq_sweep_agenda_xing_phase2_cmp"]),
 ("tree_cmp",["cq_sweep_tree_vertex_edge_cmp"]),("edge_cmp",["vec2_edge_cmp_exact","vec2_edge_cmp_tolerant","cq_sweep_bundle_vec2_edge_cmp"]),
 ("pixel_bundle",["cq_sweep_state_pixel_bundle_cmp"]),("bundle_bundle",["cq_sweep_state_bundle_bundle_cmp"])]
GROUPS=[Vcg(n,"sweep.c","h_"+n,[],merge=("sg","lex","lexs"),functions=f,timeout=200) for n,f in h]
ASSUMPTIONS=["coordinates of at most CQ_INT_DIG=30 bits (the documented supported range)","end points overlap only if their edges are equal in the result order (asserted there, established by snap rounding)","bundles are disjoint (asserted)"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="postconditions on the real comparison functions plus order lemmas, VCs over goto-cc's program discharged by z3/cvc5"
LEVEL_NOTE="All coordinates of the supported range, no bound."
