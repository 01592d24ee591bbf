from hv.vcg import Vcg
M=("nx","pv","same","lem","mono","done","b01","listed","lid","roof","cnt","hit","decode","nk","common","st","elem")
def G(n, fn, loops={}, contracts={}, **k):
    d=k.pop("defines",[])
    return Vcg(n,"tower.c","h_"+k.pop("h",n),[],functions=fn,timeout=k.pop("timeout",250),merge=M,native=False,defines=d,engine=dict(reals=True,contracts=contracts,loops=loops,**k))
F="faces_n_edges_from_tower"
GROUPS=[G("lemma_index",["(lemma)"]),G("lemma_mono",["(lemma)"])]
for t in (0,1,2):
    for top in (1,0):
        GROUPS.append(G("tower_%d_%d"%(t,top),[F],{(F,0):dict(inv="inv_xf"),(F,1):dict(inv="inv_ring"),(F,2):dict(inv="inv_side"),(F,3):dict(inv="inv_roof")},
          {"cp_calloc_":"c_calloc","cp_vec3w_xform":"c_xform","face_from_poly_lid":"c_lid","face_init_from_point_ref":"c_face"},linmul=True,h="tower",defines=["TRI=%d"%t,"TOP=%d"%top]))
FC={"cp_calloc_":"c_fcalloc","cp_v_reverse_":"c_rev"}
GROUPS+=[G("ref",["face_init_from_point_ref","face_basics","face_rev_perhaps"],{("face_init_from_point_ref",0):dict(inv="inv_ref")},FC),
  G("lid",["face_from_poly_lid"],{("face_from_poly_lid",0):dict(inv="inv_lid")},FC)]
ASSUMPTIONS=['cp_v_reverse_ reverses a vector (its contract is proved as part of P10)', 'cp_vec3w_xform changes coordinates only (P18/P17); the points of the input rings are pairwise different indices: faces refer to points by index, coordinates are not compared', 'the two lids are given as whole rings; possibly concave rings are emitted as one face (the slicer accepts concave faces)', 'no allocation failure (the library stops)', 'fewer than 2^29 points per ring and rings']
TRUSTED=['tools/hv/vcg.py verification condition generator (goto-cc C front end of CBMC 6.11)', 'z3, cvc5']
TECHNIQUE='loop invariants with a ghost directed edge counter on the real faces_n_edges_from_tower; face helpers by contract, each proved against its body; obligations discharged by z3/cvc5'
LEVEL_NOTE='All ring sizes, ring counts, triangulation modes, tips and transformations (no bound).'
