from hv.vcg import Vcg
def G(n, fn, **k): return Vcg(n,"slice.c","h_"+n,[],functions=fn,timeout=k.pop("timeout",200),native=k.pop("native",True),engine=k)
D={"cq_divmodw":"c_divmodw"}
I={"cp_v_insert_arr_":"c_insert","cq_slice_interpol":"c_interpol"}
GROUPS=[G("interpol",["cq_slice_interpol"],contracts=D),G("interpol_ends",["cq_slice_interpol"],contracts=D),G("edge",["cq_slice_polyline_int","cq_slice_cut_z"],contracts=I),
  G("edge_reversed",["cq_slice_polyline_int","cq_slice_cut_z","cq_slice_interpol"],contracts=dict(D,cp_v_insert_arr_="c_insert")),
  G("convert",["cq_slice_polyline_float"],native=False,reals=True,contracts={"cq_import_dim":"c_import","cq_slice_polyline_int":"c_poly_int"}),
  G("face",["cq_slice_add_face"],native=False,reals=True,contracts={"cq_slice_polyline_float":"c_edge","cq_vec2_minmax":"c_minmax","cp_v_qsort_":"c_qsort"},loops={("cq_slice_add_face",0):dict(inv="inv_face"),("cq_slice_add_face",1):dict(inv="inv_bb")}),
  G("fini",["cq_slice_fini"],native=False,contracts={"cp_v_extract_":"c_extract"},loops={("cq_slice_fini",0):dict(inv="inv_fini")})]
ASSUMPTIONS=["coordinates on the grid of at most 30 bits and sign","vectors grow and shrink by their contracts (P10); qsort permutes the points it is given",
  "conversion of coordinates to the grid by its contract (P07); faces of at most 2^40 points"]
TRUSTED=["goto-cc (CBMC 6.11) as C front end", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="contracts and loop invariants on the real slicing functions with ghost state (which points are below the plane, where a witness line is), obligations discharged by z3/cvc5"
LEVEL_NOTE="All coordinates, plane heights, face sizes; loops by invariant (no bound)."
