from hv.vcg import Vcg
from hv.cbmc import Cbmc
def G(n, fn, **k): return Vcg(n,"stl.c","h_"+n,k.pop("src",[]),functions=fn,timeout=k.pop("timeout",200),native=False,engine=dict(reals=True,**k))
GROUPS=[Cbmc("record","stl.c","h_record",[],unwind=82,functions=["triangle_put_stl","write_u32","write_u32p","write_f32","write_f64_32","write_3f64_32"]),
  Cbmc("count_only","stl.c","h_count_only",[],unwind=82,functions=["triangle_put_stl"]),
  G("text",["triangle_put_stl"],contracts={"cp_printf":"c_printf"}),
  G("edge",["poly_put_stl_outline_edge"],contracts={"triangle_put_stl":"c_tri","cp_vec3_left_normal3_x":"c_normal"}),
  Vcg("normal","stl.c","h_normal",["src/hob3lmat/algo.c","src/hob3lmat/mat_gen_ext.c"],functions=["cp_vec3_left_normal3_x","cp_vec3_right_normal3_x","cp_vec3_normal_x","cp_vec3_cross"],timeout=100,native=False,engine=dict(reals=True,poly=True)),
  G("layer",["poly_put_stl","layer_gap"],src=["src/hob3lmat/algo.c"],contracts={"triangle_put_stl":"c_tri2","poly_put_stl_outline_edge":"c_edge2","cp_csg2_layer_thickness":"c_thick"},loops={("poly_put_stl",0):dict(inv="inv_top"),("poly_put_stl",1):dict(inv="inv_bot"),("poly_put_stl",2):dict(inv="inv_side")}),
  G("chain",["(lemma)"]),
  G("file",["cp_csg2_tree_put_stl"],contracts={"csg2_put_stl":"c_put","cp_printf":"c_puts"}),
  G("list",["v_csg2_put_stl"],contracts={"csg2_put_stl":"c_put1"},loops={("v_csg2_put_stl",0):dict(inv="inv_v")}),
  G("stack",["stack_put_stl","layer_put_stl"],contracts={"v_csg2_put_stl":"c_vput"},loops={("stack_put_stl",0):dict(inv="inv_st")}),
  G("dispatch",["csg2_put_stl","add_put_stl"],contracts={"v_csg2_put_stl":"d_v","poly_put_stl":"d_poly","stack_put_stl":"d_stack"})]
ASSUMPTIONS=["triangles of a polygon refer to points of the polygon; unflagged edges are shared by two triangles in opposite direction and flagged edges run around the outline (the triangulation's contract, P30 not claimed)",
  "layers thinner than the comparison epsilon are flat and excluded", "double arithmetic treated as exact real arithmetic except in the binary record, which is bit-precise; text formatting by printf",
  "a layer's stored index is its position (set by csg2_add_layer_stack)", "summing the per-triangle chain over all triangles is a paper argument (linear)"]
TRUSTED=["CBMC 6.11 (IEEE-754 encoding, SAT back end; C front end)", "tools/hv/vcg.py verification condition generator", "z3, cvc5"]
TECHNIQUE="contracts and loop invariants with ghost emission state on the real STL writer, obligations discharged by z3/cvc5; binary record bit-precise by CBMC"
LEVEL_NOTE="All polygons, triangulations, layer counts and heights (no bound)."
