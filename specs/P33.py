from hv.vcg import Vcg
M=("near","absd","is","of","when","at","iter_ok","lat","ball","mono","pt","word","same3","cosof","sinof","known","sc","inv_ring","inv_circ")
def G(n, fn, loops={}, contracts={}, **k):
    c={"cp_csg3_mat_new":"c_matnew","cp_mat3wi_scale":"c_scale","cp_mat3wi_xlat":"c_xlat","cp_mat3wi_mul":"c_mul","cp_syn_msg":"c_msg","cp_calloc_":"c_calloc","cp_v_insert_arr_":"c_ins"}; c.update(contracts)
    return Vcg(n,"solid.c","h_"+k.pop("h",n),["src/hob3lmat/algo.c"],functions=fn,timeout=k.pop("timeout",250),merge=M,native=False,engine=dict(reals=True,contracts=c,loops=loops,**k))
GROUPS=[G("cube",["csg3_from_cube"],{},{"faces_n_edges_from_tower":"c_tower_cube"},unwind=20),
  G("sphere",["csg3_from_sphere"],{},{"cp_csg3_get_fn":"c_getfn","csg3_poly_make_sphere":"c_make_sphere"}),
  G("cylinder",["csg3_from_cylinder"],{},{"cp_csg3_get_fn":"c_getfn","csg3_poly_cylinder":"c_poly_cyl"},poly=True),
  G("poly_cyl",["csg3_poly_cylinder"],{("csg3_poly_cylinder",0):dict(inv="inv_cone"),("csg3_poly_cylinder",1):dict(inv="inv_cyl")},{"cp_circle_iter_step":"c_step","faces_n_edges_from_tower":"c_tower_cyl"}),
  G("make_sphere",["csg3_poly_make_sphere"],{("csg3_poly_make_sphere",0):dict(inv="inv_ring"),("csg3_poly_make_sphere",1):dict(inv="inv_circ")},{"cp_circle_iter_step":"c_step","faces_n_edges_from_tower":"c_tower_sph","cp_cos_deg":"c_cosd","cp_sin_deg":"c_sind"},linmul=True)]
GROUPS.append(Vcg("lemma_mono","solid.c","h_lemma_mono",["src/hob3lmat/algo.c"],functions=["(lemma)"],timeout=100,merge=M,native=False,engine=dict(reals=True)))
T={"cp_mat3wi_mul":"t_mul","cp_mat3wi_xlat_v":"t_xlat","cp_mat3wi_scale_v":"t_scale","cp_mat3wi_mirror_v":"t_mirror","cp_mat3wi_rot_v":"t_rotv","cp_mat3wi_rot_x":"t_rotx","cp_mat3wi_rot_y":"t_roty","cp_mat3wi_rot_z":"t_rotz",
   "cp_mat3wi_from_mat3w":"t_from","cp_vec3_has_len0":"t_len0","cp_cos_deg":"t_cos","cp_sin_deg":"t_sin","csg3_from_v_scad":"t_children"}
for t in ("translate","mirror","scale","multmatrix","rotate","color"): GROUPS.append(G(t,["csg3_from_"+t],{},T,unwind=12))
ASSUMPTIONS=['double arithmetic treated as exact real arithmetic; sizes up to 1e30', 'sine and cosine by contract (P22); the circle iterator by its contract (P22)', 'the elementary matrices (scale, translate, rotate, mirror) and their product are those of P17/P18', 'a transformation is reported by the elementary matrices whose product it is, not by their entries', 'no allocation failure (the library stops)']
TRUSTED=['tools/hv/vcg.py verification condition generator (goto-cc C front end of CBMC 6.11)', 'z3, cvc5']
TECHNIQUE='contracts with ghost transformation state on the real constructors of csg3.c; loop invariants over the circle iterator; obligations discharged by z3/cvc5'
LEVEL_NOTE='All sizes, segment counts and options (no bound).'
