from hv.cbmc import Cbmc
F=["cq_import_dim","cq_export_dim"]
GROUPS=[Cbmc("import","gon.c","h_import",[],unwind=3,functions=F[:1]), Cbmc("export_back","gon.c","h_export_back",[],unwind=3,functions=F),
  Cbmc("roundtrip","gon.c","h_roundtrip",[],unwind=3,functions=F), Cbmc("vec","gon.c","h_vec",[],unwind=3,functions=["cq_import_vec2","cq_export_vec2"])]
ASSUMPTIONS=["the grid scale is a power of two (the documented recommendation) between 2^-20 and 2^40", "floor() by CBMC's library model"]
TRUSTED=["CBMC 6.11 (C front end, IEEE-754 encoding, SAT back end)"]
TECHNIQUE="pre/postconditions on the real conversion functions, bit-precise IEEE-754 obligations over all double bit patterns (CBMC)"
LEVEL_NOTE="All doubles and all coordinates, no loop bound."
