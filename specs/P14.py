from hv.vcg import Vcg
def G(n, fn, d=[], src=[], **k): return Vcg(n,"loc.c","h_"+n,src,functions=fn,timeout=k.pop("timeout",100),native=False,defines=d,engine=dict(reals=True,**k))
GROUPS=[G("search",["cp_bsearch","cmp_line"],src=["src/hob3lbase/vec.c"],loops={("cp_bsearch",0):dict(inv="inv_bs")}),
  G("lookup",["cp_syn_get_loc"],contracts={"cp_bsearch":"c_bs"},loops={("cp_syn_get_loc",0):dict(inv="inv_files")}),
  G("column",["format_source_line","is_printable"],contracts={"cp_vchar_append_arr":"c_put","cp_vchar_printf":"c_msg"},loops={("format_source_line",0):dict(inv="inv_chars"),("format_source_line",1):dict(inv="inv_tab")}),
  G("cut",["read_file"],d=["LOC_READ"],contracts={"fread":"c_fread","feof":"c_feof","ferror":"c_ferror","strerror":"c_strerror","cp_vchar_printf":"c_err","cp_vchar_append_arr":"c_append","cp_v_insert_arr_":"c_ins","cp_vchar_fini":"c_nofini"},loops={("read_file",1):dict(inv="inv_read"),("read_file",2):dict(inv="inv_cut")})]
ASSUMPTIONS=["fread/feof behave as specified by C (any chunking, any content)", "cp_v_insert_arr_, cp_vchar_append_arr by contract (verified under P10)", "the loaded texts are disjoint in memory", "lines shorter than 2^28 bytes for the column", "opening the file and building its name is not part of the check"]
TRUSTED=["tools/hv/vcg.py verification condition generator (C front end: CBMC 6.11)", "z3, cvc5"]
TECHNIQUE="contracts and loop invariants on the real line search, location lookup, line cutting and column computation, obligations discharged by z3/cvc5"
LEVEL_NOTE="All texts, line tables, file lists and positions (no bound)."
