from hv.cbmc import Cbmc
S = ["src/hob3lbase/utf8.c"]
GROUPS = [
 Cbmc("decode", "utf8.c", "h_decode", S, enforce=["cp_utf8_decode"], unwind=10),
 Cbmc("escaped_decode", "utf8.c", "h_escaped", S, enforce=["cp_utf8_escaped_decode"], unwind=10),
 Cbmc("encode_roundtrip", "utf8.c", "h_encode", S, enforce=["cp_utf8_encode"], unwind=10),
]
ASSUMPTIONS = [
 "a string passed to the escape decoder never ends in a lone backslash (guaranteed by the SCAD lexer, asserted in the code)",
 "callers never encode a value that is not a Unicode scalar value > 0 (asserted in the code)",
 "the text object has min(size,9) bytes; both decoders look at no more than 8, which the run proves (an access behind fails)",
]
TRUSTED = ["CBMC 6.11 (C front end, dfcc contract instrumentation, SAT back end)", "spec functions in c/utf8.c (Unicode table 3-7)"]
TECHNIQUE="CBMC code contracts (dfcc) on the real codec, all inputs, loops completely unwound"
LEVEL_NOTE="all code points and all byte sequences, no bound"
