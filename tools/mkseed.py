"""mkseed: build seeded/<id>/patch.diff from (file, old, new) edits; helper for seed definition scripts"""
import difflib, json, os
def seed(id, prop, edits, needs, breaks, demo_sh=None, demo_c=None, others=None):
    d = os.path.join("/verif/seeded", id); os.makedirs(d, exist_ok=True); out = ""
    byf = {}
    for f, old, new in edits: byf.setdefault(f, []).append((old, new))
    for f, l in byf.items():
        a = open("/repo/" + f).read(); b = a
        for old, new in l:
            assert b.count(old) == 1, (id, f, old, b.count(old))
            b = b.replace(old, new)
        dl = list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
        out += "".join(dl)
    open(d + "/patch.diff", "w").write(out)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo_sh: open(d + "/demo.sh", "w").write(demo_sh)
    if demo_c: open(d + "/demo.c", "w").write(demo_c)
    for k, v in (others or {}).items(): open(os.path.join(d, k), "w").write(v)
SH = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -w -fwrapv -fsanitize=address -D_FILE_OFFSET_BITS=64 -Iinclude -Isrc/hob3l -Isrc/hob3lop "$H/demo.c" %s -o "$T/d" -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/d" > "$T/o" 2>&1; r=$?; tail -5 "$T/o"; [ $r -eq 0 ] || exit 1
'''
