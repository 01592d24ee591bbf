"""Failing-input search on the real program, used only when an obligation of a property could not be discharged: the program is
built from /repo's current sources and run on generated models, each compared with an independent oracle.  It confirms (or, when
the verifier gives no answer, stands in as a labelled bounded check); it never counts as proof and is not run when all is proved
(except in the thorough tier, as a cross-check)."""
import math, os, random, re, struct, subprocess, time
from .core import REPO, sh
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ)

def build(d):
    """the program as its own makefile builds it, from a copy of the current sources"""
    exe = os.path.join(d, "repo", "out", "bin", "hob3l.x")
    if os.path.exists(exe): return exe
    w = os.path.join(d, "repo"); os.makedirs(w)
    for n in sorted(os.listdir(REPO)):
        if n in ("out", ".git", "img", "doc"): continue
        sh(["cp", "-a", os.path.join(REPO, n), w])
    rc, o, e, _ = sh(["make", "-j8", "MODE=", "TARGET=gcc", "-o", "script/mkmat", "-o", "script/mkrotmat", "out/bin/hob3l.x"], cwd=w, timeout=300, env={k: v for k, v in ENV.items() if k not in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL", "MODE", "CFLAGS", "CPPFLAGS", "CC")})
    if rc or not os.path.exists(exe): raise RuntimeError("build of the program failed: " + (o + e)[-1500:])
    return exe

def hob3l(exe, d, text, args, timeout=60):
    f = os.path.join(d, "x.scad"); open(f, "w").write(text)
    try: p = subprocess.run([exe] + args + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, cwd=d)
    except subprocess.TimeoutExpired: return -999, b"", "timeout"
    return p.returncode, p.stdout, p.stderr.decode("latin-1")

# ------------------------------------------------------------------ small linear algebra
def ident(): return [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
def mul(a, b): return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
def app(m, p): return [m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] for i in range(3)]
def rot(k, a):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a)); m = ident(); i, j = [(1, 2), (2, 0), (0, 1)][k]
    m[i][i] = c; m[j][j] = c; m[i][j] = -s; m[j][i] = s; return m
def rodrigues(v, a):
    n = math.sqrt(sum(x * x for x in v)); x, y, z = [q / n for q in v]; c, s = math.cos(math.radians(a)), math.sin(math.radians(a)); t = 1 - c
    m = ident()
    r = [[t*x*x+c, t*x*y-s*z, t*x*z+s*y], [t*x*y+s*z, t*y*y+c, t*y*z-s*x], [t*x*z-s*y, t*y*z+s*x, t*z*z+c]]
    for i in range(3): m[i][:3] = r[i]
    return m
def det3(m):
    return (m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]))
def num(R, lo=-4, hi=4): return R.choice([round(R.uniform(lo, hi), 2), float(R.randint(int(lo), int(hi)))])
def pos(R): return R.choice([1.0, 1.0, round(R.uniform(.3, 5), 2), float(R.randint(1, 5))])
def g(x): return repr(x)

def xforms(R):
    """random chain of transformations: (text, matrix)"""
    t, m = "", ident()
    for _ in range(R.randint(0, 3)):
        k = R.randint(0, 6)
        if k == 0:
            v = [num(R) for _ in range(3)]; x = ident()
            for i in range(3): x[i][3] = v[i]
            t += "translate([%g,%g,%g]) " % tuple(v)
        elif k == 1:
            v = [R.choice([1.0, num(R, 1, 4), -num(R, 1, 4)]) or 2.0 for _ in range(3)]; x = ident()
            for i in range(3): x[i][i] = v[i]
            t += "scale([%g,%g,%g]) " % tuple(v)
        elif k == 2:
            v = [R.choice([0.0, 0.0, 90.0, -90.0, 180.0, num(R, -200, 400)]) for _ in range(3)]; x = mul(rot(2, v[2]), mul(rot(1, v[1]), rot(0, v[0])))
            t += "rotate([%s,%s,%s]) " % tuple(map(g, v))
        elif k == 3:
            v = [num(R) for _ in range(3)]; a = num(R, -200, 200)
            if max(map(abs, v)) < .5: v[0] = 1.0
            x = rodrigues(v, a); t += "rotate(a=%s,v=[%s,%s,%s]) " % tuple(map(g, [a] + v))
        elif k == 4:
            v = [num(R) for _ in range(3)]
            if max(map(abs, v)) < .5: v[0] = 1.0
            n = sum(q * q for q in v); x = ident()
            for i in range(3):
                for j in range(3): x[i][j] -= 2 * v[i] * v[j] / n
            t += "mirror([%s,%s,%s]) " % tuple(map(g, v))
        elif k == 5:
            while 1:
                x = ident()
                for i in range(3):
                    for j in range(4): x[i][j] = num(R, -3, 3)
                if abs(det3(x)) > .5: break
            t += "multmatrix([%s,[0,0,0,1]]) " % ",".join("[%s]" % ",".join(map(g, r)) for r in x[:3])
        else: x = ident(); t += "color(\"red\") "
        m = mul(m, x)
    return t, m

def ring(fn, r, z): return [[r * math.cos(2 * math.pi * i / fn), r * math.sin(2 * math.pi * i / fn), z] for i in range(fn)]
def solid(R, simple=False):
    k = R.randint(0, 3)
    if k == 0:
        s = [pos(R) for _ in range(3)]; c = R.random() < .5
        if R.random() < .3: s[2] = s[1]
        if R.random() < .3: s[1] = s[0]
        o = [-q / 2 if c else 0 for q in s]
        return "cube([%s,%s,%s],center=%s);" % (*map(g, s), "true" if c else "false"), [[o[0] + s[0] * a, o[1] + s[1] * b, o[2] + s[2] * e] for a in (0, 1) for b in (0, 1) for e in (0, 1)]
    if k in (1, 2):
        r1, r2, h, fn, c = pos(R), pos(R), pos(R), R.randint(3, 9), R.random() < .5
        q = R.randint(0, 3)
        if q == 0: r2 = 0.0
        if q == 1: r1 = 0.0
        z0 = -h / 2 if c else 0.0
        P = (ring(fn, r1, z0) if r1 else [[0, 0, z0]]) + (ring(fn, r2, z0 + h) if r2 else [[0, 0, z0 + h]])
        return "cylinder(h=%s,r1=%s,r2=%s,center=%s,$fn=%d);" % (g(h), g(r1), g(r2), "true" if c else "false", fn), P
    r, fn = pos(R), R.randint(3, 12); nz = (fn + 1) // 2; P = []
    for i in range(nz):
        w = math.radians(180.0 * (2 * i + 1) / (2 * nz)); P += ring(fn, r * math.sin(w), r * math.cos(w))
    return "sphere(r=%s,$fn=%d);" % (g(r), fn), P

POLY = re.compile(r"polyhedron\(points=(\[\[.*?\]\]),faces=(\[\[.*?\]\])\)")
def polys(out): return [(eval(a), eval(b)) for a, b in POLY.findall(out.decode("latin-1"))]

def bat_P33(exe, d, R):
    n = R.randint(1, 5); t, want = "", []
    for _ in range(n):
        x, m = xforms(R); s, P = solid(R); t += x + s + "\n"; want.append([app(m, p) for p in P])
    rc, o, e = hob3l(exe, d, t, ["--dump-csg3"])
    if rc: return t, "exit code %d: %s" % (rc, e[-500:])
    got = [p for p, f in polys(o)]
    if len(got) != n: return t, "%d solids instead of %d" % (len(got), n)
    for i, (a, b) in enumerate(zip(got, want)):
        tol = 1e-6 * (1 + max(max(map(abs, p)) for p in b)); rest = list(a)
        if len(a) != len(b): return t, "solid %d: %d points instead of %d" % (i, len(a), len(b))
        for p in b:
            h = [q for q in rest if all(abs(p[k] - q[k]) <= tol for k in range(3))]
            if not h: return t, "solid %d has no point %r: %r" % (i, p, a)
            rest.remove(h[0])

def rnd2d(R):
    k = R.randint(0, 3)
    if k == 0: return "square([%g,%g]);" % (pos(R), pos(R))
    if k == 1: return "circle(r=%g,$fn=%d);" % (pos(R), R.randint(3, 9))
    if k == 2: return "polygon([[0,0],[4,0],[4,4],[2,1]]);"
    return "polygon([[0,0],[0,3],[1,3],[1,1],[3,1],[3,0]]);"
def bat_P27(exe, d, R):
    t = "cube(1);\n"
    for _ in range(R.randint(1, 4)):
        x, m = xforms(R)
        if R.random() < .6: s, _p = solid(R)
        else:
            tw = R.choice([0, 0, num(R, -90, 90)]); sc = R.choice([1, 1, 0, round(R.uniform(.3, 2), 2)]); sl = R.randint(1, 12)
            s = "linear_extrude(height=%g,twist=%g,slices=%d,scale=%g) %s" % (pos(R), tw, sl, sc, rnd2d(R))
            # twisting a ring far within one slice folds the body: only the combinatorial part applies
            if tw: s = "/*fold*/" + s
        t += x + s + "\n"
    rc, o, e = hob3l(exe, d, t, ["--dump-csg3"])
    if rc: return t, "exit code %d: %s" % (rc, e[-500:])
    L = polys(o)
    fold = ["/*fold*/" in l for l in t.strip().split("\n")]
    if len(L) != len(fold): return t, "%d bodies instead of %d" % (len(L), len(fold))
    sgn = 0
    for n, (P, F) in enumerate(L):
        c = {}
        for f in F:
            if len(f) < 3: return t, "body %d: face with %d points" % (n, len(f))
            for i in range(len(f)): c[(f[i - 1], f[i])] = c.get((f[i - 1], f[i]), 0) + 1
        for k in c:
            if c[k] != 1 or c.get((k[1], k[0])) != 1: return t, "body %d: edge %r occurs %d times, its reverse %d times" % (n, k, c[k], c.get((k[1], k[0]), 0))
        if set(i for f in F for i in f) != set(range(len(P))): return t, "body %d: unused points" % n
        q = [sum(p[k] for p in P) / len(P) for k in range(3)]; v = 0
        for f in F:
            a, b, e = [[P[i][k] - q[k] for k in range(3)] for i in f[:3]]
            for i in range(1, len(f) - 1):
                b = [P[f[i]][k] - q[k] for k in range(3)]; e = [P[f[i + 1]][k] - q[k] for k in range(3)]
                v += det3([a, b, e])
        if sgn == 0: sgn = v
        if not fold[n] and v * sgn < 0: return t, "body %d is turned inside out" % n

# ------------------------------------------------------------------ trees of boxes
N = 8
def vbox(R):
    a = [R.randint(0, N - 1) for _ in range(3)]; b = [R.randint(x + 1, N) for x in a]
    vs = frozenset((x, y, z) for x in range(a[0], b[0]) for y in range(a[1], b[1]) for z in range(a[2], b[2]))
    return "translate([%d,%d,%d]) cube([%d,%d,%d]);" % (*a, *[q - p for p, q in zip(a, b)]), True, vs, vs
def vtree(R, depth):
    """(text, yields objects, set of voxels, voxels that count for the bounding box)"""
    if depth == 0 or R.random() < .25: return vbox(R)
    k = R.choice(["union", "difference", "intersection", "difference", "intersection", "group"])
    ch = [vtree(R, depth - 1) for _ in range(R.choice([0, 1, 2, 2, 3, 4]) if k == "group" else R.choice([1, 2, 2, 3, 4]))]
    t = "%s(){%s}" % (k, " ".join(c[0] for c in ch)); ch = [c for c in ch if c[1]]
    if not ch: return t, False, frozenset(), frozenset()
    s = ch[0][2]
    for c in ch[1:]:
        s = s - c[2] if k == "difference" else s & c[2] if k == "intersection" else s | c[2]
    return t, True, s, s
def facets(text): 
    v = [float(x) for y in re.findall(r"vertex\s+(\S+)\s+(\S+)\s+(\S+)", text) for x in y]
    return [(v[i:i + 3], v[i + 3:i + 6], v[i + 6:i + 9]) for i in range(0, len(v) - 8, 9)]
def bat_P34(exe, d, R):
    tr = [vtree(R, R.randint(1, 4)) for _ in range(R.randint(1, 2))]
    t = "".join(x[0] + "\n" for x in tr); s = frozenset().union(*[x[2] for x in tr])
    a = ["--step=1", "--layer-gap=0", "--min=0.5", "--max=%d" % N, "--dump-stl"]
    if R.random() < .5: a.append("--max-simultaneous=%d" % R.randint(2, 10))
    if R.random() < .2: a.append("--opt-no-skip-empty")
    if R.random() < .2: a.append("--opt-no-drop-collinear")
    rc, o, e = hob3l(exe, d, t, a)
    if rc: return t + "\n// " + " ".join(a), "exit code %d: %s" % (rc, e[-800:])
    top = {}
    for p, q, r in facets(o.decode("latin-1")):
        w = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        if p[2] == q[2] == r[2] and w > 0:
            z = math.floor(p[2] - .75); mx = sum(x[0] for x in (p, q, r)) / 3; top[z] = top.get(z, 0) + w / 2
            if (math.floor(mx), math.floor(sum(x[1] for x in (p, q, r)) / 3), z) not in s: return t + "\n// " + " ".join(a), "a triangle in layer %d covers %r, which is not part of the model" % (z, (p, q, r))
    for z in range(N):
        w = sum(1 for v in s if v[2] == z)
        if abs(top.get(z, 0) - w) > 1e-3: return t + "\n// " + " ".join(a), "layer %d has area %g instead of %g" % (z, top.get(z, 0), w)

def bat_P21(exe, d, R):
    """extent in z of trees of transformed solids and ellipsoids (for intersections the common box)"""
    def prim():
        x, m = xforms(R)
        if R.random() < .4:
            r = pos(R); h = [r * math.sqrt(sum(m[i][k] ** 2 for k in range(3))) for i in range(3)]
            return x + "sphere(r=%s);" % g(r), [(m[i][3] - h[i], m[i][3] + h[i]) for i in range(3)]
        s, P = solid(R); P = [app(m, p) for p in P]; return x + s, [(min(p[i] for p in P), max(p[i] for p in P)) for i in range(3)]
    def tree(dep):
        k = R.randint(0, 4)
        if dep == 0 or k < 2: return prim()
        L = [tree(dep - 1) for _ in range(R.randint(1, 3))]; B = [x[1] for x in L if x[1]]; t = " ".join(x[0] for x in L)
        if k == 2: return "group(){%s}" % t, [(min(b[i][0] for b in B), max(b[i][1] for b in B)) for i in range(3)] if B else None
        if k == 3: return "difference(){%s}" % t, L[0][1]
        if len(B) < len(L): return "intersection(){%s}" % t, None
        b = [(max(b[i][0] for b in B), min(b[i][1] for b in B)) for i in range(3)]
        if any(abs(q - p) < 1e-3 for p, q in b): amb.append(1)
        return "intersection(){%s}" % t, b if all(p < q for p, q in b) else None
    amb = []; L = [tree(2) for _ in range(R.randint(1, 3))]; t = "".join(x[0] + "\n" for x in L); B = [x[1] for x in L if x[1]]
    if amb or not B: return
    lo, hi = min(b[2][0] for b in B), max(b[2][1] for b in B)
    if not lo + .5 < hi or hi > lo + 60: return
    rc, o, e = hob3l(exe, d, t, ["-v", "--step=0.25", "--dump-stl"], timeout=120)
    m = re.search(r"Z: min=(\S+), step=\S+, layer_cnt=(\d+)", e)
    if rc or not m: return t, "exit code %d: %s" % (rc, e[-500:])
    n = (hi - lo - .125) / .25
    if abs(float(m.group(1)) - (lo + .125)) > 1e-4 * (1 + abs(lo)) or not n - 1e-2 <= int(m.group(2)) <= n + 1.01: return t, "extent in z is %g..%g, but layers start at %s, count %s" % (lo, hi, m.group(1), m.group(2))

def bat_P25(exe, d, R):
    t = ""
    for _ in range(R.randint(1, 3)):
        x, m = xforms(R); s, P = solid(R); t += x + s + "\n"
    if R.random() < .5: t = "difference(){" + t + "}"
    b = R.random() < .5
    rc, o, e = hob3l(exe, d, t, ["--step=0.5", "--dump-stlb" if b else "--dump-stl"], timeout=120)
    if rc: return t, "exit code %d: %s" % (rc, e[-500:])
    if b:
        if len(o) < 84: return t, "binary file of %d bytes" % len(o)
        n = struct.unpack("<I", o[80:84])[0]
        if len(o) != 84 + 50 * n: return t, "binary file announces %d triangles but has %d bytes" % (n, len(o))
        F = [struct.unpack("<12f", o[84 + 50 * i:132 + 50 * i]) for i in range(n)]
    else:
        s = o.decode("latin-1"); F = []
        for m in re.finditer(r"facet normal (\S+) (\S+) (\S+)\s+outer loop\s+vertex (\S+) (\S+) (\S+)\s+vertex (\S+) (\S+) (\S+)\s+vertex (\S+) (\S+) (\S+)\s+endloop\s+endfacet", s): F.append(tuple(map(float, m.groups())))
        if len(F) != s.count("facet normal"): return t, "malformed facets"
    c = {}
    for f in F:
        nn, p, q, r = f[:3], f[3:6], f[6:9], f[9:12]
        u = [q[k] - p[k] for k in range(3)]; v = [r[k] - p[k] for k in range(3)]
        w = [u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0]]; l = math.sqrt(sum(x * x for x in w))
        # a text facet has rounded coordinates, and long thin triangles an unstable normal: compare the direction only
        if l > 1e-3 and sum(w[k] * nn[k] for k in range(3)) <= 0: return t, "the normal of %r does not point to its outside" % (f,)
        if p[2] == q[2] == r[2] and (nn[0] or nn[1] or abs(nn[2]) != 1): return t, "horizontal facet with normal %r" % (nn,)
        for a, z in ((p, q), (q, r), (r, p)): c[(a, z)] = c.get((a, z), 0) + 1
    for k in c:
        if c[k] != c.get((k[1], k[0]), 0): return t, "edge %r occurs %d times, its reverse %d times" % (k, c[k], c.get((k[1], k[0]), 0))
    lay = {}
    for f in F:
        if f[5] == f[8] == f[11]: lay.setdefault(f[5], set()).add(f[2])
    zs = sorted(lay)
    for i, z in enumerate(zs):
        if lay[z] != {(-1.0, 1.0)[i % 2]}: return t, "level %g has normals %r" % (z, lay[z])

def bat_P24(exe, d, R):
    """slices of a tilted body: its layers have the area of the exact section up to the grid"""
    x, m = xforms(R); s, P = solid(R); t = x + s
    rc, o, e = hob3l(exe, d, t, ["--dump-csg3"])
    if rc: return t, "exit code %d: %s" % (rc, e[-500:])
    L = polys(o)
    if len(L) != 1: return
    P, F = L[0]; lo, hi = min(p[2] for p in P), max(p[2] for p in P)
    if not hi - lo > .2 or max(abs(x) for p in P for x in p) > 60: return
    z = lo + (hi - lo) * R.uniform(.1, .9)
    if R.random() < .3: z = R.choice(P)[2]
    if not lo + 1e-3 < z < hi - 1e-3: return
    a = ["--z=%.17g" % z, "--step=1", "--layer-gap=0", "--dump-stl"]
    rc, o, e = hob3l(exe, d, t, a)
    if rc: return t, "exit code %d: %s" % (rc, e[-500:])
    got = sum(abs((q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0])) / 2 for p, q, r in facets(o.decode("latin-1")) if p[2] == q[2] == r[2] and (q[0]-p[0])*(r[1]-p[1])-(q[1]-p[1])*(r[0]-p[0]) > 0)
    ar = 0
    for f in F:  # section of each face, from the side going up to the side going down
        pts = []
        for i in range(len(f)):
            p, q = P[f[i - 1]], P[f[i]]
            if (p[2] <= z) != (q[2] <= z):
                k = (z - p[2]) / (q[2] - p[2]); pts.append((p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1]), q[2] > p[2]))
        if len(pts) == 2:
            if pts[0][2]: pts.reverse()
            ar += pts[0][0] * pts[1][1] - pts[0][1] * pts[1][0]
        elif pts: return
    per = 8 * sum(math.dist(P[0][:2], p[:2]) for p in P) + 10
    if abs(got - abs(ar) / 2) > per * 4e-4: return t + "\n// " + " ".join(a), "the section at z=%.17g has area %g instead of %g" % (z, got, abs(ar) / 2)

BAT = dict(P33=bat_P33, P27=bat_P27, P34=bat_P34, P15=bat_P34, P21=bat_P21, P25=bat_P25, P24=bat_P24)
CBAT = ("P08", "P09", "P10", "P12", "P14", "P24")       # random calls of the functions themselves: c/bat.c

def run_c(pid, d, secs, seed, stats):
    from .cbmc import native_lib, NATFLAGS, CFLAGS
    from .core import VERIF
    os.makedirs(d, exist_ok=True); exe = os.path.join(d, "bat")
    if not os.path.exists(exe):
        rc, o, e, _ = sh(["gcc"] + NATFLAGS + CFLAGS + [os.path.join(VERIF, "c", "bat.c"), native_lib(d), "-o", exe, "-lm"], timeout=200)
        if rc: raise RuntimeError("build failed: " + (o + e)[-1500:])
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda w: sh([exe, pid, str(secs), str(seed * 1000 + w)], timeout=secs + 60, env=dict(ENV, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=9", UBSAN_OPTIONS="print_stacktrace=0:exitcode=9")), range(8)))
    for rc, o, e, _ in rs:
        m = re.search(r"BAT_OK (\d+)", o)
        if m: stats["runs"] = stats.get("runs", 0) + int(m.group(1))
    for w, (rc, o, e, _) in enumerate(rs):
        if rc == 9: return "bat %s %g %d" % (pid, secs, seed * 1000 + w), (o + e)[-3000:]

def run(pid, d, secs, seed, stats=None):
    """None, or (input text, what is wrong)"""
    stats = {} if stats is None else stats
    if pid in CBAT:
        r = run_c(pid, os.path.join(d, "c"), secs, seed, stats)
        if r or pid not in BAT: return r
    f = BAT[pid]; os.makedirs(d, exist_ok=True)
    exe = build(d); end = time.time() + secs; found = []; cnt = [0]
    def worker(w):
        wd = os.path.join(d, "w%d" % w); os.makedirs(wd, exist_ok=True); R = random.Random(seed * 1000 + w)
        while time.time() < end and not found:
            r = f(exe, wd, R); cnt[0] += 1
            if r: found.append(r)
    with ThreadPoolExecutor(8) as ex: list(ex.map(worker, range(8)))
    stats["runs"] = stats.get("runs", 0) + cnt[0]
    return found[0] if found else None

def has(pid): return pid in BAT or pid in CBAT

if __name__ == "__main__":
    import sys, tempfile, shutil
    d = tempfile.mkdtemp(prefix="hvbat_")
    try:
        for p in sys.argv[2:] or sorted(set(BAT) | set(CBAT)):
            st = {}; print(p, run(p, d, float(sys.argv[1]), int(os.environ.get("VERIF_SEED", "1")), st), st)
    finally: shutil.rmtree(d, ignore_errors=True)
