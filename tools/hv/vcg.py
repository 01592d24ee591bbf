"""Deductive back end "vcg": verification-condition generator over CBMC's GOTO program of the
real C sources (goto-cc is the front end).  Symbolic execution of every path of a harness and the
functions it calls, over mathematical integers (with C's wrap-around made explicit wherever it
cannot be excluded) and mathematical reals for doubles; every assertion on every path is an
obligation given to z3/cvc5.  Harness text, contracts and native replay are shared with cbmc.py."""
import os, sys, json, re, time, threading, subprocess, tempfile, concurrent.futures as cf
from fractions import Fraction
from .core import *
from . import cbmc as _cb
import z3
sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class PathDead(Exception): pass

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("obj", "c", "t")          # object id (None: absolute address), constant offset, ((coef, term), ...)
    def __init__(s, obj, c=0, t=()): s.obj, s.c, s.t = obj, c, t
    def add(s, c, t=()):
        d = {}
        for k, x in list(s.t) + list(t):
            i = x.get_id()
            d[i] = (d[i][0] + k, x) if i in d else (k, x)
        return Ptr(s.obj, s.c + c, tuple((k, x) for k, x in d.values() if k != 0))
    def off(s):
        if not s.t: return s.c
        r = z3.IntVal(s.c) if s.c else None
        for k, x in s.t:
            y = x if k == 1 else z3.IntVal(k) * x
            r = y if r is None else r + y
        return r
    def key(s): return (s.obj, s.c, tuple((k, x.get_id()) for k, x in s.t))
    def __repr__(s): return "Ptr(%s,%s,%s)" % (s.obj, s.c, s.t)
class Fn:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
class AddrInt:                              # integer made from a pointer
    __slots__ = ("p",)
    def __init__(s, p): s.p = p
class Blob:
    __slots__ = ("cells", "size")
    def __init__(s, cells, size): s.cells, s.size = cells, size
NULL = Ptr(None, 0)

def is_t(v): return isinstance(v, z3.ExprRef)
def I(v): return v if is_t(v) else z3.IntVal(v)
def R(v):
    if is_t(v): return v
    v = Fraction(v); return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
def B(v): return v if is_t(v) else z3.BoolVal(bool(v))
def And(*a):
    a = [x for x in a if not (x is True)]
    if any(x is False for x in a): return False
    return True if not a else (a[0] if len(a) == 1 else z3.And(*[B(x) for x in a]))
def Or(*a):
    a = [x for x in a if not (x is False)]
    if any(x is True for x in a): return True
    return False if not a else (a[0] if len(a) == 1 else z3.Or(*[B(x) for x in a]))
def Not(a): return (not a) if isinstance(a, bool) else (a.arg(0) if z3.is_not(a) else z3.Not(a))
def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, (bool,)) or isinstance(b, bool) or (is_t(a) and z3.is_bool(a)): return z3.If(c, B(a), B(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_t(a) and z3.is_real(a)) or (is_t(b) and z3.is_real(b)): return z3.If(c, R(a), R(b))
    return z3.If(c, I(a), I(b))

class Obj:
    __slots__ = ("cells", "size", "alive", "name", "dyn", "zero")
    def __init__(s, name, size): s.cells, s.size, s.alive, s.name, s.dyn, s.zero = {}, size, True, name, None, False
    def copy(s):
        o = Obj(s.name, s.size); o.cells = dict(s.cells); o.alive = s.alive; o.dyn = s.dyn if s.dyn is None else dict(s.dyn); o.zero = s.zero; return o

class State:
    __slots__ = ("objs", "own", "pc", "inputs", "unwind", "env", "extra", "depth")
    def __init__(s):
        s.objs, s.own, s.pc, s.inputs, s.unwind, s.env, s.extra, s.depth = {}, set(), [], [], {}, {}, {}, 0
    def fork(s):
        n = State(); n.objs = dict(s.objs); n.own = set(); s.own = set(); n.pc = list(s.pc); n.inputs = list(s.inputs)
        n.unwind = dict(s.unwind); n.env = dict(s.env); n.extra = dict(s.extra); n.depth = s.depth; return n
    def w(s, oid):
        if oid not in s.own:
            s.objs[oid] = s.objs[oid].copy(); s.own.add(oid)
        return s.objs[oid]

# ---------------------------------------------------------------- program
def sub(e): return e.get("sub", [])
def ns(e, k): return e["namedSub"][k]
def typ(e): return e["namedSub"]["type"]

class Program:
    def __init__(s, gb, d):
        fj = os.path.join(d, "prog.json"); sj = os.path.join(d, "sym.json")
        subprocess.run("goto-instrument --show-goto-functions --json-ui %s > %s 2>/dev/null" % (gb, fj), shell=True, timeout=200)
        subprocess.run("goto-instrument --show-symbol-table --json-ui %s > %s 2>/dev/null" % (gb, sj), shell=True, timeout=200)
        j = json.load(open(fj)); fs = [x for x in j if "functions" in x][0]["functions"]
        s.f = {f["name"]: f for f in fs if f.get("isBodyAvailable")}
        st = [x for x in json.load(open(sj)) if "symbolTable" in x][0]["symbolTable"]
        s.sym = st; s._lay = {}; s._pd = {}; s._size = {}
        for f in s.f.values():
            ins = f["instructions"]; f["idx"] = {i["locationNumber"]: n for n, i in enumerate(ins)}
            f["loop"] = {}
            for n, i in enumerate(ins):
                if i["instructionId"] == "GOTO":
                    i["_t"] = [f["idx"][t] for t in i["targets"]]
                    g = i.get("guard") or {}
                    if g.get("id") == "notequal" and all(x["id"] == "constant" for x in sub(g)) and ns(sub(g)[0], "value")["id"] == ns(sub(g)[1], "value")["id"]: continue   # do {} while (0)
                    for t in i["_t"]:
                        if t <= n: f["loop"].setdefault(t, 0); f["loop"][t] = max(f["loop"][t], n)
            f["heads"] = sorted(f["loop"])
    def resolve(s, t):
        while t["id"] in ("struct_tag", "union_tag", "c_enum_tag"):
            t = s.sym[t["namedSub"]["identifier"]["id"]]["type"]
        return t
    def layout(s, t):
        """component -> (offset, type); size"""
        tag = t["namedSub"]["identifier"]["id"] if t["id"].endswith("_tag") else id(t)
        if tag in s._lay: return s._lay[tag]
        t = s.resolve(t); bits = 0; L = {}; order = []; mx = 0
        for c in t["namedSub"].get("components", {}).get("sub", []):
            n = ns(c, "name")["id"]; ct = typ(c); w = s.bits(ct)
            o = 0 if t["id"] == "union" else bits
            L[n] = (o // 8 if o % 8 == 0 else o / 8.0, ct); order.append((n, ct, o // 8 if o % 8 == 0 else o / 8.0))
            bits += w; mx = max(mx, w)
        size = (mx if t["id"] == "union" else bits)
        s._lay[tag] = (L, size, order); return s._lay[tag]
    def bits(s, t):
        i = t["id"]
        if i in ("signedbv", "unsignedbv", "floatbv", "c_bool", "c_bit_field", "bv"): return int(t["namedSub"]["width"]["id"])
        if i == "pointer": return 64
        if i == "bool": return 8
        if i in ("struct_tag", "union_tag", "struct", "union"): return s.layout(t)[1]
        if i == "c_enum_tag": return s.bits(sub(s.resolve(t))[0])
        if i == "c_enum": return s.bits(sub(t)[0])
        if i == "array":
            n = s.arrlen(t); return n * s.bits(sub(t)[0])
        if i in ("empty", "code"): return 8
        raise Unsupported("size of " + i)
    def arrlen(s, t):
        z = t["namedSub"]["size"]
        if z["id"] == "nil": return 0
        while z["id"] == "typecast": z = sub(z)[0]
        if z["id"] == "constant": return int(ns(z, "value")["id"], 16)
        raise Unsupported("array of variable length")
    def size(s, t): return (s.bits(t) + 7) // 8
    def ipdom(s, fn, n):
        if fn not in s._pd:
            ins = s.f[fn]["instructions"]; N = len(ins); succ = []
            for k, i in enumerate(ins):
                if i["instructionId"] == "END_FUNCTION": succ.append([])
                elif i["instructionId"] == "GOTO":
                    g = i.get("guard"); c = (g is None) or (g["id"] == "constant" and ns(g, "value")["id"] == "true")
                    succ.append(list(i["_t"]) + ([] if c else [k + 1]))
                elif i["instructionId"] == "ASSUME" and i["guard"]["id"] == "constant" and ns(i["guard"], "value")["id"] == "false": succ.append([N - 1])
                else: succ.append([k + 1] if k + 1 < N else [])
            full = (1 << N) - 1; pd = [full] * N; pd[N-1] = 1 << (N-1); ch = True
            while ch:
                ch = False
                for k in range(N - 2, -1, -1):
                    x = full
                    for q in succ[k]: x &= pd[q]
                    x |= 1 << k
                    if x != pd[k]: pd[k] = x; ch = True
            r = {}
            for k in range(N):
                m = pd[k] & ~(1 << k); best = None
                # immediate: the strict postdominator with the largest own postdominator set
                bits = []
                mm = m
                while mm:
                    b = mm & -mm; bits.append(b.bit_length() - 1); mm ^= b
                best = max(bits, key=lambda q: bin(pd[q]).count("1")) if bits else N - 1
                r[k] = best
            s._pd[fn] = r
        return s._pd[fn][n]

# ---------------------------------------------------------------- engine
_fresh = [0]
class Engine:
    def __init__(s, prog, opts):
        s.P = prog; s.o = opts
        s.obl = {}                # name -> dict(status, n, model...)
        s.order = []
        s.queue = []              # pending smt obligations
        s.deadline = opts.get("deadline", time.time() + 600)
        s.merge = opts.get("merge", ())
        s.unwind = opts.get("unwind", 70)
        s.ranges = {}
        s._ivc = {}
        s.div_memo = {}
        s.side = []               # global definitional axioms (fresh symbols)
        s.solver_s = 0.0
        s.stats = dict(paths=0, queries=0)
        s.objn = 0
        s.hooks = opts.get("hooks", {})
        s.backend = {}
        s.inv_memo = {}
        s.loops = opts.get("loops", {})
        s.loop_used = set()
        s.bounded = False
        s.objtype = {}; s.ptrstride = {}; s.ptrtargets = {}; s.newtargets = False; s.anyvars = {}
        s.in_init = False
        s.keep = []                # keep terms alive: ids are used as keys
        from .poly import Ring
        s.bases = {}; s.addrv = {}; s.ring = Ring(); s.dyninfo = {}; s.poly_def = {}; s.poly_inv = {}; s.poly_sq = {}; s.atom_no = {}

    def fresh(s, pre, sort="i"):
        _fresh[0] += 1
        n = "%s!%d" % (pre, _fresh[0])
        return z3.Int(n) if sort == "i" else z3.Real(n) if sort == "f" else z3.Bool(n)

    # ---- solver
    def _axioms(s, terms):
        """definitional axioms of the fresh symbols reachable from the terms"""
        if not s.side: return []
        seen, out, stack = set(), [], list(terms)
        vis = set()
        while stack:
            t = stack.pop()
            if not is_t(t): continue
            k = t.get_id()
            if k in vis: continue
            vis.add(k)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for ax in s.side_by.get(k, ()):
                    if ax.get_id() not in seen: seen.add(ax.get_id()); out.append(ax); stack.append(ax)
            else: stack.extend(t.children())
        return out
    side_by = None
    slow = float(os.environ.get('HV_SLOW', '0'))
    def axiom(s, sym, ax):
        if s.side_by is None: s.side_by = {}
        s.side.append(ax); s.side_by.setdefault(sym.get_id(), []).append(ax); s.keep.append(sym)
    def check(s, st, extra, ms):
        c = [B(x) for x in st.pc if x is not True] + [B(x) for x in extra if x is not True]
        if any(z3.is_false(x) for x in c): return "unsat"
        t = time.time()
        if s.o.get("inc", True): s.stats["queries"] += 1; r = s.check_inc(c, ms)
        else:
            sv = z3.Solver(); sv.set("timeout", ms); sv.add(c); sv.add(s._axioms(c)); r = sv.check(); s.solver_s += time.time() - t; s.stats["queries"] += 1
        if s.slow and time.time() - t > s.slow: print("SLOW %.2f %s n=%d q=%d :: %s" % (time.time() - t, r, len(c), s.stats["queries"], str(extra[0]).replace("\n", " ")[:300]), flush=True)
        if time.time() > s.deadline: raise TimeoutError("vc generation")
        return str(r)
    _inc = None; _stk = ()
    def check_inc(s, c, ms):
        """one solver whose assertion stack follows the path condition"""
        if s._inc is None: s._inc = z3.SimpleSolver(); s._stk = []
        sv, stk = s._inc, s._stk
        n = 0
        while n < len(stk) and n < len(c) and stk[n][0].eq(c[n]): n += 1
        if len(stk) > n: sv.pop(len(stk) - n); del stk[n:]
        have = set()
        for x, ax in stk: have |= ax
        for x in c[n:]:
            sv.push(); sv.add(x); ax = set()
            for a in s._axioms([x]):
                if a.get_id() not in have: sv.add(a); ax.add(a.get_id())
            have |= ax; stk.append((x, ax))
        sv.set("timeout", ms)
        return sv.check()
    def feasible(s, st, c):
        if c is True or c is False: return c
        c2 = z3.simplify(c)
        if z3.is_true(c2): return True
        if z3.is_false(c2): return False
        iv = s.ivb(c2)
        if iv is not None: return iv
        return s.check(st, [c], s.o.get("feas_ms", 800)) != "unsat"
    def valid(s, st, c, ms=None):
        if c is True: return True
        if c is False: return False
        return s.check(st, [Not(c)], ms or s.o.get("valid_ms", 800)) == "unsat"

    # ---- intervals (cheap)
    def iv(s, t):
        if isinstance(t, bool): return (int(t), int(t))
        if isinstance(t, int): return (t, t)
        k = t.get_id()
        if k in s._ivc: return s._ivc[k]
        r = s._iv(t); s._ivc[k] = r; s.keep.append(t); return r
    def _iv(s, t):
        N = (None, None)
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        if k_const(t): return s.ranges.get(t.get_id(), N)
        d = t.decl().kind(); a = t.children()
        if d == z3.Z3_OP_ADD:
            lo = hi = 0
            for x in a:
                l, h = s.iv(x) if z3.is_int(x) else N
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h is None else hi + h
            return (lo, hi)
        if d == z3.Z3_OP_SUB:
            lo, hi = s.iv(a[0])
            for x in a[1:]:
                l, h = s.iv(x)
                lo = None if lo is None or h is None else lo - h
                hi = None if hi is None or l is None else hi - l
            return (lo, hi)
        if d == z3.Z3_OP_UMINUS:
            l, h = s.iv(a[0]); return (None if h is None else -h, None if l is None else -l)
        if d == z3.Z3_OP_MUL:
            cur = (1, 1)
            for x in a:
                y = s.iv(x)
                if None in cur or None in y:
                    if cur[0] is not None and cur[0] >= 0 and y[0] is not None and y[0] >= 0: cur = (cur[0]*y[0], None); continue
                    return N
                p = [u*v for u in cur for v in y]; cur = (min(p), max(p))
            if len(a) == 2 and a[0].get_id() == a[1].get_id() and cur[0] is not None and cur[0] < 0: cur = (0, cur[1])
            return cur
        if d == z3.Z3_OP_ITE:
            x, y = s.iv(a[1]), s.iv(a[2])
            return (None if None in (x[0], y[0]) else min(x[0], y[0]), None if None in (x[1], y[1]) else max(x[1], y[1]))
        if d == z3.Z3_OP_MOD and z3.is_int_value(a[1]):
            m = a[1].as_long(); l, h = s.iv(a[0])
            if l is not None and h is not None and l >= 0 and h < m: return (l, h)
            return (0, m - 1)
        if d == z3.Z3_OP_IDIV and z3.is_int_value(a[1]) and a[1].as_long() > 0:
            m = a[1].as_long(); l, h = s.iv(a[0]); return (None if l is None else l // m, None if h is None else h // m)
        return N
    def ivb(s, c):
        """truth value of a comparison by intervals"""
        try:
            k = c.decl().kind()
            if k == z3.Z3_OP_NOT:
                r = s.ivb(c.arg(0)); return None if r is None else (False if r is True else None)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_int(c.arg(0)):
                a, b = s.iv(c.arg(0)), s.iv(c.arg(1))
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): a, b = b, a
                strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
                if a[0] is not None and b[1] is not None and (a[0] >= b[1] if strict else a[0] > b[1]): return False
        except Exception: pass
        return None

    # ---- int typing
    def trange(s, t):
        i = t["id"]
        if i == "c_enum_tag": return s.trange(sub(s.P.resolve(t))[0])
        if i == "c_bit_field": b = sub(t)[0]; w = int(t["namedSub"]["width"]["id"]); return (0, (1 << w) - 1) if b["id"] == "unsignedbv" else (-(1 << (w-1)), (1 << (w-1)) - 1)
        w = int(t["namedSub"]["width"]["id"])
        return (0, (1 << w) - 1) if i == "unsignedbv" else (-(1 << (w-1)), (1 << (w-1)) - 1)
    def kind(s, t):
        i = t["id"]
        if i in ("signedbv", "unsignedbv", "c_enum_tag", "c_enum"): return "i"
        if i == "c_bit_field": return "b" if sub(t)[0]["id"] == "c_bool" else "i"
        if i == "floatbv": return "f"
        if i in ("bool", "c_bool"): return "b"
        if i == "pointer": return "p"
        if i in ("struct_tag", "union_tag", "array", "struct", "union"): return "s"
        raise Unsupported("type " + i)
    def wrap(s, st, v, t):
        lo, hi = s.trange(t)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            return v if lo <= v <= hi else ((v - lo) % (hi - lo + 1)) + lo
        if isinstance(v, AddrInt): return v
        l, h = s.iv(v)
        if l is not None and h is not None and l >= lo and h <= hi or s.total: return v
        if l is not None and h is not None and l >= lo + (hi-lo+1) and h <= hi + (hi-lo+1) : return v - (hi-lo+1)
        if s.o.get("no_wrap_query") is None and s.valid(st, z3.And(v >= lo, v <= hi)):
            # narrow: give it a name with a known range
            return s.named(v, lo, hi)
        m = hi - lo + 1
        if l is not None and h is not None and l >= lo - m and h <= hi + m and s.splitlin(subx(v, lo), m) is None:
            r = v
            if h > hi:
                if s.valid(st, v > hi): return subx(v, m)
                r = z3.If(v > hi, subx(v, m), r)
            if l < lo:
                if s.valid(st, v < lo): return addx(v, m)
                r = z3.If(v < lo, addx(v, m), r)
            return r
        if lo == 0: return s.modc(v, m, st)
        return addx(s.modc(subx(v, lo), m, st), lo)
    def named(s, v, lo, hi):
        # the term is known to be in range on this path only: keep the term (ranges are global, so no naming)
        return v

    # ---- memory
    def new_obj(s, st, name, size):
        s.objn += 1; oid = "%s#%d" % (name, s.objn); st.objs[oid] = Obj(name, size); st.own.add(oid); return oid
    def fresh_of(s, t, nm):
        k = s.kind(t)
        if k == "i":
            v = s.fresh(nm); lo, hi = s.trange(t); s.ranges[v.get_id()] = (lo, hi); s.keep.append(v)
            s.axiom(v, z3.And(v >= lo, v <= hi)); return v
        if k == "f": return s.fresh(nm, "f")
        if k == "b": return s.fresh(nm, "b")
        if k == "p" and s.in_init: return Ptr("$wild")        # external global: any use is refused
        if k == "s" and s.in_init: return Blob({}, s.P.size(t))
        raise Unsupported("uninitialised " + k)
    def obligation_ptr(s, st, p, what):
        if not isinstance(p, Ptr): raise Unsupported("dereference of non pointer")
        if p.obj is None:
            s.assert_(st, False, "memory.no_null_dereference (%s)" % what); raise PathDead()
        if p.obj == "$wild": raise Unsupported("external global pointer")
        if not st.objs[p.obj].alive:
            s.assert_(st, False, "memory.no_use_after_free (%s)" % what); raise PathDead()
    def load(s, st, p, t):
        s.obligation_ptr(st, p, "read"); o = st.objs[p.obj]; k = s.kind(t)
        if k == "s": return s.load_blob(st, p, s.P.size(t), t)
        sz = s.P.bits(t) / 8.0; sz = int(sz) if sz == int(sz) else sz
        if o.dyn is not None: return s.dyn_load(st, o, p, t, k, sz)
        if p.t:
            return s.load_sym(st, o, p, t, k, sz)
        return s.load_at(st, p.obj, p.c, t, k, sz)
    def load_at(s, st, oid, off, t, k, sz):
        o = st.objs[oid]
        if off < 0 or off + sz > o.size:
            s.assert_(st, False, "memory.access_within_object (read %s)" % o.name); raise PathDead()
        c = o.cells.get(off)
        if c is not None and c[0] == sz: return s.conv(c[2], c[1], k, t)
        for b in range(1, 16):
            q = o.cells.get(off - b)
            if q is not None and q[0] > b: return s.extract(q, b, sz, k, t)
        if c is not None or any(off < q < off + sz for q in o.cells):
            return s.compose(o, off, sz, k, t, st)
        if o.zero: v = 0 if k == "i" else Fraction(0) if k == "f" else False if k == "b" else NULL
        else: v = NULL if k == "p" else s.fresh_of(t, "u_" + o.name)
        st.w(oid).cells[off] = (sz, k, v); return v
    def conv(s, v, k0, k, t):
        if k0 == k:
            if k == "i" and not isinstance(v, AddrInt):
                lo, hi = s.trange(t)
                if isinstance(v, int): return v if lo <= v <= hi else ((v - lo) % (hi - lo + 1)) + lo
                l, h = s.iv(v)
                if l is not None and h is not None and lo <= l and h <= hi: return v
                if s.o.get("trust_cell_type", True) is False: return (v - lo) % (hi - lo + 1) + lo
                # signedness pun through a union: decide by the range of the type the cell was written with (unknown here)
                return v
            return v
        if k0 == "b" and k == "i": return Ite(v, 1, 0)
        if k0 == "i" and k == "b": return v != 0 if not is_t(v) else v != 0
        if k0 == "p" and k == "i": return AddrInt(v) if not (isinstance(v, Ptr) and v.obj is None and not v.t) else v.c
        if k0 == "i" and k == "p":
            if isinstance(v, AddrInt): return v.p
            if isinstance(v, int): return Ptr(None, v)
        if k0 == "i" and k == "f" and isinstance(v, int) and v == 0: return Fraction(0)
        if k0 == "f" and k == "i" and v == 0 and not is_t(v): return 0
        raise Unsupported("type punning %s as %s" % (k0, k))
    def extract(s, cell, b, sz, k, t):
        if k != "i" or cell[1] != "i" or not isinstance(sz, int): raise Unsupported("partial read")
        v = cell[2]; m = 1 << (8 * sz)
        if isinstance(v, int): r = (v >> (8*b)) % m
        elif isinstance(v, AddrInt): raise Unsupported("partial pointer read")
        else: r = (v / (1 << (8*b))) % m
        lo, hi = s.trange(t)
        if lo < 0: r = Ite(r > hi, r - m, r) if is_t(r) else (r - m if r > hi else r)
        return r
    def compose(s, o, off, sz, k, t, st):
        if k == "f" and sz in (4, 8):
            v = s.compose(o, off, sz, "i", {"id": "unsignedbv", "namedSub": {"width": {"id": str(8 * sz)}}}, st)
            if not isinstance(v, int): raise Unsupported("composed read of a floating point value")
            import struct
            d = struct.unpack("<d" if sz == 8 else "<f", v.to_bytes(sz, "little"))[0]
            if d != d or d in (float("inf"), float("-inf")): raise Unsupported("composed read of a non-finite value")
            return Fraction(d)
        if k != "i" or not isinstance(sz, int): raise Unsupported("composed read")
        r = 0; p = off
        while p < off + sz:
            c = o.cells.get(p)
            if c is None:
                if not o.zero: raise Unsupported("composed read of uninitialised bytes")
                p += 1; continue
            if c[1] != "i" or not isinstance(c[0], int) or p + c[0] > off + sz: 
                if c[1] == "i" and p == off and c[0] > sz:
                    return s.extract(c, 0, sz, k, t)
                raise Unsupported("composed read")
            v = c[2]; m = 1 << (8*c[0])
            v = v % m
            r = r + v * (1 << (8 * (p - off))); p += c[0]
        lo, hi = s.trange(t); m = hi - lo + 1
        if lo < 0: r = Ite(r > hi, r - m, r) if is_t(r) else (r - m if r > hi else r)
        return r
    def candidates(s, st, o, p, sz):
        """possible concrete offsets of a symbolic offset"""
        lo, hi = 0, int(o.size - sz)
        g = 0
        import math
        for k, x in p.t: g = math.gcd(g, abs(k))
        l = h = p.c
        for k, x in p.t:
            a, b = s.iv(x)
            if k < 0: a, b = b, a
            l = None if l is None or a is None else l + k*a
            h = None if h is None or b is None else h + k*b
        if l is not None: lo = max(lo, l)
        if h is not None: hi = min(hi, h)
        first = lo + ((p.c - lo) % g)
        c = list(range(first, hi + 1, g))
        if len(c) > s.o.get("max_cand", 300): raise Unsupported("symbolic index into %d elements" % len(c))
        return c
    def bounds(s, st, o, p, sz, what):
        off = p.off(); c = And(off >= 0, off <= int(o.size - sz)) if is_t(off) else True
        if c is not True:
            l, h = s.iv(off)
            if not (l is not None and h is not None and l >= 0 and h <= o.size - sz):
                s.assert_(st, c, "memory.access_within_object (%s %s)" % (what, o.name))
                st.pc.append(c)
    def load_sym(s, st, o, p, t, k, sz):
        s.bounds(st, o, p, sz, "read"); off = p.off()
        cand = s.candidates(st, o, p, sz)
        if not cand: raise PathDead()
        vals = [(c, s.load_at(st, p.obj, c, t, k, sz)) for c in cand]
        if k == "p":
            r = s.pick(st, off, [c for c, _ in vals]); return dict(vals)[r]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]): 
            if not (v is r or (is_t(v) and is_t(r) and v.eq(r)) or (not is_t(v) and not is_t(r) and v == r)): r = Ite(off == c, v, r)
        return r
    def pick(s, st, term, cand):
        """case split on a symbolic value: handled by re-execution (raises Split)"""
        if not is_t(term): return term
        for c in cand:
            if s.valid(st, term == c, 300): return c
        raise Split([(term == c) for c in cand if s.feasible(st, term == c)])
    def store(s, st, p, t, v):
        s.obligation_ptr(st, p, "write"); o = st.objs[p.obj]; k = s.kind(t)
        if k == "s": return s.store_blob(st, p, v)
        sz = s.P.bits(t) / 8.0; sz = int(sz) if sz == int(sz) else sz
        if o.dyn is not None: return s.dyn_store(st, p, t, k, sz, v)
        if p.t:
            s.bounds(st, o, p, sz, "write"); off = p.off(); cand = s.candidates(st, o, p, sz)
            if k == "p":
                c = s.pick(st, off, cand); s.put(st, p.obj, c, sz, k, v); return
            for c in cand:
                old = s.load_at(st, p.obj, c, t, k, sz)
                s.put(st, p.obj, c, sz, k, Ite(off == c, v, old))
            return
        if p.c < 0 or p.c + sz > o.size:
            s.assert_(st, False, "memory.access_within_object (write %s)" % o.name); raise PathDead()
        s.put(st, p.obj, p.c, sz, k, v)
    def put(s, st, oid, off, sz, k, v):
        o = st.w(oid)
        c = o.cells.get(off)
        if c is None or c[0] != sz:
            for q in [q for q in o.cells if q < off + sz and q + o.cells[q][0] > off]:
                c0 = o.cells[q]
                if q >= off and q + c0[0] <= off + sz: del o.cells[q]
                else: s.split_cell(o, q, off, sz)
        o.cells[off] = (sz, k, v)
    def split_cell(s, o, q, off, sz):
        c = o.cells.pop(q)
        if c[1] == "p" and isinstance(c[2], Ptr) and c[2].obj is None and not c[2].t: c = (c[0], "i", c[2].c)
        if c[1] != "i" or isinstance(c[2], AddrInt): raise Unsupported("partial overwrite")
        for b in range(int(c[0])):
            if not (off <= q + b < off + sz):
                v = c[2]
                o.cells[q + b] = (1, "i", ((v >> (8*b)) & 255) if isinstance(v, int) else (v / (1 << (8*b))) % 256)
    def concrete_off(s, st, p, sz):
        if not p.t: return p.c
        o = st.objs[p.obj]; s.bounds(st, o, p, sz, "access"); return s.pick(st, p.off(), s.candidates(st, o, p, sz))
    def load_blob(s, st, p, size, t=None):
        o = st.objs[p.obj]
        if o.dyn is not None: return s.dyn_load_blob(st, o, p, size, t)
        c = s.concrete_off(st, p, size)
        if c < 0 or c + size > o.size:
            s.assert_(st, False, "memory.access_within_object (read %s)" % o.name); raise PathDead()
        cells = {q - c: x for q, x in o.cells.items() if c <= q and q + x[0] <= c + size}
        if t is not None and not o.zero: s.fill(st, p.obj, c, t); o = st.objs[p.obj]; cells = {q - c: x for q, x in o.cells.items() if c <= q and q + x[0] <= c + size}
        b = Blob(cells, size)
        if o.zero: b = s.zfill(b, t) if t is not None else b
        return b
    def leaves(s, t, off=0):
        k = s.kind(t)
        if k != "s": yield (off, t, k); return
        t2 = t
        if t["id"] == "array":
            n = s.P.arrlen(t); e = sub(t)[0]; z = s.P.size(e)
            for i in range(n): yield from s.leaves(e, off + i*z)
            return
        L, sz, order = s.P.layout(t)
        if s.P.resolve(t)["id"] == "union":
            best = max(order, key=lambda c: (s.P.bits(c[1]), -order.index(c)))
            yield from s.leaves(best[1], off); return
        for n, ct, o in order:
            if n.startswith("$pad") or n.startswith("$bit_field_pad"): continue
            yield from s.leaves(ct, off + o)
    def fill(s, st, oid, off, t):
        """name the uninitialised scalar cells of an object so that copies agree"""
        for o, ct, k in s.leaves(t, off):
            sz = s.P.bits(ct) / 8.0; sz = int(sz) if sz == int(sz) else sz
            cells = st.objs[oid].cells
            if o in cells or any((o < q < o + sz) for q in cells) or any(q < o < q + cells[q][0] for q in cells): continue
            v = NULL if k == "p" else s.fresh_of(ct, "u_" + st.objs[oid].name)
            st.w(oid).cells[o] = (sz, k, v)
    def zfill(s, b, t):
        cells = dict(b.cells)
        for o, ct, k in s.leaves(t, 0):
            sz = s.P.bits(ct) / 8.0; sz = int(sz) if sz == int(sz) else sz
            if o in cells or any((o < q < o + sz) for q in cells) or any(q < o < q + cells[q][0] for q in cells): continue
            cells[o] = (sz, k, 0 if k == "i" else Fraction(0) if k == "f" else False if k == "b" else NULL)
        return Blob(cells, b.size)
    def store_blob(s, st, p, v):
        if not isinstance(v, Blob): raise Unsupported("aggregate store of " + type(v).__name__)
        o = st.objs[p.obj]
        if o.dyn is not None: return s.dyn_store_blob(st, p, v)
        c = s.concrete_off(st, p, v.size)
        if c < 0 or c + v.size > o.size:
            s.assert_(st, False, "memory.access_within_object (write %s)" % o.name); raise PathDead()
        o = st.w(p.obj)
        for q in [q for q in o.cells if c <= q < c + v.size]: del o.cells[q]
        for q, x in v.cells.items(): o.cells[q + c] = x

    # ---- dynamic arrays: contents as SMT arrays per field
    def make_dyn(s, st, oid, stride, n, zero=False):
        st.w(oid).dyn = dict(stride=stride, n=n, f={}, zero=zero)
    def dyn_idx(s, st, o, p, sz, what):
        d = o.dyn; S = d["stride"]; rel = p.c % S; idx = p.c // S
        if any(k % S for k, x in p.t):
            u = [(k, x) for k, x in p.t if k % S]
            lo, hi = s.iv(u[0][1])
            if len(u) == 1 and (lo is None or hi is None or hi - lo > 3) and s.within(st, u[0][1], 0, 1): lo, hi = 0, 1
            if len(u) > 1 or lo is None or hi is None or hi - lo > 3: raise Unsupported("unaligned dynamic index")
            v = s.pick(st, u[0][1], list(range(lo, hi + 1))); rel = (p.c + u[0][0] * v) % S; idx = (p.c + u[0][0] * v) // S
        for k, x in p.t:
            if k % S: continue
            idx = idx + (k // S) * x if k != S else idx + x
        if s.total: return rel, idx
        if p.obj in s.nullobjs:
            c = idx >= 1; s.assert_(st, c, "memory.no_null_dereference (%s)" % what)
            if c is False: raise PathDead()
            if c is not True:
                st.pc.append(c)
        s.assert_(st, And(idx >= 0, idx < d["n"]) if is_t(idx) or is_t(d["n"]) else 0 <= idx < d["n"], "memory.access_within_object (%s %s)" % (what, o.name))
        return rel, idx
    def dyn_field(s, st, oid, rel, k, sz, t):
        o = st.objs[oid]; f = o.dyn["f"].get(rel)
        if f is None:
            _fresh[0] += 1
            if k == "p" and rel not in o.dyn.get("ptr", {}): raise Unsupported("dynamic array of pointers")
            srt = z3.IntSort() if k in "ip" else z3.RealSort() if k == "f" else z3.BoolSort() if k == "b" else None
            if srt is None: raise Unsupported("dynamic array of pointers")
            a = z3.Array("A_%s_%s@%s" % (o.name, rel, oid), z3.IntSort(), srt)
            s.dyninfo[(oid, rel)] = (sz, k, t)
            if o.dyn["zero"]: a = z3.K(z3.IntSort(), z3.IntVal(0) if k == "i" else z3.RealVal(0) if k == "f" else z3.BoolVal(False))
            o2 = st.w(oid); d = dict(o2.dyn); d["f"] = dict(d["f"]); d["f"][rel] = (sz, k, a, t); o2.dyn = d
            f = d["f"][rel]
        if f[0] != sz or f[1] != k: raise Unsupported("dynamic array punning")
        return f
    def dyn_load(s, st, o, p, t, k, sz):
        rel, idx = s.dyn_idx(st, o, p, sz, "read"); f = s.dyn_field(st, p.obj, rel, k, sz, t)
        v = z3.Select(f[2], I(idx))
        if k == "p":
            tgt, ts = o.dyn["ptr"][rel]; n = st.objs[tgt].dyn["n"]; st.pc.append(z3.And(v >= 0, v < I(n)));
            return Ptr(tgt, 0, ((ts, v),))
        if k == "i":
            lo, hi = s.trange(t); st.pc.append(z3.And(v >= lo, v <= hi)); 
            vs = o.dyn.get("among", {}).get(rel)
            if vs:
                a0 = z3.Array("A_%s_%s@%s" % (o.name, rel, p.obj), z3.IntSort(), z3.IntSort()); st.pc.append(z3.Or(*[z3.Select(a0, I(idx)) == x for x in vs]))
        return v
    def dyn_store(s, st, p, t, k, sz, v):
        rel, idx = s.dyn_idx(st, st.objs[p.obj], p, sz, "write"); f = s.dyn_field(st, p.obj, rel, k, sz, t)
        if k == "p":
            tgt, ts = st.objs[p.obj].dyn["ptr"][rel]
            if tgt in s.nullobjs and isinstance(v, Ptr) and v.obj is None and v.c == 0 and not v.t: v = Ptr(tgt)
            if not isinstance(v, Ptr) or v.obj != tgt or v.c % ts or any(q % ts for q, _ in v.t): raise Unsupported("pointer store into dynamic array")
            v = v.c // ts + sum((q // ts) * x for q, x in v.t)
        o = st.w(p.obj); d = dict(o.dyn); d["f"] = dict(d["f"]); d["f"][rel] = (sz, k, z3.Store(f[2], I(idx), I(v) if k in "ip" else R(v) if k == "f" else B(v)), t); o.dyn = d
    def dyn_load_blob(s, st, o, p, size, t=None):
        if t is None: raise Unsupported("untyped copy from a dynamic array")
        cells = {}
        for off, lt, k in s.leaves(t):
            sz = s.P.bits(lt) / 8.0; sz = int(sz) if sz == int(sz) else sz
            cells[off] = (sz, k, s.dyn_load(st, st.objs[p.obj], p.add(off), lt, k, sz))
        return Blob(cells, size)
    def dyn_store_blob(s, st, p, v):
        for q, (sz, k, x) in v.cells.items():
            ct = dict(i=dict(id="signedbv", namedSub=dict(width=dict(id=str(int(sz*8))))), f=dict(id="floatbv", namedSub=dict(width=dict(id="64"))), b=dict(id="bool"), p=dict(id="pointer", sub=[dict(id="empty")]))[k]
            s.dyn_store(st, p.add(q), ct, k, sz, x)

    # ---- expressions
    def lval(s, st, e):
        i = e["id"]
        if i == "symbol":
            n = ns(e, "identifier")["id"]
            return s.symptr(st, n, typ(e))
        if i == "member":
            b = sub(e)[0]; p = s.lval(st, b); L, _, _ = s.P.layout(typ(b))
            return p.add(L[ns(e, "component_name")["id"]][0])
        if i == "index":
            b, ix = sub(e); v = s.ev(st, ix); z = s.P.size(typ(e))
            if typ(b)["id"] == "pointer": p = s.ev(st, b)
            else: p = s.lval(st, b)
            return s.padd(p, v, z)
        if i == "dereference":
            p = s.ev(st, sub(e)[0])
            if isinstance(p, AddrInt): p = p.p
            if isinstance(p, Fn): return p
            return p
        if i == "typecast": return s.lval(st, sub(e)[0])
        if i == "string_constant": return s.strobj(st, e)
        if i in ("struct", "union", "array", "constant", "if", "array_of"):
            v = s.ev(st, e); oid = s.new_obj(st, "tmp", s.P.size(typ(e))); s.store(st, Ptr(oid), typ(e), v); return Ptr(oid)
        raise Unsupported("lvalue " + i)
    def strobj(s, st, e):
        v = ns(e, "value")["id"]; k = "str:" + v
        if k not in st.objs:
            data = v.encode("utf-8", "surrogateescape") + b"\0"
            o = Obj("string", len(data)); o.cells = {n: (1, "i", c if c < 128 else c - 256) for n, c in enumerate(data)}; st.objs[k] = o
        return Ptr(k)
    def symptr(s, st, n, t):
        if t["id"] == "code": return Fn(n)
        fr = st.env.get(n)
        if fr is not None: return Ptr(fr)
        # global / static
        if n not in st.objs:
            o = Obj(n, s.P.size(t)); o.zero = True; st.objs[n] = o; s.objtype[n] = t
        return Ptr(n)
    def addr(s, v):
        """the number an address is: an unknown base per object plus the offset"""
        if not isinstance(v, AddrInt): return v
        p = v.p
        if p.obj is None: return p.off()
        if p.obj not in s.bases:
            b = s.fresh("base"); s.ranges[b.get_id()] = (4096, 2**48); s.keep.append(b); s.axiom(b, z3.And(b >= 4096, b <= 2**48)); s.bases[p.obj] = b
        return addx(p.off(), s.bases[p.obj])
    def padd(s, p, v, z, sign=1):
        if isinstance(p, AddrInt): p = p.p
        if not isinstance(p, Ptr): raise Unsupported("pointer arithmetic on %s" % type(p).__name__)
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return p.add(sign * v * z)
        if isinstance(v, AddrInt): raise Unsupported("address arithmetic")
        # flatten linear terms with constant coefficients
        c, ts = linear(v)
        return p.add(sign * z * c, tuple((sign * z * k, x) for k, x in ts))
    def ev(s, st, e):
        i = e["id"]
        f = getattr(s, "e_" + EXP.get(i, i), None)
        if f is None: raise Unsupported("expression " + i)
        return f(st, e)
    def e_symbol(s, st, e):
        t = typ(e)
        if t["id"] == "code": return Fn(ns(e, "identifier")["id"])
        return s.load(st, s.lval(st, e), t)
    def e_member(s, st, e):
        b = e
        while b["id"] == "member": b = sub(b)[0]
        if b["id"] in ("symbol", "index", "dereference"):
            if b["id"] == "index" or 1:
                return s.load(st, s.lval(st, e), typ(e))
        v = s.ev(st, sub(e)[0]); L, _, _ = s.P.layout(typ(sub(e)[0])); off = L[ns(e, "component_name")["id"]][0]
        oid = s.new_obj(st, "tmp", v.size); s.store_blob(st, Ptr(oid), v); return s.load(st, Ptr(oid, off), typ(e))
    def e_index(s, st, e): return s.load(st, s.lval(st, e), typ(e))
    def e_dereference(s, st, e): 
        p = s.lval(st, e)
        if isinstance(p, Fn): return p
        return s.load(st, p, typ(e))
    def e_address_of(s, st, e): return s.lval(st, sub(e)[0])
    def e_string_constant(s, st, e):
        p = s.strobj(st, e); o = st.objs[p.obj]; return Blob(dict(o.cells), o.size)
    def e_constant(s, st, e):
        t = typ(e); v = ns(e, "value")["id"]; k = s.kind(t)
        if k == "b": return v == "true" or (v not in ("false",) and v not in ("0",))
        if k == "p": return NULL if v == "NULL" else Ptr(None, int(v, 16))
        if k == "i":
            x = int(v, 16); lo, hi = s.trange(t); return ((x - lo) % (hi - lo + 1)) + lo
        if k == "f":
            import struct
            w = int(t["namedSub"]["width"]["id"]); b = int(v, 16)
            d = struct.unpack("<d", struct.pack("<Q", b))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", b))[0]
            if d in (float("inf"), float("-inf")) and s.o.get("infinite"): return Fraction(2**1100) if d > 0 else Fraction(-2**1100)    # larger than every number
            if d != d or d in (float("inf"), float("-inf")): raise Unsupported("non-finite constant")
            return Fraction(d)
        raise Unsupported("constant")
    def e_struct(s, st, e):
        L, bits, order = s.P.layout(typ(e)); cells = {}
        for x, (n, ct, off) in zip(sub(e), order):
            if n.startswith("$pad") or n.startswith("$bit_field_pad"): continue
            s.blobput(st, cells, off, ct, s.ev(st, x))
        return Blob(cells, bits // 8)
    def blobput(s, st, cells, off, ct, v):
        k = s.kind(ct)
        if k == "s":
            for q, x in v.cells.items(): cells[off + q] = x
        else:
            sz = s.P.bits(ct) / 8.0; cells[off] = (int(sz) if sz == int(sz) else sz, k, v)
    def e_union(s, st, e):
        t = typ(e); L, bits, order = s.P.layout(t); n = ns(e, "component_name")["id"]; cells = {}
        s.blobput(st, cells, 0, L[n][1], s.ev(st, sub(e)[0])); return Blob(cells, bits // 8)
    def e_array(s, st, e):
        t = typ(e); et = sub(t)[0]; z = s.P.size(et); cells = {}
        for n, x in enumerate(sub(e)): s.blobput(st, cells, n * z, et, s.ev(st, x))
        return Blob(cells, s.P.size(t))
    def e_array_of(s, st, e):
        t = typ(e); et = sub(t)[0]; z = s.P.size(et); cells = {}; v = s.ev(st, sub(e)[0])
        for n in range(s.P.arrlen(t)): s.blobput(st, cells, n * z, et, v)
        return Blob(cells, s.P.size(t))
    def e_side_effect(s, st, e):
        if ns(e, "statement")["id"] == "nondet": return s.fresh_of(typ(e), "nondet")
        raise Unsupported("side effect " + ns(e, "statement")["id"])
    def e_if(s, st, e):
        c = s.truth(s.ev(st, sub(e)[0]))
        if isinstance(c, bool): return s.ev(st, sub(e)[1 if c else 2])
        if s.total and s.kind(typ(e)) in "ib": return Ite(c, s.ev(st, sub(e)[1]), s.ev(st, sub(e)[2]))
        if not s.feasible(st, c): return s.ev(st, sub(e)[2])
        if not s.feasible(st, Not(c)): return s.ev(st, sub(e)[1])
        k = s.kind(typ(e))
        if k in ("p", "s") or s.o.get("split_if"): raise Split([c, Not(c)])
        n = len(st.pc); st.pc.append(c); a = s.ev(st, sub(e)[1]); x1 = st.pc[n+1:]
        del st.pc[n:]; st.pc.append(Not(c)); b = s.ev(st, sub(e)[2]); x2 = st.pc[n+1:]
        del st.pc[n:]
        for x in x1: st.pc.append(Or(Not(c), x))
        for x in x2: st.pc.append(Or(c, x))
        return Ite(c, a, b)
    nullobjs = (); total = False
    def nullcmp(s, a, b):
        """comparison of a pointer to an array whose element 0 stands for the null pointer with a constant null pointer"""
        for x, y in ((a, b), (b, a)):
            if x.obj in s.nullobjs and y.obj is None and y.c == 0 and not y.t:
                i = x.c // s.nullobjs[x.obj] if not x.c % s.nullobjs[x.obj] else None
                if i is None: return None
                for k, q in x.t:
                    if k % s.nullobjs[x.obj]: return None
                    i = addx(i, mulx(q, k // s.nullobjs[x.obj]))
                return (i == 0) if not is_t(i) else i == 0
        return None
    def truth(s, v):
        if isinstance(v, Ptr) and v.obj in s.nullobjs:
            z = s.nullcmp(v, NULL)
            if z is not None: return Not(z)
        if isinstance(v, bool): return v
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, Ptr): return not (v.obj is None and v.c == 0 and not v.t)
        if isinstance(v, AddrInt): return True
        if z3.is_bool(v): return v
        return v != 0
    def _sc(s, st, e, isand):
        acc = None
        n = len(st.pc)
        for x in sub(e):
            v = s.truth(s.ev(st, x))
            if isinstance(v, bool):
                if v != isand:
                    acc = (not isand) if acc is None else acc if False else (And(acc, False) if isand else Or(acc, True))
                    break
                continue
            acc = v if acc is None else (And(acc, v) if isand else Or(acc, v))
            st.pc.append(v if isand else Not(v))
        # guards for later operands only: what the operands themselves appended stays conditional and is dropped
        del st.pc[n:]
        return isand if acc is None else acc
    def e_and(s, st, e): return s._sc(st, e, True)
    def e_or(s, st, e): return s._sc(st, e, False)
    def e_not(s, st, e): return Not(s.truth(s.ev(st, sub(e)[0])))
    def e_implies(s, st, e):
        a = s.truth(s.ev(st, sub(e)[0]))
        if a is False: return True
        b = s.truth(s.ev(st, sub(e)[1])); return Or(Not(a), b)
    def cmp(s, st, e, op):
        a, b = [s.ev(st, x) for x in sub(e)]
        if isinstance(a, AddrInt) or isinstance(b, AddrInt):
            if isinstance(a, AddrInt) and isinstance(b, AddrInt): a, b = a.p, b.p
            elif isinstance(a, AddrInt) and isinstance(b, int) and 0 <= b < 4096: a, b = a.p, Ptr(None, b)
            elif isinstance(b, AddrInt) and isinstance(a, int) and 0 <= a < 4096: a, b = Ptr(None, a), b.p
            else: raise Unsupported("address comparison")
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return r if op == "==" else not r
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr): raise Unsupported("pointer comparison")
            if a.obj != b.obj:
                nz = s.nullcmp(a, b)
                if nz is not None and op in ("==", "!="): return nz if op == "==" else Not(nz)
                if op in ("==", "!="): return op == "!="
                if a.obj is None or b.obj is None:
                    x, y = (0, 1) if a.obj is None else (1, 0)
                    return dict(zip(("<", "<=", ">", ">="), (x < y, x <= y, x > y, x >= y)))[op]
                raise Unsupported("order of pointers to different objects")
            x = a.add(-b.c, tuple((-k, t) for k, t in b.t)).off(); a, b = x, 0
        if isinstance(a, Blob): raise Unsupported("aggregate comparison")
        if isinstance(a, bool) or isinstance(b, bool) or (is_t(a) and z3.is_bool(a)):
            if not is_t(a) and not is_t(b): r = bool(a) == bool(b)
            else: r = B(a) == B(b)
            return r if op == "==" else Not(r)
        if not is_t(a) and not is_t(b): return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_t(a) and z3.is_real(a)) or (is_t(b) and z3.is_real(b)): a, b = R(a), R(b)
        else: a, b = I(a), I(b)
        if a.eq(b): return op in ("==", "<=", ">=")
        if op == "==": return a == b
        if op == "!=": return z3.Not(a == b)
        if z3.is_int(a):
            x, y = s.iv(a), s.iv(b)
            if op in (">", ">="): x, y = y, x
            st_ = op in ("<", ">")
            if x[1] is not None and y[0] is not None and (x[1] < y[0] if st_ else x[1] <= y[0]): return True
            if x[0] is not None and y[1] is not None and (x[0] >= y[1] if st_ else x[0] > y[1]): return False
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    def e_eq(s, st, e): return s.cmp(st, e, "==")
    def e_ne(s, st, e): return s.cmp(st, e, "!=")
    def e_lt(s, st, e): return s.cmp(st, e, "<")
    def e_le(s, st, e): return s.cmp(st, e, "<=")
    def e_gt(s, st, e): return s.cmp(st, e, ">")
    def e_ge(s, st, e): return s.cmp(st, e, ">=")
    def num(s, v):
        if isinstance(v, bool): return int(v)
        if is_t(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def rounds(s, st, t, *vs):
        """an operation of the code whose floating point result may be rounded: only accepted in contracts over real numbers"""
        if s.o.get("reals") or not any(is_t(v) for v in vs): return
        s.assert_(st, False, "arithmetic.exact (floating point operation on variable operands)")
    def e_add(s, st, e):
        t = typ(e)
        if t["id"] == "pointer":
            a, b = sub(e)
            if typ(a)["id"] != "pointer": a, b = b, a
            return s.padd(s.ev(st, a), s.num(s.ev(st, b)), s.P.size(sub(t)[0]))
        vs = [s.num(s.ev(st, x)) for x in sub(e)]
        if t["id"] == "floatbv": s.rounds(st, t, *vs)
        r = vs[0]
        for v in vs[1:]:
            if isinstance(r, AddrInt) or isinstance(v, AddrInt):
                if isinstance(v, AddrInt): r, v = v, r
                if isinstance(v, AddrInt): raise Unsupported("sum of addresses")
                r = AddrInt(s.padd(r.p, v, 1)); continue
            r = s.wrap(st, addx(r, v), t) if s.kind(t) == "i" else addx(r, v)
        return r
    def e_sub(s, st, e):
        t = typ(e); a, b = sub(e); x, y = s.num(s.ev(st, a)), s.num(s.ev(st, b))
        if t["id"] == "pointer": return s.padd(x, y, s.P.size(sub(t)[0]), -1)
        if isinstance(x, AddrInt): x = x.p
        if isinstance(y, AddrInt): y = y.p
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj != y.obj: raise Unsupported("difference of pointers to different objects")
            z = s.P.size(sub(typ(a))[0]) if typ(a)["id"] == "pointer" else 1
            p = x.add(-y.c, tuple((-k, q) for k, q in y.t))
            if z == 1: r = p.off()
            elif p.c % z == 0 and all(k % z == 0 for k, q in p.t): r = Ptr(None, p.c // z, tuple((k // z, q) for k, q in p.t)).off()
            else:
                o = p.off(); r = Ite(o >= 0, I(o) / z, -((-I(o)) / z)) if is_t(o) else int(o / z)
            return s.wrap(st, r, t)
        if isinstance(x, Ptr):
            if is_t(y) and y.get_id() in s.addrv:
                r = subx(s.addr(AddrInt(x)), y)
                return s.wrap(st, r, t)
            return AddrInt(s.padd(x, y, 1, -1))
        if isinstance(y, Ptr): raise Unsupported("int - address")
        r = subx(x, y)
        if t["id"] == "floatbv": s.rounds(st, t, x, y)
        return s.wrap(st, r, t) if s.kind(t) == "i" else r
    def e_mul(s, st, e):
        t = typ(e); vs = [s.num(s.ev(st, x)) for x in sub(e)]; r = vs[0]
        if t["id"] == "floatbv": s.rounds(st, t, *vs)
        for v in vs[1:]:
            if s.kind(t) == "i" and s.o.get("linmul") and is_t(r) and is_t(v): r = s.linmul(r, v)
            else: r = mulx(r, v)
            r = s.wrap(st, r, t) if s.kind(t) == "i" else r
        return r
    _lm = None
    def linmul(s, a, b):
        """product of two symbolic integers, multiplied out; each product of two atoms becomes one unknown of
        which only the range is known (an over-approximation: all results are valid for the real product)"""
        if s._lm is None: s._lm = {}
        (ca, ta), (cb, tb) = linear(z3.simplify(I(a), som=True)), linear(z3.simplify(I(b), som=True))
        r = ca * cb
        for k, x in ta: r = addx(r, mulx(x, k * cb))
        for k, x in tb: r = addx(r, mulx(x, k * ca))
        for k, x in ta:
            for l, y in tb:
                q = tuple(sorted((x.get_id(), y.get_id())))
                if q not in s._lm:
                    p = s.fresh("mul"); s.keep += [x, y, p]; lo, hi = s.iv(x * y); ax = []
                    s.ranges[p.get_id()] = (lo, hi)
                    if lo is not None: ax.append(p >= lo)
                    if hi is not None: ax.append(p <= hi)
                    if lo is not None and lo >= 0 and s.iv(x)[0] is not None and s.iv(x)[0] >= 0:
                        B31 = 2**31
                        ax += [z3.Implies(z3.And(x <= B31, y <= B31), p <= B31 * B31), z3.Implies(x >= 1, p >= y), z3.Implies(y >= 1, p >= x),
                               z3.Implies(x == 0, p == 0), z3.Implies(y == 0, p == 0)]
                    if ax: s.axiom(p, z3.And(ax))
                    s._lm[q] = p
                r = addx(r, mulx(s._lm[q], k * l))
        return r
    def e_neg(s, st, e):
        t = typ(e); v = s.num(s.ev(st, sub(e)[0])); return s.wrap(st, -v, t) if s.kind(t) == "i" else -v
    def divpair(s, st, x, y):
        """truncating division of mathematical integers"""
        if isinstance(x, int) and isinstance(y, int):
            if y == 0: s.assert_(st, False, "arithmetic.no_division_by_zero"); raise PathDead()
            q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q; return q, x - q*y
        if isinstance(y, int):
            if y == 0: s.assert_(st, False, "arithmetic.no_division_by_zero"); raise PathDead()
        else: s.assert_(st, y != 0, "arithmetic.no_division_by_zero"); st.pc.append(y != 0)
        lx, hx = s.iv(x); ly, hy = s.iv(y)
        if isinstance(y, int) and y > 0 and ((lx is not None and lx >= 0)): return s.divc(x, y, st), s.modc(x, y, st)
        key = (I(x).get_id(), I(y).get_id())
        if key in s.div_memo: return s.div_memo[key][:2]
        q, r = s.fresh("q"), s.fresh("r"); X, Y = I(x), I(y)
        ax = [X == q * Y + r]
        absY = z3.If(Y >= 0, Y, -Y)
        ax += [z3.Implies(Y != 0, z3.And(z3.Implies(X >= 0, z3.And(r >= 0, r < absY)), z3.Implies(X <= 0, z3.And(r <= 0, r > -absY))))]
        # sign and magnitude of the quotient (consequences, spelled out for the solvers)
        ax += [z3.Implies(z3.And(X >= 0, Y > 0), z3.And(q >= 0, q <= X)), z3.Implies(z3.And(X <= 0, Y > 0), z3.And(q <= 0, q >= X)),
               z3.Implies(z3.And(X >= 0, Y < 0), z3.And(q <= 0, q >= -X)), z3.Implies(z3.And(X <= 0, Y < 0), z3.And(q >= 0, q <= -X))]
        if lx is not None and hx is not None:
            m = max(abs(lx), abs(hx)); lo, hi = -m, m
            if lx >= 0 and ly is not None and ly >= 0: lo = 0
            s.ranges[q.get_id()] = (lo, hi)
            s.ranges[r.get_id()] = (0 if lx >= 0 else -m, 0 if hx <= 0 else m)
            if ly is not None and hy is not None:
                my = max(abs(ly), abs(hy)) - 1; a, b = s.ranges[r.get_id()]; s.ranges[r.get_id()] = (max(a, -my), min(b, my))
        s.keep += [q, r, X, Y]
        for a in ax: s.axiom(q, a); s.axiom(r, a)
        s.div_memo[key] = (q, r, X, Y); return q, r
    def e_div(s, st, e):
        t = typ(e); a, b = [s.num(s.ev(st, x)) for x in sub(e)]
        if s.kind(t) == "f":
            s.rounds(st, t, a, b)
            if not is_t(b):
                if b == 0: raise Unsupported("floating division by zero")
                return mulx(a, Fraction(1) / b)
            s.assert_(st, b != 0, "arithmetic.no_floating_division_by_zero"); st.pc.append(b != 0)
            return mulx(a, s.recip(b))
        q, r = s.divpair(st, a, b); return s.wrap(st, q, t)
    def recip(s, b):
        k = b.get_id()
        if k not in s.inv_memo:
            w = s.fresh("inv", "f"); s.inv_memo[k] = (w, b); s.atom_no[w.get_id()] = _fresh[0]; s.keep.append(w)
            try: s.poly_inv[w.get_id()] = s.ring.of(b)
            except Exception: pass
            s.axiom(w, z3.Implies(b != 0, w * b == 1))
        return s.inv_memo[k][0]
    def e_mod(s, st, e):
        t = typ(e); a, b = [s.num(s.ev(st, x)) for x in sub(e)]
        if isinstance(a, AddrInt): a = s.addr(a)
        q, r = s.divpair(st, a, b); return r
    def e_typecast(s, st, e):
        t = typ(e); x = sub(e)[0]
        if t["id"] == "empty": s.ev(st, x); return 0
        if x["id"] in ("array",) or typ(x)["id"] == "array":
            if t["id"] == "pointer": return s.lval(st, x)
        v = s.ev(st, x); k = s.kind(t); 
        k0 = s.kind(typ(x)) if typ(x)["id"] != "code" else "p"
        if k == "b": return s.truth(v)
        if k == "i":
            if isinstance(v, (Ptr, Fn)):
                if isinstance(v, Fn): raise Unsupported("function address as integer")
                if v.obj is None and not v.t: return s.wrap(st, v.c, t)
                if v.obj is None: return s.wrap(st, v.off(), t)
                return AddrInt(v)
            if isinstance(v, AddrInt): return v
            if k0 == "f":
                if not is_t(v): r = int(v)      # truncation
                else:
                    f = z3.ToInt(v); r = z3.If(v >= 0, f, -z3.ToInt(-v))
                    lo, hi = s.trange(t)
                    s.assert_(st, And(r >= lo, r <= hi), "arithmetic.float_to_int_in_range"); st.pc.append(And(r >= lo, r <= hi))
                    return r
                return s.wrap(st, r, t)
            return s.wrap(st, s.num(v), t)
        if k == "f":
            if k0 == "f": return v
            v = s.num(v)
            if is_t(v) and not s.o.get("reals"):
                m = 2 ** {32: 24, 64: 53}.get(int(t["namedSub"]["width"]["id"]), 64); lo, hi = s.trange(typ(x)) if typ(x)["id"] in ("signedbv", "unsignedbv") else (None, None)
                if lo is None or lo < -m or hi > m: s.assert_(st, And(v >= -m, v <= m), "arithmetic.exact (conversion to floating point)")
            return Fraction(v) if not is_t(v) else z3.ToReal(v)
        if k == "p":
            if isinstance(v, (Ptr, Fn)): return v
            if isinstance(v, AddrInt): return v.p
            if isinstance(v, (int, bool)): return Ptr(None, int(v))
            c, ts = linear(v); return Ptr(None, c, tuple(ts))
        if k == "s": return v
        raise Unsupported("cast")
    def pow2mask(s, v):
        return isinstance(v, int) and v >= 0 and (v & (v + 1)) == 0
    def e_bitand(s, st, e):
        t = typ(e); vs = [s.num(s.ev(st, x)) for x in sub(e)]; r = vs[0]
        for v in vs[1:]: r = s.band(st, r, v, t)
        return r
    def within(s, st, v, lo, hi):
        l, h = s.iv(v) if is_t(v) else (v, v)
        if l is not None and h is not None and l >= lo and h <= hi: return True
        return st is not None and s.valid(st, z3.And(I(v) >= lo, I(v) <= hi))
    def splitlin(s, v, m, st=None):
        """v = m*q + r with 0 <= r < m by the linear form, or None"""
        c, ts = linear(v); q = 0; r = 0; lo = hi = 0
        for k, x in ts:
            a, b = divmod(k, m) if k % m == 0 else (0, k)
            if a: q = addx(q, mulx(a, x))
            if b:
                r = addx(r, mulx(b, x)); l, h = s.iv(x)
                if l is None or h is None: lo = None
                if lo is not None: lo += min(b*l, b*h); hi += max(b*l, b*h)
        cq, cr = divmod(c, m)
        if is_t(q) and st is not None and not (lo is not None and (lo + cr) // m == (hi + cr) // m):
            # the path may know more than the intervals
            if s.within(st, addx(r, cr), 0, m - 1): return addx(q, cq), addx(r, cr)
            if cr and s.within(st, addx(r, cr - m), 0, m - 1): return addx(q, cq + 1), addx(r, cr - m)
        if lo is None: return None
        q = addx(q, cq); r = addx(r, cr); lo += cr; hi += cr
        if lo // m != hi // m: return None
        k = lo // m
        return addx(q, k), subx(r, k * m)
    def divc(s, v, m, st=None):
        """floor division by a positive constant"""
        if not is_t(v): return v // m
        l, h = s.iv(v)
        if l is not None and h is not None and l // m == h // m: return l // m
        z = s.splitlin(v, m, st)
        if z is not None: return z[0]
        if v.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(v.arg(1)) and v.arg(1).as_long() > 0: return v.arg(0) / (m * v.arg(1).as_long())
        return v / m
    def modc(s, v, m, st=None):
        if not is_t(v): return v % m
        l, h = s.iv(v)
        if l is not None and h is not None and l // m == h // m: return subx(v, m * (l // m))
        z = s.splitlin(v, m, st)
        if z is not None: return z[1]
        return v % m
    def band(s, st, a, b, t):
        if isinstance(a, int) and isinstance(b, int): return s.wrap(st, a & b, t)
        if isinstance(a, AddrInt) or isinstance(b, AddrInt):
            r = s.band(st, s.addr(a), s.addr(b), t)
            if is_t(r): s.addrv[r.get_id()] = r
            return r
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return 0
            if s.pow2mask(b):
                return s.modc(a, b + 1, st)
            lo, hi = s.trange(t)
            if b < 0 and s.pow2mask(~b): m = ~b + 1; return s.wrap(st, subx(a, s.modc(a, m)), t)
            if lo == 0 and s.pow2mask(hi - b): m = hi - b + 1; return subx(a, s.modc(a, m))
            if b > 0 and (b & (b-1)) == 0: return ((a / b) % 2) * b
            if b > 0:   # contiguous mask
                sh = (b & -b).bit_length() - 1
                if s.pow2mask(b >> sh): return ((a / (1 << sh)) % ((b >> sh) + 1)) * (1 << sh)
        x, y = s.iv(a), s.iv(b)
        if x[0] is not None and y[0] is not None and x[0] >= 0 and y[0] >= 0 and x[1] is not None and y[1] is not None and x[1] <= 1 and y[1] <= 1:
            return z3.If(z3.And(I(a) == 1, I(b) == 1), z3.IntVal(1), z3.IntVal(0))
        return s.bvop(st, a, b, t, lambda p, q: p & q)
    def bvop(s, st, a, b, t, f):
        if s.o.get("no_bv"): raise Unsupported("bit operation")
        lo, hi = s.trange(t); w = (hi - lo + 1).bit_length() - 1
        r = z3.BV2Int(f(z3.Int2BV(I(a), w), z3.Int2BV(I(b), w)), is_signed=False)
        # range
        return r if lo == 0 else z3.If(r > hi, r - (hi - lo + 1), r)
    def e_bitor(s, st, e):
        t = typ(e); vs = [s.num(s.ev(st, x)) for x in sub(e)]; r = vs[0]
        if any(isinstance(v, AddrInt) for v in vs): vs = [s.addr(v) if isinstance(v, AddrInt) else v for v in vs]; r = vs[0]
        for v in vs[1:]: r = s.bor(st, r, v, t)
        return r
    def low0(s, v):
        """number of known zero low bits"""
        if isinstance(v, int): return 200 if v == 0 else (v & -v).bit_length() - 1
        d = v.decl().kind(); a = v.children()
        if d == z3.Z3_OP_MUL: return sum(s.low0(x.as_long() if z3.is_int_value(x) else x) for x in a)
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(s.low0(x.as_long() if z3.is_int_value(x) else x) for x in a)
        if d == z3.Z3_OP_MOD and z3.is_int_value(a[1]): return min(s.low0(a[0]), s.low0(a[1].as_long()))
        if d == z3.Z3_OP_ITE: return min(s.low0(x.as_long() if z3.is_int_value(x) else x) for x in a[1:])
        if z3.is_int_value(v): return s.low0(v.as_long())
        return 0
    def bor(s, st, a, b, t):
        if isinstance(a, int) and isinstance(b, int): return s.wrap(st, a | b, t)
        if isinstance(a, int) and a == 0: return b
        if isinstance(b, int) and b == 0: return a
        for x, y in ((a, b), (b, a)):
            l, h = s.iv(y); z = s.low0(x)
            if l is not None and h is not None and l >= 0 and z > 0 and h < (1 << z): return addx(x, y)
        for x, y in ((a, b), (b, a)):
            z = s.low0(x)
            if z > 0 and s.within(st, y, 0, (1 << z) - 1): return addx(x, y)
        for x, y in ((a, b), (b, a)):      # one constant bit
            if isinstance(y, int) and y > 0 and (y & (y - 1)) == 0 and is_t(x):      # floor division: right for negative x too
                return addx(x, z3.If((x / y) % 2 == 0, z3.IntVal(y), z3.IntVal(0)))
        x, y = s.iv(a), s.iv(b)
        if None not in x and None not in y and x[0] >= 0 and y[0] >= 0 and x[1] <= 1 and y[1] <= 1:
            return z3.If(z3.Or(I(a) == 1, I(b) == 1), z3.IntVal(1), z3.IntVal(0))
        if s.P.bits(t) >= 32 and None not in x and None not in y and x[0] >= 0 and y[0] >= 0:
            k = ("or", I(a).get_id(), I(b).get_id())
            if k not in s.div_memo:
                a, b = I(a), I(b); r = s.fresh("or"); lo, hi = max(x[0], y[0]), min(x[1] + y[1], s.trange(t)[1]); s.ranges[r.get_id()] = (lo, hi); s.keep.append(r)
                s.axiom(r, z3.And(r >= a, r >= b, r <= a + b, (r == 0) == z3.And(a == 0, b == 0), r >= lo, r <= hi, *[(r % m == 0) == z3.And(a % m == 0, b % m == 0) for m in (2, 4, 8, 16)])); s.div_memo[k] = (r, a, b)
            return s.div_memo[k][0]
        return s.bvop(st, a, b, t, lambda p, q: p | q)
    def e_bitxor(s, st, e):
        t = typ(e); a, b = [s.num(s.ev(st, x)) for x in sub(e)]
        if isinstance(a, int) and isinstance(b, int): return s.wrap(st, a ^ b, t)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return a
            lo, hi = s.trange(t)
            if b == -1: return -1 - a
            if lo == 0 and b == hi: return hi - a
            l, h = s.iv(a)
            if b == 1 and l is not None and h is not None and l >= 0 and h <= 1: return 1 - a
            if b == 1: return a + 1 - 2 * (a % 2)
        x, y = s.iv(a), s.iv(b)
        if None not in x and None not in y and x[0] >= 0 and y[0] >= 0 and x[1] <= 1 and y[1] <= 1:
            return z3.If(I(a) == I(b), z3.IntVal(0), z3.IntVal(1))
        return s.bvop(st, a, b, t, lambda p, q: p ^ q)
    def e_bitnot(s, st, e):
        t = typ(e); v = s.num(s.ev(st, sub(e)[0])); return s.wrap(st, -1 - v, t)
    def shamt(s, st, v):
        if isinstance(v, int): return v
        l, h = s.iv(v)
        if l is None or h is None or h - l > 127: l, h = 0, 127
        c = [k for k in range(max(l, 0), h + 1) if s.feasible(st, v == k)]
        if len(c) == 1: return c[0]
        raise Split([v == k for k in c])
    def e_shl(s, st, e):
        t = typ(e); a, b = [s.num(s.ev(st, x)) for x in sub(e)]
        if isinstance(a, int) and a == 0: return 0
        b = s.shamt(st, b); w = s.P.bits(t)
        if b >= w or b < 0: s.assert_(st, False, "arithmetic.shift_in_range"); raise PathDead()
        return s.wrap(st, mulx(a, 1 << b), t)
    def shr(s, st, e):
        a, b = [s.num(s.ev(st, x)) for x in sub(e)]; b = s.shamt(st, b)
        if isinstance(a, int): return a >> b
        return s.divc(a, 1 << b, st)
    def e_ashr(s, st, e): return s.shr(st, e)
    def e_lshr(s, st, e): return s.shr(st, e)
    def e_pointer_offset(s, st, e):
        p = s.ev(st, sub(e)[0]); return p.off()
    def e_pointer_object(s, st, e):
        p = s.ev(st, sub(e)[0]); return hash(p.obj) % (1 << 30)
    def e_nil(s, st, e): return 0
    def e_abs(s, st, e):
        v = s.ev(st, sub(e)[0]); return abs(v) if not is_t(v) else z3.If(v >= 0, v, -v)
    def e_uplus(s, st, e): return s.num(s.ev(st, sub(e)[0]))
    def ovf(s, st, v, t):
        """in-range condition of an exact value"""
        lo, hi = s.trange(t)
        if isinstance(v, int): return lo <= v <= hi
        l, h = s.iv(v)
        if l is not None and h is not None and l >= lo and h <= hi: return True
        c = And(I(v) >= lo, I(v) <= hi)
        a, b = s.feasible(st, c), s.feasible(st, Not(c))
        if a and b: raise Split([c, Not(c)])
        return bool(a)
    def ovres(s, st, e, f):
        L, bits, order = s.P.layout(typ(e)); a, b = [s.num(s.ev(st, x)) for x in sub(e)]
        vt = L["value"][1]; v = f(a, b); ok = s.ovf(st, v, vt); cells = {}
        s.blobput(st, cells, 0, vt, v if ok else s.wrap(st, v, vt))
        n, ct, off = [x for x in order if x[0].startswith("overflow")][0]
        s.blobput(st, cells, off, ct, not ok)
        return Blob(cells, bits // 8)
    def e_ovadd(s, st, e): return s.ovres(st, e, addx)
    def e_ovsub(s, st, e): return s.ovres(st, e, subx)
    def e_ovmul(s, st, e): return s.ovres(st, e, mulx)
    def e_count_leading_zeros(s, st, e):
        v = s.num(s.ev(st, sub(e)[0])); w = s.P.bits(typ(sub(e)[0]))
        if isinstance(v, int): return w - v.bit_length()
        l, h = s.iv(v); c = []
        s.assert_(st, v != 0, "arithmetic.clz_of_nonzero"); st.pc.append(v != 0)
        for k in range(w):
            q = z3.And(v >= 1 << (w - 1 - k), v < 1 << (w - k))
            if s.feasible(st, q): c.append((k, q))
        if len(c) == 1: return c[0][0]
        raise Split([q for k, q in c])
    def e_popcount(s, st, e): raise Unsupported("popcount")
    def e_isnan(s, st, e): s.ev(st, sub(e)[0]); return False
    def e_isinf(s, st, e): s.ev(st, sub(e)[0]); return False
    def e_isfinite(s, st, e): s.ev(st, sub(e)[0]); return True
    def e_isnormal(s, st, e): s.ev(st, sub(e)[0]); return True
    def e_sign(s, st, e):
        v = s.ev(st, sub(e)[0]); return v < 0

    # ---- obligations
    def assert_(s, st, c, name):
        if name not in s.obl: s.obl[name] = dict(n=0, ok=0, pend=[], trivial=0); s.order.append(name)
        o = s.obl[name]; o["n"] += 1
        if c is True: o["ok"] += 1; o["trivial"] += 1; return
        if is_t(c):
            c1 = z3.simplify(c)
            if z3.is_true(c1): o["ok"] += 1; o["trivial"] += 1; return
        if s.o.get("poly") and is_t(c) and s.poly_ok(c, st): o["ok"] += 1; s.backend["poly"] = s.backend.get("poly", 0) + 1; return
        if s.o.get("split_goal") and is_t(c):
            gs = conjuncts(c)
            if len(gs) > 1:
                o["n"] += len(gs) - 1
                for g in gs: o["pend"].append((list(st.pc), z3.Not(g), list(st.inputs)))
                return
        o["pend"].append((list(st.pc), Not(c) if not isinstance(c, bool) else True, list(st.inputs)))
    def poly_learn(s, st, c):
        """an assumed equality that defines a symbol left open by a contract becomes a rewrite rule of this path"""
        if not s.o.get("poly") or not is_t(c): return
        if z3.is_and(c):
            for x in c.children(): s.poly_learn(st, x)
            return
        if not z3.is_eq(c) or not z3.is_arith(c.arg(0)): return
        R = s.ring
        try: p = R.add(R.of(c.arg(0)), R.of(c.arg(1)), -1)
        except Exception: return
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0] in s.anyvars:
                v = m[0][0]
                if any(v == w for n in p if n != m for w, e in n): continue
                d = dict(st.extra.get("$defs", {}))
                if v in d: continue
                q = {n: -x / k for n, x in p.items() if n != m}
                if any(w in d and v in R.vars(d[w]) for w in R.vars(q)): continue
                d[v] = q; st.extra["$defs"] = d; return
    def poly_ok(s, c, st=None):
        from .poly import identity
        t = time.time()
        s.poly_def = (st.extra.get("$defs") or {}) if st is not None else {}
        try: r = identity(c, s)
        except Exception: r = False
        s.solver_s += time.time() - t
        return r
    def reach(s, st, name):
        k = "hv_reach:" + name
        if k not in s.obl: s.obl[k] = dict(n=0, ok=0, pend=[], reach=False, sts=[]); s.order.append(k)
        o = s.obl[k]; o["n"] += 1
        if not o["reach"]:
            if len(o["sts"]) < 40: o["sts"].append(list(st.pc))

    # ---- statements
    def call(s, st, fname, args, argt=None):
        """-> list of (state, value)"""
        r = s.o.get("contracts", {}).get(fname)
        if r is not None and r != fname and not (st.depth <= 1 and fname in s.o.get("rec", ())): return s.call(st, r, args)      # rec: the harness calls the body, the body the contract
        h = s.hooks.get(fname) or (BUILTIN.get(fname) if fname not in s.P.f or fname.startswith('hv_') else None)
        if h is not None: return h(s, st, args)
        if fname not in s.P.f: raise Unsupported("no body for " + fname)
        f = s.P.f[fname]; st.depth += 1
        if st.depth > 60: raise Unsupported("recursion")
        save = st.env; uw = st.unwind; st.env = dict(save); st.unwind = {}
        # locals are fresh objects per activation
        for n, a in zip(f["parameterIdentifiers"], args):
            if not n: continue
            t = s.P.sym[n]["type"]; oid = s.new_obj(st, n, s.P.size(t)); s.objtype[oid] = t; st.env[n] = oid; s.store(st, Ptr(oid), t, a)
        st.env["$ret"] = None
        tot = s.total; s.total = tot or fname in s.o.get("spec", ())       # reads in contract functions are total functions of the state
        try: outs = s.block(st, fname, 0, len(f["instructions"]) - 1)
        finally: s.total = tot
        if fname in s.merge or "*" in s.merge: outs = s.merge_states(outs, ret=True)
        res = []
        for o in outs:
            rv = o.extra.pop("$ret%d" % o.depth, None)
            # drop locals
            o.env = dict(save) if len(outs) > 1 else save; o.unwind = dict(uw) if len(outs) > 1 else uw; o.depth -= 1; res.append((o, rv))
        return res
    def block(s, st, fn, pc, stop):
        """run until stop; returns the list of states there"""
        ins = s.P.f[fn]["instructions"]; done = []; work = [(st, pc)]
        while work:
            st, pc = work.pop()
            while True:
                if pc == stop or ins[pc]["instructionId"] == "END_FUNCTION": 
                    if pc == stop: done.append(st)
                    else: st.extra["$end"] = True; done.append(st)
                    break
                sp_ = s.loop_spec(fn, pc)
                try: r = s.step(st, fn, pc, ins[pc], stop) if sp_ is None else s.run_loop(st, fn, pc, sp_)
                except PathDead: break
                except Split as sp:
                    for c in sp.conds:
                        if s.feasible(st, c):
                            n = st.fork(); n.pc.append(c); work.append((n, pc))
                    break
                if isinstance(r, int): pc = r
                else:
                    for q in r: work.append(q)
                    break
        return done
    # ---- loop contracts: invariant at the head, everything the body changes is havocked, body checked once
    def loop_spec(s, fn, pc):
        if not s.loops: return None
        f = s.P.f[fn]
        if pc not in f["loop"]: return None
        return s.loops.get((fn, f["heads"].index(pc)))
    def inv_args(s, st, fn, iname, head=None):
        f = s.P.f.get(iname); f0 = s.P.f[fn]
        if f is None: raise Unsupported("no invariant function " + iname)
        args = []
        for n in f["parameterIdentifiers"]:
            b = n.split("::")[-1]
            c = [k for k in st.env if k.startswith(fn + "::") and k.split("::")[-1] == b]
            if not c: raise Unsupported("loop invariant %s: no variable %s in %s" % (iname, b, fn))
            if head is not None:   # the variable of that name declared last before the loop
                decl = {ns(sub(x["code"])[0], "identifier")["id"]: q for q, x in enumerate(f0["instructions"]) if x["instructionId"] == "DECL"}
                c = [k for k in c if decl.get(k, -1) < head]
                if not c: raise Unsupported("loop invariant %s: no variable %s before the loop" % (iname, b))
                c.sort(key=lambda k: -decl.get(k, -1))
            else: c.sort(key=lambda k: -len(k.split("::")))
            args.append(s.load(st, Ptr(st.env[c[0]]), s.P.sym[c[0]]["type"]))
        return args
    def inv_eval(s, st, fn, iname, mode, head=None):
        """run the invariant function in a fork; assert (mode True) or assume its hv_inv(...) clauses"""
        outs = []
        split = s.o.get("loops", {}).get((fn, s.P.f[fn]["heads"].index(head)), {}).get("split") if head is not None else None
        if split:
            # a small-range integer variable of the loop is a constant in the body: one case per value (checked to be all the values)
            for v, vals in split.items():
                oid = [st.env[k] for k in st.env if k.startswith(fn + "::") and k.split("::")[-1] == v][-1]
                if mode: s.assert_(st, Or(*[I(st.objs[oid].cells[0][2]) == x for x in vals]), "%s.loop_case" % fn)
                elif is_t(st.objs[oid].cells[0][2]) and oid not in st.extra.get("$split", ()):
                    for x in vals:
                        n = st.fork(); c = n.w(oid).cells[0]; n.w(oid).cells[0] = (c[0], c[1], x); outs += s.inv_eval(n, fn, iname, mode, head)
                    return outs
        st.extra["$inv"] = mode
        for o, rv in s.call(st, iname, s.inv_args(st, fn, iname, head)):
            o.extra["$inv"] = None
            if rv is not None:
                c = s.truth(rv)
                if mode: s.assert_(o, c, "%s.loop_invariant" % fn)
                if c is False: continue
                if c is not True: o.pc.append(c)
            outs.append(o)
        return outs
    def changed(s, a, b):
        """cells of objects of a that differ in b"""
        r = set()
        for oid, x in a.objs.items():
            y = b.objs.get(oid)
            if x is y: continue
            if y is None or x.alive != y.alive: raise Unsupported("loop body frees memory")
            if x.dyn is not None or y.dyn is not None:
                if x.dyn is None or y.dyn is None: raise Unsupported("loop body changes a dynamic object")
                for f in set(x.dyn["f"]) | set(y.dyn["f"]):
                    u, v = x.dyn["f"].get(f), y.dyn["f"].get(f)
                    if u is None: u = s.dyn_field(a, oid, f, v[1], v[0], v[3])
                    if v is None: continue
                    if not u[2].eq(v[2]): r.add((oid, ("dyn", f)))
                continue
            for q in set(x.cells) | set(y.cells):
                u, v = x.cells.get(q), y.cells.get(q)
                if u is v: continue
                if v is None:
                    if not y.zero or u is None: raise Unsupported("loop body reshapes memory")
                    v = (u[0], u[1], 0 if u[1] == "i" else Fraction(0) if u[1] == "f" else False if u[1] == "b" else NULL)
                if u is None:
                    if not x.zero:
                        # uninitialised before: an assigned or a merely named cell
                        r.add((oid, q)); continue
                    u = (v[0], v[1], 0 if v[1] == "i" else Fraction(0) if v[1] == "f" else False if v[1] == "b" else NULL)
                if u[0] == v[0] == 8 and u[1] + v[1] in ("ip", "pi"):
                    # zeroed memory read as a null pointer
                    if u[1] == "i" and not is_t(u[2]) and u[2] == 0: u = (8, "p", NULL)
                    if v[1] == "i" and not is_t(v[2]) and v[2] == 0: v = (8, "p", NULL)
                if u[0] != v[0] or u[1] != v[1]: raise Unsupported("loop body reshapes memory (%s+%s: %s -> %s)" % (x.name, q, u, v))
                p, w = u[2], v[2]
                if p is w: continue
                if isinstance(p, (Ptr,)) and isinstance(w, Ptr) and p.key() == w.key(): continue
                if isinstance(p, AddrInt) and isinstance(w, AddrInt) and p.p.key() == w.p.key(): continue
                if is_t(p) and is_t(w) and p.eq(w): continue
                if not is_t(p) and not is_t(w) and type(p) is type(w) and not isinstance(p, (Ptr, AddrInt)) and p == w: continue
                if isinstance(p, Ptr) and isinstance(w, Ptr) and p.obj != w.obj:
                    # the pointer moves between objects: havocked to any object seen here
                    t = s.ptrtargets.setdefault((oid, q), set()); n = len(t); t |= {p.obj, w.obj}
                    if len(t) > n: s.newtargets = True
                r.add((oid, q))
        return r
    def havoc_cells(s, st, M):
        """one state per combination of objects that the pointers in M may refer to"""
        sts = [st]
        for oid, q in sorted(M, key=str):
            nx = []
            for h in sts:
                t = s.ptrtargets.get((oid, q))
                if t is None: s.havoc_cell(h, oid, q); nx.append(h); continue
                c = h.objs[oid].cells.get(q); v = c[2] if c else None
                for tg in sorted(t | ({v.obj} if isinstance(v, Ptr) else set()), key=str):
                    g = h.fork(); g.w(oid).cells[q] = (8, "p", NULL if tg is None else Ptr(tg, 0, ()))
                    if tg is not None: s.havoc_cell(g, oid, q)
                    nx.append(g)
            sts = nx
        return sts
    def havoc_cell(s, st, oid, q):
        o = st.w(oid)
        if isinstance(q, tuple):
            if q[1] not in o.dyn["f"]: sz, k, t = s.dyninfo[(oid, q[1])]; s.dyn_field(st, oid, q[1], k, sz, t); o = st.w(oid)
            sz, k, a, t = o.dyn["f"][q[1]]; _fresh[0] += 1
            d = dict(o.dyn); d["f"] = dict(d["f"]); d["f"][q[1]] = (sz, k, z3.Array("H_%s!%d" % (o.name, _fresh[0]), z3.IntSort(), a.range()), t); o.dyn = d; return
        ct = None
        t = s.objtype.get(oid)
        if t is not None:
            for off, lt, k in s.leaves(t):
                if off == q: ct = lt; break
        if ct is None: raise Unsupported("loop body changes memory of unknown type (%s+%s)" % (o.name, q))
        k = s.kind(ct); sz = s.P.bits(ct) / 8.0; sz = int(sz) if sz == int(sz) else sz
        c = o.cells.get(q)
        if k == "p":
            # pointer variables: stay in their object, the offset is havocked
            if c is None and not o.zero: return   # still uninitialised: any read before an assignment is an error
            v = c[2] if c else None
            if not isinstance(v, Ptr) or v.obj is None: raise Unsupported("loop body changes a pointer")
            z = 1
            try: z = s.P.size(sub(ct)[0]) or 1
            except Exception: pass
            if z == 1 and st.objs[v.obj].dyn is not None: z = st.objs[v.obj].dyn["stride"]
            if z > 1: s.ptrstride[(oid, q)] = (v.c % z, z)
            x = s.fresh("h_" + o.name); m = 2**62 // z; s.ranges[x.get_id()] = (-m, m); s.keep.append(x); s.axiom(x, z3.And(x >= -m, x <= m))
            o.cells[q] = (sz, k, Ptr(v.obj, v.c % z if z else v.c, ((z, x),))); return
        o.cells[q] = (sz, k, s.fresh_of(ct, "h_" + o.name))
    def run_loop(s, st, fn, pc, spec):
        """-> list of (state, pc) after the loop"""
        f = s.P.f[fn]; head, back = pc, f["loop"][pc]; s.loop_used.add((fn, f["heads"].index(pc)))
        exits = []
        for st0 in s.inv_eval(st, fn, spec["inv"], True, head):
            M = set()
            for attempt in range(12):
                snap = (dict((k, dict(v, pend=list(v["pend"]), **({"sts": list(v["sts"])} if "sts" in v else {}))) for k, v in s.obl.items()), list(s.order))
                s.newtargets = False; hs = s.havoc_cells(st0.fork(), M)
                more = set(); out = []
                for h1 in [h1 for h in hs for h1 in s.inv_eval(h, fn, spec["inv"], False, head)]:
                    ref = h1.fork(); work = [(h1, head)]; first = True
                    while work:
                        c, p = work.pop()
                        while True:
                            if not first and p == head:
                                more |= s.changed(ref, c) - M
                                for oq in M:
                                    if oq in s.ptrstride:
                                        pv = c.objs[oq[0]].cells.get(oq[1]); pv = pv[2] if pv else NULL; pr, z = s.ptrstride[oq]
                                        if oq in s.ptrtargets and (not isinstance(pv, Ptr) or pv.obj is None): continue
                                        if not isinstance(pv, Ptr) or (pv.c - pr) % z or any(k % z for k, _ in pv.t): raise Unsupported("loop pointer not moved by whole elements")
                                if not more and not s.newtargets: s.inv_eval(c, fn, spec["inv"], True, head)
                                break
                            if not (head <= p <= back) or f["instructions"][p]["instructionId"] == "END_FUNCTION": out.append((c, p)); break
                            if not first and s.loop_spec(fn, p) is not None: r = s.run_loop(c, fn, p, s.loop_spec(fn, p))
                            else:
                                first = False
                                try: r = s.step(c, fn, p, f["instructions"][p], -1)
                                except PathDead: break
                                except Split as sp:
                                    for cc in sp.conds:
                                        if s.feasible(c, cc): n = c.fork(); n.pc.append(cc); work.append((n, p))
                                    break
                            if isinstance(r, int): p = r; continue
                            work += r; break
                if not more and not s.newtargets: exits += out; break
                M |= more; s.obl, s.order = snap
            else: raise Unsupported("loop frame does not stabilise")
        return exits
    def step(s, st, fn, pc, i, stop):
        op = i["instructionId"]
        if op in ("SKIP", "LOCATION", "DEAD", "OTHER", "ATOMIC_BEGIN", "ATOMIC_END"): return pc + 1
        if op == "DECL":
            e = sub(i["code"])[0]; n = ns(e, "identifier")["id"]; oid = s.new_obj(st, n.split("::")[-1], s.P.size(typ(e))); s.objtype[oid] = typ(e); st.env[n] = oid; return pc + 1
        if op == "ASSIGN":
            l, r = sub(i["code"]); snap = None
            st2 = st
            v = s.ev(st2, r); p = s.lval(st2, l); s.store(st2, p, typ(l), s.coerce(v, typ(l))); return pc + 1
        if op == "ASSERT":
            name = s.asname(i)
            if name.startswith("hv_reach:"): s.reach(st, name[9:]); return pc + 1
            c = s.truth(s.ev(st, i["guard"])); s.assert_(st, c, name)
            if c is False: raise PathDead()
            if c is not True: st.pc.append(c)
            if c is not True and not s.feasible(st, True): raise PathDead()
            return pc + 1
        if op == "ASSUME":
            c = s.truth(s.ev(st, i["guard"]))
            if c is False: raise PathDead()
            if c is True: return pc + 1
            if not s.total and not s.feasible(st, c): raise PathDead()
            s.poly_learn(st, c); st.pc.append(c); return pc + 1
        if op == "SET_RETURN_VALUE":
            x = sub(i["code"])
            if x: st.extra["$ret%d" % st.depth] = s.ev(st, x[0])
            return pc + 1
        if op == "GOTO":
            g = i.get("guard"); tgt = i["_t"][0]
            c = True if g is None else s.truth(s.ev(st, g))
            if s.o.get("poly") and is_t(c):
                if s.poly_ok(c, st): c = True
                elif s.poly_ok(z3.simplify(z3.Not(c)) if not z3.is_not(c) else c.arg(0), st): c = False
            if tgt <= pc:
                key = (fn, pc)
                if c is not False:
                    st.unwind[key] = st.unwind.get(key, 0) + 1
                    if st.unwind[key] > (s.unwind if c is not True else max(s.unwind, 4000)): raise Unsupported("unwinding limit in %s" % fn)
            if c is True: return tgt
            if c is False: return pc + 1
            if s.total and (fn in s.merge): ft = ff = True
            else: ft = s.feasible(st, c); ff = s.feasible(st, Not(c))
            if ft and not ff: st.pc.append(c); return tgt
            if ff and not ft: st.pc.append(Not(c)); return pc + 1
            if not ft and not ff: raise PathDead()
            a, b = st.fork(), st.fork(); a.pc.append(c); b.pc.append(Not(c))
            if (fn in s.merge or "*" in s.merge) and not any(k[0] == fn for k in s.loops):
                j = s.P.ipdom(fn, pc)
                outs = s.block(a, fn, tgt, j) + s.block(b, fn, pc + 1, j)
                return [(o, j) for o in s.merge_states(outs)]
            return [(b, pc + 1), (a, tgt)]
        if op == "FUNCTION_CALL":
            l, f, a = sub(i["code"])
            fv = s.ev(st, f) if f["id"] != "symbol" else Fn(ns(f, "identifier")["id"])
            if isinstance(fv, Ptr) and isinstance(fv.obj, str) and fv.obj in s.P.f: fv = Fn(fv.obj)
            if not isinstance(fv, Fn): raise Unsupported("call through unknown pointer")
            args = [s.ev(st, x) for x in sub(a)]
            outs = []
            for o, rv in s.call(st, fv.name, args):
                if l["id"] != "nil" and not (l["id"] == "constant"):
                    if rv is None: rv = s.fresh_of(typ(l), "ret_" + fv.name) if s.kind(typ(l)) in "ifb" else NULL if s.kind(typ(l)) == "p" else Blob({}, s.P.size(typ(l)))
                    s.store(o, s.lval(o, l), typ(l), s.coerce(rv, typ(l)))
                outs.append((o, pc + 1))
            return outs
        if op == "THROW" or op == "CATCH": return pc + 1
        raise Unsupported("instruction " + op)
    def coerce(s, v, t):
        k = s.kind(t)
        if k == "f" and isinstance(v, int) and not isinstance(v, bool): return Fraction(v)
        if k == "b" and not isinstance(v, bool): return s.truth(v)
        if k == "i" and (isinstance(v, bool) or (is_t(v) and z3.is_bool(v))): return s.num(v)
        return v
    def narrow(s, c): pass
    def asname(s, i):
        sl = i.get("sourceLocation", {})
        d = sl.get("comment")
        if d is None:
            m = re.search(r"//\s*([^\n]*)\n?$", i.get("instruction", "").strip().splitlines()[-1]); d = m.group(1) if m else "assertion"
        if d.startswith("hv:"): return d[3:]
        if d.startswith("hv_reach:"): return d
        return "%s [%s]" % (d, sl.get("function", ""))
    # ---- merging
    def merge_states(s, sts, ret=False):
        out = []
        for st in sts:
            for k, m in enumerate(out):
                r = s.merge2(m, st)
                if r is not None: out[k] = r; break
            else: out.append(st)
        return out
    def merge2(s, a, b):
        if len(a.inputs) != len(b.inputs): return None
        if a.env.keys() != b.env.keys():
            # locals declared on one side only: keep the common ones
            pass
        if a.depth != b.depth: return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or (is_t(a.pc[n]) and is_t(b.pc[n]) and a.pc[n].eq(b.pc[n]))): n += 1
        ca, cb_ = And(*a.pc[n:]), And(*b.pc[n:])
        if ca is True or cb_ is True: return None
        def mv(x, y, k):
            if x is y: return x
            if k == "p":
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.key() == y.key(): return x
                    if x.obj in s.nullobjs and y.obj is None and y.c == 0 and not y.t: y = Ptr(x.obj)
                    elif y.obj in s.nullobjs and x.obj is None and x.c == 0 and not x.t: x = Ptr(y.obj)
                    if x.obj == y.obj and x.obj in s.nullobjs:
                        z = s.nullobjs[x.obj]
                        ix, iy = [addx(v.c // z, sum((k // z) * q for k, q in v.t)) if v.t else v.c // z for v in (x, y)]
                        if not is_t(ix) and not is_t(iy) and ix == iy: return x
                        return Ptr(x.obj, 0, ((z, Ite(ca, ix, iy)),))
                    if x.obj == y.obj and x.obj is not None:
                        t = Ite(ca, x.off(), y.off()); c, ts = linear(t); return Ptr(x.obj, c, tuple(ts))
                if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name: return x
                raise KeyError
            if isinstance(x, AddrInt) or isinstance(y, AddrInt):
                if isinstance(x, AddrInt) and isinstance(y, AddrInt) and x.p.key() == y.p.key(): return x
                raise KeyError
            if isinstance(x, Blob):
                if x.cells.keys() != y.cells.keys(): raise KeyError
                return Blob({q: (x.cells[q][0], x.cells[q][1], mv(x.cells[q][2], y.cells[q][2], x.cells[q][1])) for q in x.cells}, x.size)
            if not is_t(x) and not is_t(y) and type(x) is type(y) and x == y: return x
            if is_t(x) and is_t(y) and x.eq(y): return x
            return Ite(ca, x, y)
        r = a.fork(); r.pc = a.pc[:n] + [Or(ca, cb_)]
        try:
            r.env = {k: v for k, v in a.env.items() if b.env.get(k) == v}
            live = set(r.env.values())
            for oid in set(a.objs) | set(b.objs):
                x, y = a.objs.get(oid), b.objs.get(oid)
                if x is y: continue
                if x is None or y is None:
                    r.objs[oid] = x or y; continue
                if x.alive != y.alive or x.dyn is not None or y.dyn is not None:
                    if x.dyn is not None and y.dyn is not None and x.dyn == y.dyn: continue
                    if not s.o.get("merge_dyn") or x.dyn is None or y.dyn is None or x.alive != y.alive: return None
                    o = x.copy(); d = dict(o.dyn); d["f"] = dict(d["f"])
                    for f in set(x.dyn["f"]) | set(y.dyn["f"]):
                        u, v = x.dyn["f"].get(f), y.dyn["f"].get(f)
                        if u is None or v is None: d["f"][f] = u or v
                        elif not u[2].eq(v[2]): d["f"][f] = (u[0], u[1], z3.If(B(ca), u[2], v[2]), u[3])
                    if any((x.dyn["f"].get(f) is None or y.dyn["f"].get(f) is None) for f in d["f"]): return None
                    o.dyn = d; r.objs[oid] = o; r.own.add(oid); continue
                o = x.copy()
                for q in set(x.cells) | set(y.cells):
                    u, v = x.cells.get(q), y.cells.get(q)
                    if u is None or v is None:
                        if x.zero:
                            w = u or v; z = (w[0], w[1], 0 if w[1] == "i" else Fraction(0) if w[1] == "f" else False if w[1] == "b" else NULL)
                            u = u or z; v = v or z
                        else: o.cells[q] = u or v; continue
                    if u[0] != v[0] or u[1] != v[1]: return None
                    o.cells[q] = (u[0], u[1], mv(u[2], v[2], u[1]))
                r.objs[oid] = o; r.own.add(oid)
            ks = set(a.extra) | set(b.extra)
            for k in ks:
                if k not in a.extra or k not in b.extra: return None
                x, y = a.extra[k], b.extra[k]
                if x is y: continue
                kk = "p" if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)) else "x"
                r.extra[k] = mv(x, y, kk)
            r.unwind = {k: max(a.unwind.get(k, 0), b.unwind.get(k, 0)) for k in set(a.unwind) | set(b.unwind)}
        except KeyError: return None
        return r

class Split(Exception):
    def __init__(s, conds): s.conds = conds

def _nneg(c):
    """not c, pushed inwards a little"""
    if isinstance(c, bool): return z3.BoolVal(not c)
    if z3.is_not(c): return _norm(c.arg(0))
    if z3.is_true(c): return z3.BoolVal(False)
    if z3.is_false(c): return z3.BoolVal(True)
    if z3.is_or(c): return z3.And(*[_nneg(x) for x in c.children()])
    if z3.is_and(c): return z3.Or(*[_nneg(x) for x in c.children()])
    n = _norm(c)
    if not n.eq(c): return _nneg(n)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE: return z3.If(c.arg(0), z3.Not(c.arg(1)), z3.Not(c.arg(2)))
    return z3.Not(c)
def _norm(c):
    """Boolean connectives in place of conditional expressions with constant branches"""
    if z3.is_not(c): return _nneg(c.arg(0))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EQ and z3.is_bool(c.arg(0)):
        x, y = c.arg(0), c.arg(1)
        for u, v in ((x, y), (y, x)):
            if z3.is_true(v): return _norm(u)
            if z3.is_false(v): return _nneg(u)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(c):
        q, x, y = c.arg(0), c.arg(1), c.arg(2)
        if z3.is_false(x): return z3.And(_nneg(q), _norm(y))
        if z3.is_true(x): return z3.Or(_norm(q), _norm(y))
        if z3.is_false(y): return z3.And(_norm(q), _norm(x))
        if z3.is_true(y): return z3.Or(_nneg(q), _norm(x))
    if z3.is_or(c): return z3.Or(*[_norm(x) for x in c.children()])
    if z3.is_and(c): return z3.And(*[_norm(x) for x in c.children()])
    return c
def conjuncts(c):
    """the conjuncts of c, distributed over disjunctions with a guard"""
    c = _norm(c)
    if z3.is_and(c): return [x for a in c.children() for x in conjuncts(a)]
    if z3.is_or(c):
        a = c.children(); k = [i for i, x in enumerate(a) if z3.is_and(x)]
        if k:
            i = max(k, key=lambda i: a[i].num_args()); r = [x for j, x in enumerate(a) if j != i]
            if len(k) == 1 or a[i].num_args() > 2: return [x for g in conjuncts(a[i]) for x in (conjuncts(z3.Or(*r, g)) if len(k) == 1 else [z3.Or(*r, g)])]
    return [c]
def k_const(t): return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
def addx(a, b):
    if not is_t(a) and not is_t(b): return a + b
    if not is_t(a) and a == 0: return b
    if not is_t(b) and b == 0: return a
    if isinstance(a, Fraction) or isinstance(b, Fraction): return R(a) + R(b)
    return a + b
def subx(a, b):
    if not is_t(a) and not is_t(b): return a - b
    if not is_t(b) and b == 0: return a
    if isinstance(a, Fraction) or isinstance(b, Fraction): return R(a) - R(b)
    return a - b
def mulx(a, b):
    if not is_t(a) and not is_t(b): return a * b
    if not is_t(a):
        if a == 0: return 0 if isinstance(a, int) else Fraction(0)
        if a == 1: return b
    if not is_t(b):
        if b == 0: return 0 if isinstance(b, int) else Fraction(0)
        if b == 1: return a
    if isinstance(a, Fraction) or isinstance(b, Fraction): return R(a) * R(b)
    return a * b
def linear(v):
    """const, [(coef, term)]"""
    if isinstance(v, bool): return int(v), []
    if isinstance(v, int): return v, []
    if z3.is_int_value(v): return v.as_long(), []
    k = v.decl().kind()
    if k == z3.Z3_OP_ADD:
        c, ts = 0, []
        for x in v.children(): a, b = linear(x); c += a; ts += b
        return c, ts
    if k == z3.Z3_OP_SUB:
        c, ts = linear(v.arg(0)); ts = list(ts)
        for x in v.children()[1:]: a, b = linear(x); c -= a; ts += [(-q, y) for q, y in b]
        return c, ts
    if k == z3.Z3_OP_UMINUS: a, b = linear(v.arg(0)); return -a, [(-q, y) for q, y in b]
    if k == z3.Z3_OP_MUL and v.num_args() == 2:
        for x, y in ((v.arg(0), v.arg(1)), (v.arg(1), v.arg(0))):
            if z3.is_int_value(x):
                n = x.as_long(); a, b = linear(y); return n*a, [(n*q, z) for q, z in b]
    return 0, [(1, v)]

EXP = {"+": "add", "-": "sub", "*": "mul", "/": "div", "mod": "mod", "=": "eq", "notequal": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge",
       "unary-": "neg", "unary+": "uplus", "=>": "implies", "floatbv_plus": "add", "floatbv_minus": "sub", "floatbv_mult": "mul", "floatbv_div": "div",
       "overflow_result-+": "ovadd", "overflow_result--": "ovsub", "overflow_result-*": "ovmul", "ieee_float_equal": "eq", "ieee_float_notequal": "ne", "floatbv_typecast": "typecast"}

# ---------------------------------------------------------------- builtins
def _inp(kind, lo=None, hi=None):
    def f(s, st, args):
        if kind == "f":
            v = s.fresh("in", "f")
        else:
            v = s.fresh("in"); s.ranges[v.get_id()] = (lo, hi); s.keep.append(v); s.axiom(v, z3.And(v >= lo, v <= hi))
        st.inputs.append((kind, v)); return [(st, v)]
    return f
def _range(s, st, args):
    lo, hi = args; v = s.fresh("in")
    if isinstance(lo, int) and isinstance(hi, int): s.ranges[v.get_id()] = (lo, hi)
    else: s.ranges[v.get_id()] = (0, 2**64 - 1)
    s.keep.append(v); s.axiom(v, z3.And(v >= lo, v <= hi)); st.inputs.append(("i", v))
    if not (isinstance(lo, int) and isinstance(hi, int)): st.pc.append(I(lo) <= I(hi))
    return [(st, v)]
def _bool(s, st, args):
    v = s.fresh("in", "b"); st.inputs.append(("b", v)); return [(st, v)]
def _irange(s, st, args):
    lo, hi = args; v = s.fresh("in"); s.ranges[v.get_id()] = (lo if isinstance(lo, int) else None, hi if isinstance(hi, int) else None)
    s.keep.append(v); s.axiom(v, z3.And(v >= lo, v <= hi)); st.inputs.append(("i", v)); return [(st, v)]
def _dyn(s, st, args):
    """hv_dyn(n, stride): fresh array of n elements with arbitrary contents"""
    n, k = args
    oid = s.new_obj(st, "arr", k); s.make_dyn(st, oid, k, n); return [(st, Ptr(oid))]
def _dynptr(s, st, args):
    """hv_dyn_ptr(a, off, t): the pointers at byte off of each element of a point to elements of t"""
    a, off, t = args
    d = dict(st.objs[a.obj].dyn); d["ptr"] = dict(d.get("ptr", {})); d["ptr"][off] = (t.obj, st.objs[t.obj].dyn["stride"]); st.w(a.obj).dyn = d; return [(st, None)]
def _dynamong(s, st, args):
    """hv_dyn_among(a, off, x...): precondition: the integer at byte off of each element of a (as it was made) is one of x..."""
    a, off = args[:2]
    d = dict(st.objs[a.obj].dyn); d["among"] = dict(d.get("among", {})); d["among"][off] = list(args[2:]); st.w(a.obj).dyn = d; return [(st, None)]
def _dynnull(s, st, args):
    """hv_dyn_null(a): element 0 of a stands for the null pointer"""
    if not s.nullobjs: s.nullobjs = {}
    s.nullobjs[args[0].obj] = st.objs[args[0].obj].dyn["stride"]; return [(st, None)]
def _havocdyn(s, st, args):
    """hv_havoc(a): all elements of the dynamic array a change arbitrarily (scalar elements only)"""
    o = args[0].obj; d = st.objs[o].dyn
    if sum(f[0] for f in d["f"].values()) != d["stride"]: raise Unsupported("hv_havoc: untouched or structured array")
    for f in list(d["f"]): s.havoc_cell(st, o, ("f", f))
    return [(st, None)]
def _assuming(s, st, args): return [(st, st.extra.get("$inv") is False)]
def _malloc(s, st, args):
    n = args[0]
    if is_t(n): raise Unsupported("malloc of symbolic size")
    oid = s.new_obj(st, "heap", n); return [(st, Ptr(oid))]
def _calloc(s, st, args):
    if is_t(args[1]): raise Unsupported("calloc of symbolic size")
    if is_t(args[0]):
        if not args[1]: raise Unsupported("calloc of symbolic size")
        oid = s.new_obj(st, "heap", args[1]); s.make_dyn(st, oid, args[1], args[0], True); return [(st, Ptr(oid))]
    oid = s.new_obj(st, "heap", args[0] * args[1]); st.objs[oid].zero = True; return [(st, Ptr(oid))]
def _free(s, st, args):
    p = args[0]
    if p.obj is not None: st.w(p.obj).alive = False
    return [(st, None)]
def _memcpy(s, st, args):
    d, a, n = args
    if is_t(n): raise Unsupported("memcpy of symbolic size")
    if n:
        s.obligation_ptr(st, d, "memcpy"); s.obligation_ptr(st, a, "memcpy")
        o = st.objs[a.obj]; c = s.concrete_off(st, a, n)
        if c < 0 or c + n > o.size: s.assert_(st, False, "memory.access_within_object (memcpy)"); raise PathDead()
        b = Blob({q - c: x for q, x in o.cells.items() if c <= q and q + x[0] <= c + n}, n)
        covered = sum(x[0] for x in b.cells.values())
        if o.zero and covered < n: raise Unsupported("memcpy from partly implicit object")
        s.store_blob(st, d, b)
    return [(st, d)]
def _memset(s, st, args):
    d, c, n = args
    if is_t(n) or is_t(c): raise Unsupported("memset of symbolic size")
    if n:
        s.obligation_ptr(st, d, "memset"); o = st.objs[d.obj]
        if o.dyn is not None:
            if c != 0 or n != o.dyn["stride"] or sum(f[0] for f in o.dyn["f"].values()) != n: raise Unsupported("memset of a dynamic array")
            for rel in list(o.dyn["f"]):
                sz, k, a, t = o.dyn["f"][rel]; s.dyn_store(st, d.add(rel), t, k, sz, NULL if k == "p" else 0 if k == "i" else Fraction(0) if k == "f" else False)
            return [(st, d)]
        b = s.concrete_off(st, d, n)
        if b < 0 or b + n > o.size: s.assert_(st, False, "memory.access_within_object (memset)"); raise PathDead()
        o = st.w(d.obj)
        for q in [q for q in o.cells if b <= q < b + n]: del o.cells[q]
        if c == 0 and b == 0 and n == o.size: o.zero = True
        elif c == 0 and o.zero: pass
        elif n <= 4096:
            for q in range(b, b + n): o.cells[q] = (1, "i", c & 255)
        else: raise Unsupported("memset")
    return [(st, d)]
def _memcmp(s, st, args):
    a, b, n = args
    if is_t(n): raise Unsupported("memcmp")
    t = dict(id="unsignedbv", namedSub=dict(width=dict(id="8"))); eq = True
    for k in range(n): eq = And(eq, s_eq(s.load(st, a.add(k), t), s.load(st, b.add(k), t)))
    if isinstance(eq, bool): return [(st, 0 if eq else 1)]
    v = s.fresh("memcmp"); s.axiom(v, (v == 0) == eq); s.ranges[v.get_id()] = (-255, 255); return [(st, v)]
def s_eq(a, b): return a == b if not is_t(a) and not is_t(b) else I(a) == I(b)
def _fabs(s, st, args):
    v = args[0]; return [(st, abs(v) if not is_t(v) else z3.If(v >= 0, v, -v))]
def _floor(s, st, args):
    v = args[0]
    if not is_t(v):
        import math; return [(st, Fraction(math.floor(v)))]
    return [(st, z3.ToReal(z3.ToInt(v)))]
def _ceil(s, st, args):
    v = args[0]
    if not is_t(v):
        import math; return [(st, Fraction(math.ceil(v)))]
    return [(st, z3.ToReal(-z3.ToInt(-v)))]
def _lrint(s, st, args):
    """round to nearest, ties to even (default rounding mode)"""
    v = args[0]
    if not is_t(v): return [(st, round(v))]
    if z3.is_to_real(v): e = v.arg(0)
    else:
        f = z3.ToInt(v); d = v - z3.ToReal(f); h = z3.RealVal("1/2")
        e = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    s.assert_(st, z3.And(e >= -2**63, e < 2**63), "arithmetic.rounded_value_in_range")
    x = s.fresh("lrint"); s.ranges[x.get_id()] = (-2**63, 2**63 - 1); s.keep.append(x); st.pc.append(x == e)
    return [(st, x)]
def _sqrt(s, st, args):
    v = args[0]
    if not is_t(v):
        import math
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n*n == v.numerator and d*d == v.denominator: return [(st, Fraction(n, d))]
    V = R(v); k = ("sqrt", V.get_id())
    if k not in s.div_memo:
        r = s.fresh("sqrt", "f"); s.atom_no[r.get_id()] = _fresh[0]; s.keep.append(r)
        try: s.poly_sq[r.get_id()] = s.ring.of(V)
        except Exception: pass
        s.axiom(r, z3.Implies(V >= 0, z3.And(r >= 0, r * r == V))); s.div_memo[k] = (r, V)
    r = s.div_memo[k][0]
    s.assert_(st, V >= 0, "arithmetic.sqrt_of_nonnegative"); st.pc.append(V >= 0)
    return [(st, r)]
def _nop(s, st, args): return [(st, None)]
def _zero(s, st, args): return [(st, 0)]
def _abort(s, st, args): raise PathDead()
def _assertfail(s, st, args):
    s.assert_(st, False, "assertion"); raise PathDead()
def _any(lo, hi):
    def f(s, st, args):
        v = s.fresh("any"); s.anyvars[v.get_id()] = v; s.atom_no[v.get_id()] = _fresh[0]; s.ranges[v.get_id()] = (lo, hi); s.keep.append(v); s.axiom(v, z3.And(v >= lo, v <= hi)); return [(st, v)]
    return f
def _anyf(s, st):
    v = s.fresh("any", "f"); s.anyvars[v.get_id()] = v; s.atom_no[v.get_id()] = _fresh[0]; s.keep.append(v); return [(st, v)]
def _known(s, st, args):
    """true only if the condition is an identity (ghost code of contracts: use a lemma where its premise is evident)"""
    c = s.truth(args[0])
    if is_t(c): c = z3.is_true(z3.simplify(c)) or s.poly_ok(c, st)
    return [(st, bool(c))]
BUILTIN = {
 "hv_known": _known,
 "hv_any_u64": _any(0, 2**64 - 1), "hv_any_i64": _any(-2**63, 2**63 - 1), "hv_any_u32": _any(0, 2**32 - 1), "hv_any_i32": _any(-2**31, 2**31 - 1),
 "hv_any_f64": lambda s, st, args: _anyf(s, st), "hv_any_bool": lambda s, st, args: [(st, s.fresh("any", "b"))],
 "hv_in": _inp("i", 0, 2**64 - 1), "hv_u64": _inp("i", 0, 2**64 - 1), "hv_i64": _inp("i", -2**63, 2**63 - 1), "hv_u32": _inp("i", 0, 2**32 - 1),
 "hv_i32": _inp("i", -2**31, 2**31 - 1), "hv_u8": _inp("i", 0, 255), "hv_bool": _bool, "hv_f64": _inp("f"), "hv_range": _range, "hv_irange": _irange,
 "hv_dyn": _dyn, "hv_havoc": _havocdyn, "hv_dyn_null": _dynnull, "hv_dyn_ptr": _dynptr, "hv_dyn_among": _dynamong, "hv_assuming": _assuming, "malloc": _malloc, "calloc": _calloc, "free": _free, "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset, "memcmp": _memcmp,
 "fabs": _fabs, "floor": _floor, "ceil": _ceil, "lrint": _lrint, "llrint": _lrint, "sqrt": _sqrt, "printf": _zero, "fprintf": _zero, "abort": _abort, "__builtin_isfinite": lambda s, st, args: [(st, 1)], "exit": _abort,
 "__assert_fail": _assertfail, "__assert": _assertfail,
}

# ---------------------------------------------------------------- discharge
def to_smt(eng, pc, neg, inputs):
    c = [B(x) for x in pc if x is not True] + ([B(neg)] if neg is not True else [])
    sv = z3.Solver(); sv.add(c); sv.add(eng._axioms(c)); return sv

def mval(kind, v):
    import struct
    if kind == "b": return 1 if z3.is_true(v) else 0
    if kind == "i": return v.as_long() % 2**64 if z3.is_int_value(v) else 0
    if z3.is_algebraic_value(v): v = v.approx(20)
    try: d = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception: d = 0.0
    return struct.unpack("<Q", struct.pack("<d", d))[0]

def ext_solve(cmd, text, tmo, d):
    fd, fn = tempfile.mkstemp(suffix=".smt2", dir=d); os.write(fd, text.encode()); os.close(fd)
    rc, o, e, sec = sh(cmd + [fn], timeout=tmo + 5, mem_gb=6); os.unlink(fn)
    o = o.strip().splitlines()
    return (o[0] if o and o[0] in ("sat", "unsat", "unknown") else "unknown"), sec

class Vcg(_cb.Cbmc):
    """same harness interface as Cbmc; decided by the vcg engine"""
    def __init__(self, name, file, harness, src=(), merge=(), hooks=None, smt_timeout=20, unwind=70, opts=(), engine=None, **kw):
        kw.setdefault("kind", "proof")
        super().__init__(name, file, harness, src, unwind=unwind, opts=opts, **kw)
        self.merge, self.hooks, self.smt_timeout = merge, hooks or {}, smt_timeout
        self.engine_opts = engine or {}; self.nodrop = bool(self.engine_opts.get('loops') or self.engine_opts.get('contracts'))

    def run(self, d, deadline):
        res = []
        threading.stack_size(512 * 1024 * 1024)
        def work():
            try: res.append(self._run(d, deadline))
            except BaseException as x: res.append(x)
        t = threading.Thread(target=work); t.start(); t.join()
        if isinstance(res[0], BaseException): raise res[0]
        return res[0]

    def _run(self, d, deadline):
        out = Outcome(self); out.kind = self.kind; out.solver_s = 0.0
        if self.bound_note: out.notes.append("bound: " + self.bound_note)
        tl = time.time() + self.timeout
        try:
            gb = self._cbmc_build(d); prog = Program(gb, d)
            o = dict(merge=self.merge, hooks=self.hooks, unwind=self.unwind or 70, deadline=min(deadline, tl)); o.update(self.engine_opts)
            eng = Engine(prog, o)
            st = State()
            if "__CPROVER_initialize" in prog.f:
                eng.in_init = True; r = eng.call(st, "__CPROVER_initialize", []); eng.in_init = False
                st = r[0][0]
            outs = eng.call(st, self.harness, [])
            eng.stats["paths"] = len(outs)
        except (RuntimeError, Unsupported, TimeoutError, KeyError, Split, z3.Z3Exception) as x:
            import traceback
            if isinstance(x, RuntimeError) and not isinstance(x, z3.Z3Exception): out.error = str(x)
            else: out.error = "vc generation: %s: %s" % (type(x).__name__, str(x)[:300]); out.tb = traceback.format_exc()
            if os.environ.get("HV_TB"): traceback.print_exc()
            out.undecided = True
            out.obligations.append(Obligation("all", "undecided: " + out.error[:200], backend="vcg", kind=self.kind))
            self._search(d, out, "vc generation failed", deadline, secs=self.native_secs or 20, report_plain=False)
            return out
        self._discharge(eng, out, d, min(deadline, tl + 60))
        return out

    def _discharge(self, eng, out, d, deadline):
        fails = []; reach = 0; jobs = []
        nb = {}
        done = self._parallel(eng, deadline) if eng.o.get("par") else {}
        for name in eng.order:
            ob = eng.obl[name]
            if name.startswith("hv_reach:"):
                ok = False
                for pc in ob["sts"]:
                    sv = to_smt(eng, pc, True, []); sv.set("timeout", 3000)
                    if sv.check() != z3.unsat: ok = True; break
                if ok: reach += 1
                else: out.obligations.append(Obligation(name, "vacuous", backend="vcg", kind=self.kind)); out.undecided = True
                continue
            if any(re.search(p, name) for p in self.ignore): continue
            bad = None; unk = 0; used = set()
            if ob["trivial"]: used.add("simplify")
            for jx, (pc, neg, inputs) in enumerate(ob["pend"]):
                t = time.time()
                if (name, jx) in done: ob["ok"] += 1; used.add("z3"); eng.solver_s += done[name, jx]; continue
                if t > deadline: unk += 1; continue
                r, be, model = self._solve(eng, pc, neg, inputs, d, deadline)
                eng.solver_s += 0 if be == "" else time.time() - t
                if r == "unsat": ob["ok"] += 1; used.add(be)
                elif r == "sat": bad = (pc, neg, inputs, model); break
                else: unk += 1
                if unk > 3: break
            be = "vcg:" + "+".join(sorted(x for x in used if x)) if used else "vcg"
            if bad is not None:
                out.obligations.append(Obligation(name, "failed", backend=be, kind=self.kind)); fails.append((name, bad))
            elif unk: out.obligations.append(Obligation(name, "undecided: %d of %d path obligations" % (unk, ob["n"]), backend=be, kind=self.kind)); out.undecided = True
            else: out.obligations.append(Obligation(name, "ok", backend=be, kind=self.kind))
        out.solver_s += eng.solver_s
        out.notes.append("paths %d, path obligations %d, solver queries %d" % (eng.stats["paths"], sum(o["n"] for n, o in eng.obl.items() if not n.startswith("hv_reach")), eng.stats["queries"]))
        if reach == 0 and not fails:
            out.obligations.append(Obligation("reachability", "vacuous", backend="vcg", kind=self.kind)); out.undecided = True
        if fails:
            for name, (pc, neg, inputs, model) in fails:
                vals = [mval(k, model.eval(v, model_completion=True)) for k, v in inputs] if model is not None else []
                conf, txt = self._replay(d, vals)
                if conf:
                    m = re.search(r"HV_FAIL (.*)", txt)
                    out.violation = dict(obligation=name, inputs=vals, confirmed=True, how=self._how(), text=txt); return
            name, (pc, neg, inputs, model) = fails[0]
            if not self._search(d, out, name, deadline, secs=self.native_secs or 30, report_plain=False):
                out.violation = dict(obligation=name, inputs=[mval(k, model.eval(v, model_completion=True)) for k, v in inputs] if model is not None else [],
                                     confirmed=False, how=self._how(), text="model: %s" % str(model)[:4000])
        elif out.undecided:
            self._search(d, out, "undecided", deadline, secs=self.native_secs or 20, report_plain=False)
        elif TIER == "thorough" and self.native:
            self._search(d, out, "cross-check", deadline, secs=10, report_plain=False)

    def _parallel(self, eng, deadline):
        """first attempt at all path obligations, in engine option `par` processes; what z3 refutes there is proved, all else is tried again below"""
        jobs = [(n, k) for n in eng.order if not n.startswith("hv_reach:") and not any(re.search(p, n) for p in self.ignore) for k in range(len(eng.obl[n]["pend"]))]
        W = eng.o["par"]; ps = []
        for w in range(W):
            r, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for n, k in jobs[w::W]:
                        if time.time() > deadline: break
                        pc, neg, inputs = eng.obl[n]["pend"][k]; t = time.time()
                        c = [B(x) for x in pc if x is not True] + ([B(neg)] if neg is not True else []); c += eng._axioms(c)
                        for mk, tm in ((z3.SimpleSolver, 1000), (z3.Solver, 3000)):
                            sv = mk(); sv.add(c); sv.set("timeout", tm)
                            if sv.check() == z3.unsat:
                                os.write(wr, ("%d %f\n" % (jobs.index((n, k)), time.time() - t)).encode()); break
                finally: os._exit(0)
            os.close(wr); ps.append((pid, r))
        done = {}
        for pid, r in ps:
            with os.fdopen(r) as f: txt = f.read()
            os.waitpid(pid, 0)
            for l in txt.splitlines():
                a, b = l.split(); done[jobs[int(a)]] = float(b)
        return done

    def _solve(self, eng, pc, neg, inputs, d, deadline):
        """z3 (incremental core, then full), then a portfolio of external solvers; first answer wins"""
        c = [B(x) for x in pc if x is not True] + ([B(neg)] if neg is not True else []); c += eng._axioms(c)
        T = max(1, min(self.smt_timeout, deadline - time.time()))
        for mk, t in ((z3.SimpleSolver, 1.0), (z3.Solver, 2.0)):
            sv = mk(); sv.add(c); sv.set("timeout", int(min(T, t) * 1000)); r = sv.check()
            if r == z3.unsat: return "unsat", "z3", None
            if r == z3.sat: return "sat", "z3", sv.model()
        fd, fn = tempfile.mkstemp(suffix=".smt2", dir=d); os.write(fd, ("(set-logic ALL)\n" + sv.to_smt2()).encode()); os.close(fd)
        cmds = [("cvc5", ["cvc5", "--tlimit=%d" % int(T*1000), fn]), ("z3-new", ["z3-new", "-T:%d" % int(T), fn]),
                ("cvc5", ["cvc5", "--tlimit=%d" % int(T*1000), "--nl-ext-tplanes", fn]), ("z3-new", ["z3-new", "-T:%d" % int(T), "smt.arith.solver=2", fn]),
                ("z3-new", ["z3-new", "-T:%d" % int(T), "smt.random_seed=7", "sat.random_seed=7", fn])]
        ps = [(n, subprocess.Popen(["bash", "-c", "ulimit -v 6000000; exec \"$@\"", "x"] + cm, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, cm in cmds]
        ans = None; end = time.time() + T + 3; sat = None
        while ps and time.time() < end and ans is None:
            for x in list(ps):
                n, p = x
                if p.poll() is None: continue
                ps.remove(x); o = p.stdout.read().strip().split("\n")[0].strip()
                if o == "unsat": ans = n; break
                if o == "sat" and sat is None: sat = n; end = min(end, time.time() + 2)
            time.sleep(0.01)
        for n, p in ps:
            try: p.kill()
            except Exception: pass
            p.wait()
        os.unlink(fn)
        if ans: return "unsat", ans, None
        sv = z3.Solver(); sv.add(c)
        if sat:
            sv.set("timeout", int(T * 1000)); r = sv.check()
            return "sat", sat, (sv.model() if r == z3.sat else None)
        return "unknown", "", None
