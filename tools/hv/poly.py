"""Decision of polynomial / rational identities over the VC terms: exact normal forms in Q[x1..xn],
with reciprocals (w*b == 1), square roots (r*r == v) and defined symbols (x == p) eliminated."""
from fractions import Fraction
import z3
class NotPoly(Exception): pass

class Ring:
    """monomial: sorted tuple of (atom id, exponent)"""
    def __init__(s): s.memo = {}; s.atom = {}
    def const(s, c): return {(): Fraction(c)} if c != 0 else {}
    def add(s, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + k * c
            if x == 0: r.pop(m, None)
            else: r[m] = x
        return r
    def mmul(s, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for v, e in b: d[v] = d.get(v, 0) + e
        return tuple(sorted(d.items()))
    def mul(s, a, b, lim=400000):
        if len(a) * len(b) > lim * 20: raise NotPoly("too large")
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = s.mmul(m1, m2); x = r.get(m, 0) + c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
        if len(r) > lim: raise NotPoly("too large")
        return r
    def pow(s, a, n):
        r = s.const(1)
        for _ in range(n): r = s.mul(r, a)
        return r
    def of(s, t):
        if isinstance(t, (int, Fraction)): return s.const(t)
        k = t.get_id()
        if k in s.memo: return s.memo[k]
        r = s._of(t); s.memo[k] = r; return r
    def _of(s, t):
        if z3.is_int_value(t): return s.const(t.as_long())
        if z3.is_rational_value(t): return s.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        d = t.decl().kind(); a = t.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for x in a: r = s.add(r, s.of(x))
            return r
        if d == z3.Z3_OP_SUB:
            r = s.of(a[0])
            for x in a[1:]: r = s.add(r, s.of(x), -1)
            return r
        if d == z3.Z3_OP_UMINUS: return s.add({}, s.of(a[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = s.of(a[0])
            for x in a[1:]: r = s.mul(r, s.of(x))
            return r
        if d == z3.Z3_OP_POWER and z3.is_int_value(a[1]) and 0 <= a[1].as_long() <= 8: return s.pow(s.of(a[0]), a[1].as_long())
        if d == z3.Z3_OP_TO_REAL: return s.of(a[0])
        s.atom[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}
    def degree(s, p, v): return max([e for m in p for w, e in m if w == v] or [0])
    def vars(s, p): return {v for m in p for v, e in m}
    def coeffs(s, p, v):
        r = {}
        for m, c in p.items():
            e = 0; rest = []
            for w, x in m:
                if w == v: e = x
                else: rest.append((w, x))
            r.setdefault(e, {})[tuple(rest)] = c
        return r
    def subst(s, p, v, q):
        r = {}
        pw = {0: s.const(1)}
        for e, c in sorted(s.coeffs(p, v).items()):
            if e not in pw: pw[e] = s.pow(q, e)
            r = s.add(r, s.mul(c, pw[e]))
        return r

def zero(eng, p, R=None, defs=()):
    R = R or eng.ring
    for _ in range(400):
        if not p: return True
        vs = R.vars(p)
        hit = False
        # defined symbols first, newest first
        for v in sorted(vs, key=lambda v: -eng.atom_no.get(v, 0)):
            if v in eng.poly_def:
                p = R.subst(p, v, eng.poly_def[v]); hit = True; break
            if v in eng.poly_inv:
                b = eng.poly_inv[v]; co = R.coeffs(p, v); n = max(co); r = {}
                for e, c in co.items(): r = R.add(r, R.mul(c, R.pow(b, n - e)))
                p = r; hit = True; break
            if v in eng.poly_sq and R.degree(p, v) >= 2:
                V = eng.poly_sq[v]; co = R.coeffs(p, v); r = {}
                for e, c in co.items():
                    x = R.mul(c, R.pow(V, e // 2))
                    if e & 1: x = R.mul(x, {((v, 1),): Fraction(1)})
                    r = R.add(r, x)
                p = r; hit = True; break
        if not hit: return False
    return False

def identity(c, eng):
    """c holds identically (modulo the eliminations)?"""
    if z3.is_true(c): return True
    if z3.is_and(c): return all(identity(x, eng) for x in c.children())
    if not z3.is_eq(c): return False
    a, b = c.children()
    if not (z3.is_arith(a) and z3.is_arith(b)): return False
    R = eng.ring
    try: return zero(eng, R.add(R.of(a), R.of(b), -1))
    except NotPoly: return False
