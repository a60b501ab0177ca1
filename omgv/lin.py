"""Linear deciding queries over monomials, conditional resolution, piecewise polynomials with symbolic coefficients."""
from fractions import Fraction as F
import numpy as np
from . import expr, ref
from .expr import R, B, topo, lift, to_poly, Poly, add, mul, liftb
from .solver import LinQuery, ToZ3, check, STATS, q, Explorer, prove, z3


def resolve(roots, facts, timeout=10000):
    """rewrite the terms, replacing every comparison that the facts decide.  Facts are asserted once; every
    comparison costs at most two solver queries."""
    s = z3.Solver()
    s.set('timeout', timeout)
    conv = ToZ3()
    for f in facts:
        z = conv(liftb(f))
        for c in conv.flush():
            s.add(c)
        s.add(z)
    sub = {}
    for n in topo(list(roots)):
        if n.op in ('<', '<=', '==') and isinstance(n, B):
            if any(a.op not in ('c', 'v', '+', '*') for a in n.args):
                if any(x.op in ('ite', 'sqrt', 'f', '/') for x in topo([n])):
                    continue
            z = conv(n)
            for c in conv.flush():
                s.add(c)
            for val, zz in ((expr.TRUE, z3.Not(z)), (expr.FALSE, z)):
                s.push()
                s.add(zz)
                r = _timed(s)
                s.pop()
                if r == z3.unsat:
                    sub[n] = val
                    break
    return expr.substitute(list(roots), sub) if sub else list(roots)


def _timed(s):
    import time
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


def mono_bound(m, bounds):
    b = F(1)
    for aid, e in m:
        n = Poly.atoms[aid]
        v = bounds(n) if callable(bounds) else bounds.get(n, 1)
        b *= F(v) ** e
    return b


def zero_query(diffs, bounds=None, tol=1e-8, timeout=60000):
    """is |diff_i| <= tol for all i and all values of the atoms in their boxes?  Every distinct monomial is one
    independent variable in its own interval, which over-approximates the box.
    returns ('proved', None) or ('refuted', index) or ('unknown', None)"""
    bounds = bounds or (lambda n: 1)
    cache = {}
    tol = F(tol)
    STATS.obligations += 1
    if not len(diffs):
        return 'proved', None
    verdict = 'proved', None
    for i, d in enumerate(diffs):
        p = to_poly(lift(d), cache) if not isinstance(d, Poly) else d
        row = {m: c for m, c in p.t.items() if m}
        c0 = p.t.get((), F(0))
        if not row and abs(c0) <= tol:
            STATS.queries += 1
            STATS.unsat += 1
            continue
        # one row over independent boxed monomials
        L = LinQuery(timeout)
        for m in row:
            b = mono_bound(m, bounds)
            L.add(L.var(m) <= q(b))
            L.add(L.var(m) >= q(-b))
        e = L.lin(row, c0)
        L.add(z3.Or(e > q(tol), e < q(-tol)))
        r = L.check()
        if r == 'sat':
            return 'refuted', i
        if r == 'unknown':
            verdict = 'unknown', None
    return verdict


def point_model(diff, bounds, tol, timeout=30000, extra=()):
    """concrete atoms with |diff| > tol (solver), for a refuted zero query"""
    vs = [n for n in topo([diff]) if n.op == 'v']
    cs = list(extra)
    for v in vs:
        b = F(bounds(v) if callable(bounds) else bounds.get(v, 1))
        cs += [v <= b, v >= -b]
    # look for a gross violation first: easier to replay
    for t in (F(1, 10), F(1, 1000), F(tol)):
        for s in (1, -1):
            r, m = check(cs + [diff * s > t], timeout)
            if r == 'sat':
                return m
    return None


# ------------------------------------------------------- piecewise polynomials

class PW(object):
    """piecewise polynomial: [(lo, hi, [term coefficients])]"""

    def __init__(self, pieces):
        self.p = pieces

    @staticmethod
    def spline(knots, deg, coeffs):
        out = []
        for lo, hi, Bp in ref.basis_polys([float(k) for k in knots], deg):
            cs = [R.const(0)] * (deg + 1)
            for j, p in enumerate(Bp):
                for k, v in enumerate(p):
                    if v:
                        cs[k] = cs[k] + lift(coeffs[j]) * R.const(v)
            out.append((lo, hi, cs))
        return PW(out)

    @property
    def dom(self):
        return self.p[0][0], self.p[-1][1]

    def refine(self, br):
        out = []
        for lo, hi, c in self.p:
            inner = [lo] + [b for b in br if lo < b < hi] + [hi]
            out += [(a, b, c) for a, b in zip(inner[:-1], inner[1:])]
        return PW(out)

    def breaks(self):
        return [a for a, _, _ in self.p] + [self.p[-1][1]]

    def bin(self, o, f):
        br = sorted(set(self.breaks()) | set(o.breaks()))
        a, b = self.refine(br), o.refine(br)
        return PW([(l, h, f(x, y)) for (l, h, x), (_, _, y) in zip(a.p, b.p)])

    def __add__(self, o):
        if not isinstance(o, PW):
            return PW([(l, h, _padd(c, [lift(o)])) for l, h, c in self.p])
        return self.bin(o, _padd)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, PW):
            return PW([(l, h, [lift(o) * x for x in c]) for l, h, c in self.p])
        return self.bin(o, _pmul)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def der(self, o=1):
        r = self
        for _ in range(o):
            r = PW([(l, h, [R.const(k) * x for k, x in enumerate(c)][1:] or [R.const(0)]) for l, h, c in r.p])
        return r

    def integ(self):
        """running integral, zero at the left end"""
        acc = R.const(0)
        out = []
        for l, h, c in self.p:
            P = [R.const(0)] + [x * F(1, k + 1) for k, x in enumerate(c)]
            P[0] = acc - _pev(P, l)
            out.append((l, h, P))
            acc = _pev(P, h)
        return PW(out)

    def at(self, x):
        """value term at a concrete point"""
        x = F(x)
        for l, h, c in self.p:
            if l <= x <= h:
                return _pev(c, x)
        raise ValueError('outside the domain')

    def affine(self, s, t):
        """curve x -> self(s*x+t) on the pre-image of the domain, s>0"""
        s, t = F(s), F(t)
        return PW([((l - t) / s, (h - t) / s, _pcomp(c, s, t)) for l, h, c in self.p])

    def restrict(self, a, b):
        a, b = F(a), F(b)
        return PW([(max(l, a), min(h, b), c) for l, h, c in self.p if min(h, b) > max(l, a)])

    def bern(self, deg=None):
        """[(lo, hi, Bernstein coefficient terms)]"""
        out = []
        for l, h, c in self.p:
            b = _pcomp(c, h - l, l)
            d = max(len(b) - 1, 0) if deg is None else deg
            b = list(b) + [R.const(0)] * (d + 1 - len(b))
            out.append((l, h, [sum((b[k] * F(ref.comb(i, k), ref.comb(d, k)) for k in range(i + 1)), R.const(0)) for i in range(d + 1)]))
        return out


def _padd(a, b):
    n = max(len(a), len(b))
    z = R.const(0)
    return [(a[i] if i < len(a) else z) + (b[i] if i < len(b) else z) for i in range(n)]


def _pmul(a, b):
    r = [R.const(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def _pev(c, x):
    r = R.const(0)
    for v in reversed(c):
        r = r * R.const(x) + v if not isinstance(x, R) else r * x + v
    return r


def _pcomp(c, s, t):
    """c(s*u+t)"""
    r = [R.const(0)]
    for v in reversed(c):
        r = _padd(_pmul(r, [R.const(t), R.const(s)]), [v])
    return r[:max(len(c), 1)]


def curve_diffs(a, b, snap=1e-9):
    """terms that vanish iff the two piecewise polynomials agree; None if their domains differ"""
    a, b = _snap(a, b, snap)
    if a is None:
        return None
    d = a - b
    out = []
    for l, h, c in d.bern():
        out += c
    return out


def _snap(a, b, tol):
    """break points of b that differ from those of a by rounding are moved onto them"""
    ba = a.breaks()
    if abs(float(ba[0] - b.breaks()[0])) > tol or abs(float(ba[-1] - b.breaks()[-1])) > tol:
        return None, None

    def sn(x):
        for y in ba:
            if abs(float(x - y)) <= tol:
                return y
        return x
    pb = [(sn(l), sn(h), c) for l, h, c in b.p]
    return a, PW([(l, h, c) for l, h, c in pb if h > l])


# ------------------------------------------------------------- rational forms

def to_ratio(root, cache=None):
    """(num Poly, den Poly) of a term built from + * / over atoms"""
    cache = {} if cache is None else cache
    for n in topo([root]):
        if n.id in cache or isinstance(n, B):
            continue
        op, a = n.op, n.args
        if op == 'c':
            v = (Poly.const(a[0]), Poly.const(1))
        elif op == '+':
            v = cache[a[0].id]
            for x in a[1:]:
                nx, dx = cache[x.id]
                if dx.t == v[1].t:
                    v = (v[0] + nx, dx)
                else:
                    v = (v[0] * dx + nx * v[1], v[1] * dx)
        elif op == '*':
            v = cache[a[0].id]
            for x in a[1:]:
                v = (v[0] * cache[x.id][0], v[1] * cache[x.id][1])
        elif op == '/':
            (n0, d0), (n1, d1) = cache[a[0].id], cache[a[1].id]
            v = (n0 * d1, d0 * n1)
        else:
            v = (Poly.atom(n), Poly.const(1))
        cache[n.id] = v
    return cache[root.id]


def poly_term(p):
    r = R.const(0)
    for m, c in p.t.items():
        x = R.const(c)
        for aid, e in m:
            for _ in range(e):
                x = x * Poly.atoms[aid]
        r = r + x
    return r
