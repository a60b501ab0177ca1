"""Do the rows of a captured NLP imply a claim for every value of its variables?

Rows and claims are expanded polynomials; every distinct monomial is one unknown (a relaxation, so a proof stands).
A floating-point LP picks the rows that matter, z3 decides  rows and boxes and claim > tol  exactly (LRA)."""
from fractions import Fraction as F
from math import comb
import numpy as np
import casadi as cas
import scipy.sparse as sp
from scipy.optimize import linprog
from . import expr, ref, fpoly, lin
from .expr import R, B, lift, Poly, topo
from .fpoly import to_f, fmul, fadd, clean
from .solver import LinQuery, STATS, q, z3

ONE = {(): 1.}


def cst(c):
    return {(): float(c)} if c else {}


# ------------------------------------------- piecewise polynomials, Bernstein form

class FPW(object):
    """pieces: [(lo, hi, [Bernstein coefficient polynomials])] on common break points"""

    def __init__(self, p):
        self.p = p

    @staticmethod
    def spline(knots, deg, coeffs):
        return FPW([(lo, hi, [_comb(row, coeffs) for row in M]) for lo, hi, M in bmat(knots, deg)])

    @staticmethod
    def const(breaks, poly):
        return FPW([(a, b, [poly]) for a, b in zip(breaks[:-1], breaks[1:])])

    @property
    def breaks(self):
        return [a for a, _, _ in self.p] + [self.p[-1][1]]

    def _co(self, o):
        if isinstance(o, FPW):
            return self.refine(o.breaks).p, o.refine(self.breaks).p
        if isinstance(o, dict):
            pass
        elif isinstance(o, R):
            o = to_f(o, {})
        else:
            o = cst(o)
        return self.p, [(a, b, [o]) for a, b, _ in self.p]

    def refine(self, br):
        out = []
        for lo, hi, c in self.p:
            cur = lo
            rest = c
            for x in [b for b in br if lo + 1e-12 < b < hi - 1e-12]:
                l, rest = _split(rest, (x - cur) / (hi - cur))
                out.append((cur, x, l))
                cur = x
            out.append((cur, hi, rest))
        return FPW(out)

    def __add__(self, o):
        a, b = self._co(o)
        return FPW([(l, h, _badd(x, y)) for (l, h, x), (_, _, y) in zip(a, b)])
    __radd__ = __add__

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        return self + (-o if isinstance(o, (FPW, R)) else _neg(o) if isinstance(o, dict) else -o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float, np.floating, F)):
            return FPW([(l, h, [{m: v * float(o) for m, v in x.items()} for x in c]) for l, h, c in self.p])
        a, b = self._co(o)
        return FPW([(l, h, _bmul(x, y)) for (l, h, x), (_, _, y) in zip(a, b)])
    __rmul__ = __mul__

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def der(self, o=1):
        r = self
        for _ in range(o):
            r = FPW([(l, h, [_lc([(c[i + 1], (len(c) - 1) / (h - l)), (c[i], -(len(c) - 1) / (h - l))]) for i in range(len(c) - 1)] or [{}])
                     for l, h, c in r.p])
        return r

    def integ(self):
        acc, out = {}, []
        for l, h, c in self.p:
            n = len(c)
            b = [acc]
            for i in range(n):
                b.append(fadd(b[-1], c[i], (h - l) / n))
            out.append((l, h, b))
            acc = b[-1]
        return FPW(out)

    def at(self, x):
        for l, h, c in self.p:
            if l - 1e-12 <= x <= h + 1e-12:
                u = (x - l) / (h - l)
                d = len(c) - 1
                return _lc([(c[i], comb(d, i) * u ** i * (1 - u) ** (d - i)) for i in range(d + 1)])
        raise ValueError('outside')

    def ev(self, num, x):
        return feval(self.at(x), num)

    def coefs(self):
        return [(l, h, i, clean(v)) for l, h, c in self.p for i, v in enumerate(c)]


def feval(p, num):
    """num: atom id -> number"""
    s = 0.
    for m, c in p.items():
        v = c
        for a in m:
            v *= num[a]
        s += v
    return s


def _neg(p):
    return {m: -c for m, c in p.items()}


def _comb(row, coeffs):
    return _lc([(c if isinstance(c, dict) else to_f(lift(c), {}), w) for w, c in zip(row, coeffs) if w])


def _lc(items):
    out = {}
    for p, w in items:
        if not w:
            continue
        for m, c in p.items():
            out[m] = out.get(m, 0.) + w * c
    return out


def _elev(c, d):
    """raise the degree to d"""
    while len(c) - 1 < d:
        n = len(c)
        c = [_lc([(c[i - 1], i / n) if i else ({}, 0), (c[i], 1 - i / n) if i < n else ({}, 0)]) for i in range(n + 1)]
    return c


def _badd(a, b):
    d = max(len(a), len(b)) - 1
    return [fadd(x, y) for x, y in zip(_elev(a, d), _elev(b, d))]


def _bmul(a, b):
    m, n = len(a) - 1, len(b) - 1
    return [_lc([(fmul(a[i], b[k - i]), comb(m, i) * comb(n, k - i) / comb(m + n, k)) for i in range(max(0, k - n), min(m, k) + 1)])
            for k in range(m + n + 1)]


def _split(c, u):
    l, r, cur = [c[0]], [c[-1]], c
    while len(cur) > 1:
        cur = [_lc([(cur[i], 1 - u), (cur[i + 1], u)]) for i in range(len(cur) - 1)]
        l.append(cur[0])
        r.append(cur[-1])
    return l, r[::-1]


_bm = {}


def bmat(knots, deg):
    key = (tuple(float(k) for k in knots), deg)
    if key not in _bm:
        out = []
        for lo, hi, Bp in ref.basis_polys(list(key[0]), deg):
            M = [[0.] * len(Bp) for _ in range(deg + 1)]
            for j, p in enumerate(Bp):
                if any(p):
                    for i, v in enumerate(ref.bernstein(list(p), F(lo), F(hi), deg)):
                        M[i][j] = float(v)
            out.append((float(lo), float(hi), M))
        _bm[key] = out
    return _bm[key]


# ------------------------------------------------------------------ the decision

class Engine(object):
    rel = 1e-10         # relative to sum |coefficient| * box: rounding of the row coefficients

    def __init__(self, rows, box=1e3, tol=1e-6, label=''):
        """rows: [(poly, lb, ub)]"""
        self.rows = []
        self.by = {}
        for p, lo, hi in rows:
            p = clean(p)
            c0 = p.pop((), 0.) if () in p else 0.
            if not p:
                continue
            i = len(self.rows)
            self.rows.append((p, lo - c0, hi - c0))
            for m in p:
                self.by.setdefault(m, []).append(i)
        self.box, self.tol = box, tol
        self.refuted = None
        self.used = {}

    def bound(self, m):
        if callable(self.box):
            b = 1.
            for a in m:
                b *= self.box(Poly.atoms[a])
            return b
        return self.box

    def near(self, mons, hops):
        mons = set(mons)
        rows = set()
        for _ in range(hops):
            new = set()
            for m in mons:
                for i in self.by.get(m, ()):
                    if i not in rows:
                        rows.add(i)
                        new.update(self.rows[i][0])
            mons |= new
        return sorted(rows)

    def single(self, p, c0):
        """a single row that is the claim up to a factor (rounding of the row coefficients left as residual)"""
        m0 = max(p, key=lambda m: abs(p[m]))
        for i in self.by.get(m0, ()):
            row, lo, hi = self.rows[i]
            w = p[m0] / row[m0]
            if len(row) > 2 * len(p) or not np.isfinite(hi if w > 0 else lo):
                continue
            big = max(abs(x) for x in p.values()) * 1e-6
            if any(abs(row.get(m, 0.) * w - c) > big for m, c in p.items()) or any(m not in p and abs(c * w) > big for m, c in row.items()):
                continue
            num = sum(c * row.get(m, 0.) for m, c in p.items())
            w = num / sum(c * c for c in row.values())
            self.lam = [(i, 1. if w > 0 else -1., abs(w))]
            if self._cert(p, c0, polish=False) == 'unsat':
                return True
        return False

    def claim(self, p, extra=()):
        """'proved' | 'refuted' | 'unknown' for  p <= 0 (within tol)"""
        tol = self.tol
        self.tol = max(tol, self.rel * sum(abs(c) * self.bound(m) for m, c in p.items() if m))
        try:
            return self._claim(p)
        finally:
            self.tol = tol

    def _claim(self, p):
        STATS.obligations += 1
        p = clean(p)
        c0 = p.get((), 0.)
        p = {m: c for m, c in p.items() if m}
        if not p:
            STATS.queries += 1
            STATS.unsat += 1
            return 'proved' if c0 <= self.tol else 'refuted'
        if self.single(p, c0):
            return 'proved'
        last = None
        for hops in (1, 2, 4):
            ri = self.near(p, hops)
            if last == ri:
                break
            last = ri
            v, act = self._lp(p, c0, ri)
            if v is not None and v <= self.tol:
                r = self._cert(p, c0)
                if r == 'unsat':
                    return 'proved'
                r = self._z3(p, c0, act)
                if r == 'unsat':
                    return 'proved'
                if r == 'sat':
                    r = self._z3(p, c0, ri)
                    if r == 'unsat':
                        return 'proved'
        if v is not None and v > 100 * self.tol:
            STATS.queries += 1
            STATS.sat += 1
            return 'refuted'
        r = self._z3(p, c0, last if last is not None else [])
        return {'sat': 'refuted', 'unsat': 'proved'}.get(r, 'unknown')

    def _lp(self, p, c0, ri):
        mons = {}
        for m in p:
            mons.setdefault(m, len(mons))
        for i in ri:
            for m in self.rows[i][0]:
                mons.setdefault(m, len(mons))
        c = np.zeros(len(mons))
        for m, v in p.items():
            c[mons[m]] = -v
        ui, uj, uv, ub, own, sgn = [], [], [], [], [], []
        for i in ri:
            poly, lo, hi = self.rows[i]
            for s, b in ((1., hi), (-1., -lo)):
                if np.isfinite(b):
                    k = len(ub)
                    ub.append(b)
                    own.append(i)
                    sgn.append(s)
                    for m, v in poly.items():
                        ui.append(k)
                        uj.append(mons[m])
                        uv.append(s * v)
        A = sp.csr_matrix((uv, (ui, uj)), shape=(len(ub), len(mons))) if ub else None
        bnds = [(-self.bound(m), self.bound(m)) for m in mons]
        try:
            r = linprog(c, A_ub=A, b_ub=ub if ub else None, bounds=bnds, method='highs')
        except Exception:
            return None, []
        if r.status == 2:
            return -np.inf, ri
        if r.status != 0:
            return None, []
        self.lam = []
        if ub:
            for k in np.nonzero(np.abs(r.ineqlin.marginals) > 1e-11)[0]:
                self.lam.append((own[k], sgn[k], float(abs(r.ineqlin.marginals[k]))))
        act = sorted({own[k] for k in np.nonzero(np.abs(r.ineqlin.marginals) > 1e-11)[0]}) if ub else []
        return -r.fun + c0, act

    def _cert(self, p, c0, polish=True):
        """the claim as combination of the rows plus a residual: decided over the row values and the residual monomials"""
        lam = self._polish(p) if polish else self.lam
        res = {m: F(v) for m, v in p.items()}
        L = LinQuery(20000)
        comb_ = {}
        for i, s, w in lam:
            poly, lo, hi = self.rows[i]
            fw = F(w) * (1 if s > 0 else -1)
            for m, v in poly.items():
                res[m] = res.get(m, 0) - fw * F(v)
            comb_[('row', i)] = comb_.get(('row', i), 0) + fw
            y = L.var(('row', i))
            if np.isfinite(hi):
                L.add(y <= q(F(hi)))
            if np.isfinite(lo):
                L.add(y >= q(F(lo)))
        small = F(0)
        big = {}
        for m, v in res.items():
            if abs(v) * F(self.bound(m)) > F(self.tol) / 100:
                big[m] = v
            else:
                small += abs(v) * F(self.bound(m))
        for m in big:
            b = q(F(self.bound(m)))
            L.add(L.var(m) <= b)
            L.add(L.var(m) >= -b)
        if small:
            big['rest'] = F(1)
            L.add(L.var('rest') <= q(small))
        big.update(comb_)
        L.add(L.lin(big, F(c0)) > q(F(self.tol) * 2))
        return L.check()

    def _polish(self, p):
        """the LP solver's multipliers, refined by least squares on the same active rows"""
        lam = self.lam
        if not lam:
            return lam
        mons = {}
        for m in p:
            mons.setdefault(m, len(mons))
        for i, s, w in lam:
            for m in self.rows[i][0]:
                mons.setdefault(m, len(mons))
        b = np.zeros(len(mons))
        A = np.zeros((len(mons), len(lam)))
        for m, v in p.items():
            b[mons[m]] = v
        for j, (i, s, w) in enumerate(lam):
            for m, v in self.rows[i][0].items():
                A[mons[m], j] += s * v
        x = np.array([w for _, _, w in lam])
        r = b - A @ x
        keep = np.abs(r) < 1e-4     # monomials the combination is meant to cancel
        try:
            x = np.maximum(x + np.linalg.lstsq(A[keep], r[keep], rcond=1e-13)[0], 0.)
        except np.linalg.LinAlgError:
            return lam
        return [(i, s, float(w)) for (i, s, _), w in zip(lam, x) if w]

    def _z3(self, p, c0, ri, timeout=20000):
        L = LinQuery(timeout)
        mons = set(p)
        for i in ri:
            poly, lo, hi = self.rows[i]
            mons.update(poly)
            e = L.lin({m: F(v) for m, v in poly.items()})
            if lo == hi:
                # equality within the solver tolerance of the rows
                L.add(e <= q(F(hi)))
                L.add(e >= q(F(lo)))
                continue
            if np.isfinite(hi):
                L.add(e <= q(F(hi)))
            if np.isfinite(lo):
                L.add(e >= q(F(lo)))
        for m in mons:
            b = q(F(self.bound(m)))
            L.add(L.var(m) <= b)
            L.add(L.var(m) >= -b)
        L.add(L.lin({m: F(v) for m, v in p.items()}, F(c0)) > q(F(self.tol) * 2))
        return L.check()

    def all(self, curve):
        """curve <= 0 over its domain? -> ('proved', n) | ('refuted', (lo, hi, i)) | ('unknown', where)"""
        n = 0
        for l, h, i, p in curve.coefs():
            r = self.claim(p)
            if r != 'proved':
                return r, (l, h, i, p)
            n += 1
        return 'proved', n


# ------------------------------------------------------- a captured model as rows

class Prob(object):
    """captured model with (part of) its parameter vector fixed or replaced by terms"""

    def __init__(self, built, fix=None, facts=(), time=0.):
        """fix: {term of the parameter/decision vector: number or term}"""
        self.b = built
        self.M = built.model()
        f, g = self.M.rows()
        self.g0 = g
        self.sub = {k: lift(v) for k, v in (fix or {}).items()}
        for child, vals in obstacle_values(built).items():
            for n, v in vals.items():
                if (child, n) in self.M.pix:
                    for ix, x in zip(self.M.pix[(child, n)].ravel('F'), np.asarray(v, dtype=object).reshape(self.M.pix[(child, n)].shape, order='F').ravel('F')):
                        self.sub.setdefault(self.M.P[ix], lift(x))
        g = expr.substitute(list(g), self.sub) if self.sub else list(g)
        if any(n.op == 'ite' for n in topo(g)):
            g = lin.resolve(g, list(facts))
        self.g = g
        lb, ub = built.problem.father.update_bounds(time)
        self.lb = np.array(cas.DM(lb.cat)).ravel()
        self.ub = np.array(cas.DM(ub.cat)).ravel()
        self.cache = {}

    def f(self, term):
        if isinstance(term, dict):
            return term
        if self.sub:
            term = expr.substitute([lift(term)], self.sub)[0]
        return to_f(term, self.cache)

    def rows(self):
        return [(self.f(x), l, u) for x, l, u in zip(self.g, self.lb, self.ub)]

    def engine(self, box=1e3, tol=1e-6):
        return Engine(self.rows(), box, tol)

    def spline(self, child, name):
        """declared spline variable/parameter -> list of FPW, one per column"""
        v = self.M.q[(child, name)]
        b = self.M.log.basis[(child, name)]
        return [FPW.spline(b.knots, b.degree, [self.f(x) for x in v[:, k]]) for k in range(v.shape[1])]

    def vehicle_splines(self, veh, seg=0):
        return self.spline(veh, 'splines_seg%d' % seg)


def obstacle_values(built):
    """parameters of every obstacle as its own set_parameters gives them for a symbolic motion"""
    out = {}
    for i, o in enumerate(built.obstacles):
        keep = o.signals
        o.signals = dict(keep)
        for s, nm in (('position', 'ox'), ('velocity', 'ov'), ('acceleration', 'oa')):
            o.signals[s] = np.array([[R.var('%s%d_%d' % (nm, i, k))] for k in range(o.n_dim)], dtype=object)
        try:
            out.update(o.set_parameters(0.))
        finally:
            o.signals = keep
    return out
