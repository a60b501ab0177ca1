"""Expanded polynomials with double coefficients: {sorted tuple of atom ids: float}.  Used where the terms are large;
rounding of the coefficients (relative 1e-12 or so) is far below the tolerances of the queries built on them."""
from fractions import Fraction as F
from . import expr
from .expr import R, B, topo, lift, Poly
from .solver import LinQuery, STATS, q, z3


def fmul(p, r):
    out = {}
    get = out.get
    if len(p) > len(r):
        p, r = r, p
    items = list(r.items())
    for m1, c1 in p.items():
        if not m1:
            for m2, c2 in items:
                out[m2] = get(m2, 0.) + c1 * c2
            continue
        for m2, c2 in items:
            m = tuple(sorted(m1 + m2)) if m2 else m1
            out[m] = get(m, 0.) + c1 * c2
    return out


def fadd(p, r, s=1.):
    out = dict(p)
    get = out.get
    for m, c in r.items():
        out[m] = get(m, 0.) + s * c
    return out


def atom_name(aid):
    return Poly.atoms[aid]


def to_f(root, cache, stop=()):
    """cache: node id -> poly, shared between calls"""
    root = lift(root)
    if root.id in cache:
        return cache[root.id]
    for n in _topo(root, cache):
        if n.id in cache or isinstance(n, B):
            continue
        op, a = n.op, n.args
        if op == 'c':
            c = float(a[0])
            v = {(): c} if c else {}
        elif op == '+':
            v = dict(cache[a[0].id])
            get = v.get
            for x in a[1:]:
                for m, c in cache[x.id].items():
                    v[m] = get(m, 0.) + c
        elif op == '*':
            v = cache[a[0].id]
            for x in a[1:]:
                v = fmul(v, cache[x.id])
        elif op == '/' and set(cache[a[1].id]) <= {()} and cache[a[1].id].get((), 0.):
            k = 1. / cache[a[1].id][()]
            v = {m: c * k for m, c in cache[a[0].id].items()}
        else:
            Poly.atoms[n.id] = n
            v = {(n.id,): 1.}
        cache[n.id] = v
    return cache[root.id]


def _topo(root, cache):
    """like topo, but not below nodes that are cached already; operands of opaque operations are not expanded"""
    seen, out = set(), []
    stack = [(root, False)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen or n.id in cache:
            continue
        seen.add(n.id)
        stack.append((n, True))
        if n.op in ('+', '*', '/'):
            for a in n.args:
                if isinstance(a, expr._Node) and a.id not in seen:
                    stack.append((a, False))
    return out


def clean(p, rel=1e-13):
    """drop coefficients that are rounding residue"""
    if not p:
        return p
    s = max(abs(c) for c in p.values())
    return {m: c for m, c in p.items() if abs(c) > rel * s and abs(c) > 1e-14}


def zero(p, tol=1e-8, bound=None, timeout=60000):
    """is |p| <= tol for every value of its atoms in their boxes (monomials as independent boxed unknowns)?  one LRA query"""
    STATS.obligations += 1
    row = {m: c for m, c in p.items() if m and abs(c) > 1e-16}
    c0 = p.get((), 0.)
    tot = sum(abs(c) for c in row.values())
    L = LinQuery(timeout)
    if len(row) > 400 and bound is None:
        # one unknown per group of equal weight: the sum over a group of independent boxed unknowns in [-1,1]
        # is an unknown in [-w, w] with w the sum of the weights
        g = {}
        for m, c in row.items():
            g.setdefault(m[0], []).append(abs(c))
        row = {(k, 'group'): sum(v) for k, v in g.items()}
    for m in row:
        b = F(1)
        if bound is not None:
            for a in m:
                b *= F(bound(Poly.atoms[a]))
        L.add(L.var(m) <= q(b))
        L.add(L.var(m) >= q(-b))
    e = L.lin({m: F(c) for m, c in row.items()}, F(c0))
    L.add(z3.Or(e > q(F(tol)), e < q(-F(tol))))
    r = L.check()
    return {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown')
