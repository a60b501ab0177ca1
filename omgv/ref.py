"""Reference mathematics (oracle side): exact rational B-splines, Bernstein forms, plane geometry."""
from fractions import Fraction as F
from math import comb


def frac_list(k):
    return [F(float(x)) for x in k]


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    if not a or not b:
        return []
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def pscale(a, c):
    return [x * c for x in a]


def peval(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def pder(a):
    return [i * c for i, c in enumerate(a)][1:]


def pint(a):
    return [F(0)] + [c / (i + 1) for i, c in enumerate(a)]


def pcompose_affine(a, s, t):
    """a(s*u + t) as polynomial in u"""
    r = []
    for c in reversed(a):
        r = padd(pmul(r, [t, s]), [c])
    return r


def bernstein(a, lo, hi, deg=None):
    """Bernstein coefficients on [lo,hi] of power-basis polynomial a"""
    b = pcompose_affine(a, hi - lo, lo)
    d = max(len(b) - 1, 0) if deg is None else deg
    b = list(b) + [F(0)] * (d + 1 - len(b))
    return [sum(F(comb(i, k), comb(d, k)) * b[k] for k in range(i + 1)) for i in range(d + 1)]


def breaks(knots):
    return sorted(set(knots))


_bp_cache = {}


def basis_polys(knots, deg):
    """[(lo, hi, [poly of each basis function])] per non-empty knot interval (Cox-de Boor, exact)."""
    knots = tuple(frac_list(knots))
    key = (knots, deg)
    if key in _bp_cache:
        return _bp_cache[key]
    out = []
    br = breaks(knots)
    for lo, hi in zip(br[:-1], br[1:]):
        B = [[F(1)] if (knots[i] <= lo and knots[i + 1] >= hi) else [] for i in range(len(knots) - 1)]
        for d in range(1, deg + 1):
            N = []
            for i in range(len(knots) - d - 1):
                p = []
                den = knots[i + d] - knots[i]
                if den and B[i]:
                    p = padd(p, pmul([-knots[i] / den, 1 / den], B[i]))
                den = knots[i + d + 1] - knots[i + 1]
                if den and B[i + 1]:
                    p = padd(p, pmul([knots[i + d + 1] / den, -1 / den], B[i + 1]))
                N.append(p)
            B = N
        out.append((lo, hi, B))
    _bp_cache[key] = out
    return out


def basis_values(knots, deg, x):
    """exact values of all basis functions at x (left-continuous at the end, as the domain is closed)"""
    x = F(x)
    for lo, hi, B in basis_polys(knots, deg):
        if lo <= x <= hi:
            return [peval(p, x) for p in B]
    return [F(0)] * (len(knots) - deg - 1)


def clamped(n_int, deg, lo=0, hi=1):
    br = [lo + (hi - lo) * F(i, n_int) for i in range(n_int + 1)]
    return [float(br[0])] * deg + [float(b) for b in br] + [float(br[-1])] * deg
