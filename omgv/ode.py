"""Seams for scipy: interpolation and integration on terms, exact for polynomial motion."""
import numpy as np
from fractions import Fraction
from .expr import R, lift, Unsupported
from .norm import Norm

_breaks = []


class Interp(object):
    """scipy.interpolate.interp1d for kind zero (latest sample) and linear; fill_value outside"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind not in ('linear', 'zero') or axis != -1:
            raise Unsupported('interp1d kind %s' % (kind,))
        self.x, self.y, self.kind, self.fill, self.bounds = list(np.asarray(x, object)), np.asarray(y, object), kind, fill_value, bounds_error
        for k in range(len(self.x) - 1):
            if not self.x[k] <= self.x[k + 1]:
                raise Unsupported('interp1d on unsorted samples')
        _breaks.append(self)

    def at(self, t):
        x, y = self.x, self.y
        n = len(x)
        if t < x[0] or t > x[n - 1]:
            if self.bounds is not False:
                raise ValueError('A value in x_new is outside the interpolation range.')
            return self._fill(t < x[0])
        if self.kind == 'zero':
            for k in range(n - 1, -1, -1):
                if x[k] <= t:
                    return y[..., k]
        for k in range(n - 1):
            if t <= x[k + 1]:
                if x[k] == x[k + 1]:
                    continue
                w = (t - x[k]) / (x[k + 1] - x[k])
                return y[..., k] + (y[..., k + 1] - y[..., k]) * w
        return y[..., n - 1]

    def _fill(self, below):
        f = self.fill
        if isinstance(f, tuple):
            f = f[0] if below else f[1]
        shape = self.y.shape[:-1]
        if f is None:
            raise Unsupported('not-a-number fill value')
        return np.broadcast_to(np.asarray(f, object), shape).copy()

    def __call__(self, t):
        if np.ndim(t) == 0:
            return self.at(t if not isinstance(t, np.ndarray) else t.item())
        cols = [self.at(s) for s in np.asarray(t, object).ravel()]
        return np.stack(cols, axis=-1)


def simp(v):
    nm = Norm()
    return np.array([nm.term(lift(c)) for c in v], object)


def _zero(v):
    return all(lift(c).isconst and lift(c).value == 0 for c in v)


def odeint(func, y0, t, args=(), **k):
    """exact for right-hand sides that are affine in the state (nilpotent), with an input that is linear in time
    between the samples of the interpolations in use"""
    if args:
        rhs = func
        func = lambda y, s: rhs(y, s, *args)
    y = np.array([lift(v) for v in np.asarray(y0, object).ravel()], object)
    zero = np.array([lift(0)] * len(y), object)
    out = [y.copy()]
    t = list(np.asarray(t, object))
    for k in range(len(t) - 1):
        cuts = []
        for it in _breaks:
            for x in it.x:
                if x > t[k] and x < t[k + 1]:
                    if not any(bool(lift(x) == c) for c in cuts):
                        cuts.append(lift(x))
        cuts = _sort(cuts)
        pts = [lift(t[k])] + cuts + [lift(t[k + 1])]
        for lo, hi in zip(pts[:-1], pts[1:]):
            y = _advance(func, y, lo, hi, zero)
        out.append(y.copy())
    return np.array(out, object)


def _sort(xs):
    out = []
    for x in xs:
        i = 0
        while i < len(out) and out[i] < x:
            i += 1
        out.insert(i, x)
    return out


def _advance(func, y, lo, hi, zero):
    h = hi - lo
    t1, t2 = lo + h * Fraction(1, 3), lo + h * Fraction(2, 3)
    f1, f2 = func(zero, t1), func(zero, t2)
    slope = simp(np.array([lift(p) - lift(q) for p, q in zip(f2, f1)], object))
    if _zero(slope):
        g = f1
    else:
        slope = np.array([s / (t2 - t1) for s in slope], object)
        g = np.array([p - s * (t1 - lo) for p, s in zip(f1, slope)], object)

    def L(v):
        return simp([lift(p) - lift(q) for p, q in zip(func(v, t1), f1)])
    _check_linear(L, len(y))
    d = simp([lift(p) + lift(q) for p, q in zip(L(y), g)])
    s, fact, order = y, Fraction(1), 0
    power = lift(1)
    while not _zero(d):
        order += 1
        if order > 9:
            raise Unsupported('motion is not polynomial')
        power, fact = power * h, fact * order
        s = np.array([p + q * power * (1 / fact) for p, q in zip(s, d)], object)
        d = L(d) if order > 1 else simp([p + lift(q) for p, q in zip(L(d), slope)])
    return s


def _check_linear(L, n):
    a = np.array([lift(Fraction((3 * i + 2) % 7 - 3, 2)) for i in range(n)], object)
    b = np.array([lift(Fraction((5 * i + 1) % 11 - 4, 3)) for i in range(n)], object)
    for p, q, r in zip(L(a + b), L(a), L(b)):
        e = simp([lift(p) - lift(q) - lift(r)])[0]
        if not e.isconst or abs(e.value) > 1e-9:
            raise Unsupported('right-hand side is not linear')


def stubs(mods, odeint_obj=None, interp_obj=None):
    import scipy.integrate as si
    import scipy.interpolate as sp
    del _breaks[:]
    out = []
    for m in mods:
        for n, v in list(m.__dict__.items()):
            if v is si.odeint:
                out.append((m, n, odeint))
            elif v is sp.interp1d:
                out.append((m, n, Interp))
    return out


def fresh():
    del _breaks[:]
