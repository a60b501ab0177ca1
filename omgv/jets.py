"""Curves as jets: a stand-in for BSpline whose value at each sample instant is a term in the curve's value and derivatives there.

A Jet is what a spline is to splines2signals: something that can be differentiated, integrated, combined and sampled.  Everything
it can return at sample k is an exact function of the derivatives of the base curves at that instant, so d/dt of any sampled
quantity is a symbolic total derivative (expr.diff)."""
import contextlib
import numpy as np
from . import env, expr
from .expr import R, lift, Unsupported
import omgtools.basics.spline as spl
import omgtools.basics.spline_extra as spx


class World(object):
    """sample instants, base curves, integrals"""

    def __init__(self, n=3, order=7):
        self.n, self.order = n, order
        self.time = np.array([R.var('t%d' % k) for k in range(n)], dtype=object)
        self.d = [{} for _ in range(n)]      # per sample: symbol -> its time derivative
        self.at = {}                         # point evaluations: symbol -> value
        self.nint = 0

    def base(self, name, rate=None):
        """a free curve; rate(k): its derivative at sample k when it is tied to others"""
        v = []
        for k in range(self.n):
            s = [R.var('%s_%d@%d' % (name, i, k)) for i in range(self.order + 1)]
            for i in range(self.order):
                self.d[k][s[i]] = s[i + 1]
            self.d[k][s[-1]] = R.var('%s_%d@%d' % (name, self.order + 1, k))
            v.append(s[0])
        return Jet(self, v)

    def integral(self, j):
        self.nint += 1
        v = []
        for k in range(self.n):
            s = R.var('I%d@%d' % (self.nint, k))
            self.d[k][s] = j.v[k]
            v.append(s)
        return Jet(self, v)

    def dt(self, term, k):
        """d/dt of a quantity sampled at instant k"""
        return expr.diff(lift(term), self.d[k])

    def index(self, t):
        for k in range(self.n):
            if t is self.time[k]:
                return k
        raise Unsupported('curve evaluated away from the sample instants')

    def resolve(self, terms):
        """point evaluations replaced by what they stand for"""
        out = [lift(x) for x in terms]
        for _ in range(4):
            out = expr.substitute(out, self.at)
        return out


class _Basis(object):
    def __init__(self, j):
        self.knots, self.degree = j, 3

    def __len__(self):
        raise Unsupported('number of coefficients of a jet')


class Jet(spl.BSpline):
    __array_priority__ = 2000.

    def __init__(self, w, v):
        self.w, self.v = w, [lift(x) for x in v]
        self.basis, self.coeffs = _Basis(self), self

    def _bin(self, o, f):
        if isinstance(o, Jet):
            return Jet(self.w, [f(a, b) for a, b in zip(self.v, o.v)])
        if isinstance(o, np.ndarray):
            if o.size != 1:
                return NotImplemented
            o = o.item()
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return Jet(self.w, [f(a, o) for a in self.v])

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Jet):
            raise Unsupported('quotient of curves')
        return self._bin(o, lambda a, b: a / b)
    __div__ = __truediv__

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __pow__(self, p):
        return Jet(self.w, [x ** int(p) for x in self.v])

    def __call__(self, x):
        if isinstance(x, np.ndarray) and x.ndim:
            return self.sample(x)
        k = self.w.index(x)
        s = R.var('at%d' % len(self.w.at))
        self.w.at[s] = self.v[k]
        return s

    def sample(self, time):
        out = np.empty(len(time), dtype=object)
        for i, t in enumerate(time):
            out[i] = self.v[self.w.index(t)]
        return out

    def derivative(self, o=1):
        v = self.v
        for _ in range(int(o)):
            v = [self.w.dt(x, k) for k, x in enumerate(v)]
        return Jet(self.w, v)

    def scale(self, *a, **k):
        raise Unsupported('scaling a jet')


def _splev(x, tck, *a, **k):
    c = tck[1]
    if isinstance(c, Jet):
        if isinstance(x, np.ndarray) and x.ndim:
            return c.sample(x)
        return c(x)
    from scipy.interpolate import splev
    return splev(x, tck, *a, **k)


@contextlib.contextmanager
def executable():
    """the code under test runs on jets (and its numpy on terms)"""
    p = env.sym_modules(env.omg_modules())
    for fn, sub in ((spx.running_integral, lambda s: s.w.integral(s)), (spx.evalspline, lambda s, x: s(x)),
                    (spx.definite_integral, lambda s, a, b: (lambda q: q(b) - q(a))(s.w.integral(s))), (spx.splev, _splev)):
        p += [(m, n, sub) for m, n in env.refs_to(fn)]
    with env.patched(p):
        yield
