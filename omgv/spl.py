"""Running the real spline code on symbolic coefficients (numeric route and CasADi route)."""
import itertools
from fractions import Fraction as F
import numpy as np
import casadi as cas
from . import env, expr, casx, ref
from .env import patched, sym_modules, np as _np
from .expr import R, lift, symvec, to_poly
from .lin import PW, zero_query, point_model, curve_diffs, resolve
from .solver import Explorer, prove, check
import omgtools.basics.spline as S
import omgtools.basics.spline_extra as SE
from omgtools.basics.spline import BSpline, BSplineBasis

TOL = 1e-7
_cnt = itertools.count()
_md5 = S.md5


def _sym_md5(data):
    if getattr(data, 'dtype', None) == object:
        return b'sym%d' % next(_cnt)     # results on terms depend on the path: never shared
    return _md5(data)


class DenseSym(object):
    """what csr_matrix_alt is to floats, for a matrix of terms"""

    def __init__(self, M):
        self.M = np.array(M, dtype=object)
        self.shape = self.M.shape

    def dot(self, o):
        if isinstance(o, DenseSym):
            return DenseSym(np.dot(self.M, o.M))
        if hasattr(o, 'toarray'):
            return DenseSym(np.dot(self.M, o.toarray()))
        return np.dot(self.M, o)

    def toarray(self):
        return self.M

    @property
    def T(self):
        return DenseSym(self.M.T)

    def __getitem__(self, i):
        return DenseSym(self.M[i]) if isinstance(self.M[i], np.ndarray) and self.M[i].ndim == 2 else self.M[i]


class _CsrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S._omgv_csr if hasattr(S, '_omgv_csr') else CSR, DenseSym))


CSR = S.csr_matrix_alt


class Csr(object):
    def __new__(cls, M, *a, **k):
        if isinstance(M, DenseSym):
            return M
        if isinstance(M, np.ndarray) and M.dtype == object:
            if any(isinstance(v, R) and not v.isconst for v in M.ravel()):
                return DenseSym(M)
            M = M.astype(float)
        return CSR(M, *a, **k)


class _La(object):
    def __getattr__(self, n):
        import scipy.linalg as la
        return getattr(la, n)

    def solve(self, A, b, *a, **k):
        import scipy.linalg as la
        A, b = np.asarray(A), np.asarray(b)
        if A.dtype == object and all(not isinstance(v, R) or v.isconst for v in A.ravel()):
            A = A.astype(float)
        if b.dtype == object:
            if A.dtype == object:
                return env._gauss(A, b)
            return np.dot(la.inv(A), b)
        return la.solve(A, b, *a, **k)


LA = _La()


def _mtimes(a, b, *r):
    if isinstance(a, R) or isinstance(b, (R, expr.B)):
        return lift(a) * lift(b)
    if np.ndim(a) == 0 and np.ndim(b) == 0 and not isinstance(a, (cas.MX, cas.SX)) and not isinstance(b, (cas.MX, cas.SX)):
        return a * b
    if isinstance(a, np.ndarray) and a.dtype == object or isinstance(b, np.ndarray) and b.dtype == object:
        return np.dot(a, b)
    return cas.mtimes(a, b, *r)


def splev_stub(x, tck, der=0, ext=0):
    """scipy.interpolate.splev is linear in the coefficients: evaluate it on unit vectors"""
    from scipy.interpolate import splev
    t, c, k = tck
    c = np.asarray(c)
    if c.dtype != object:
        return splev(x, tck, der, ext)
    t = np.array([float(v) for v in t])
    c = c.ravel()
    n = len(t) - k - 1
    xs = np.array([float(v) for v in np.ravel(x)])
    out = np.empty(len(xs), dtype=object)
    out[:] = R.const(0)
    for j in range(min(n, len(c))):
        e = np.zeros(len(c))
        e[j] = 1.
        w = np.atleast_1d(splev(xs, (t, e, k), der, ext))
        for i in range(len(xs)):
            if w[i]:
                out[i] = out[i] + lift(c[j]) * R.const(w[i])
    return out.reshape(np.shape(x)) if np.ndim(x) else out[0]


def spline_patches(mods=None):
    import scipy.linalg as la
    from scipy.interpolate import splev
    t = sym_modules(mods if mods is not None else [S, SE])
    t += [(S, 'md5', _sym_md5), (S, 'csr_matrix_alt', Csr)]
    for m, n in env.refs_to(la):
        t.append((m, n, LA))
    for m, n in env.refs_to(cas.mtimes):
        t.append((m, n, _mtimes))
    for m, n in env.refs_to(splev):
        t.append((m, n, splev_stub))
    return t


# ----------------------------------------------------------------- bases

def clamp(inner, deg, lo, hi):
    return np.array([lo] * (deg + 1) + list(inner) + [hi] * (deg + 1), dtype=float)


def uniform(n, deg, lo=0., hi=1.):
    return np.r_[lo * np.ones(deg), np.linspace(lo, hi, n + 1), hi * np.ones(deg)]


BASES = {
    'd0n2': ([0, 0.5, 1], 0),
    'd0n3': ([0, 0.25, 0.75, 1], 0),
    'd2jump': ([0, 0, 0, 0.5, 0.5, 0.5, 1, 1, 1], 2),
    'd1n1': (uniform(1, 1), 1), 'd1n3': (uniform(3, 1), 1), 'd2n2': (uniform(2, 2), 2), 'd2n5': (uniform(5, 2), 2),
    'd3n1': (uniform(1, 3), 3), 'd3n2': (uniform(2, 3), 3), 'd3n5': (uniform(5, 3), 3), 'd3n10': (uniform(10, 3), 3),
    'd4n3': (uniform(3, 4), 4), 'd5n2': (uniform(2, 5), 5),
    'd3nonuni': (clamp([.2, .3, .7], 3, 0., 1.), 3), 'd2nonuni': (clamp([.1, .6], 2, 0., 1.), 2),
    'd3mult': (clamp([.25, .5, .5, .75], 3, 0., 1.), 3), 'd2mult': (clamp([.5, .5], 2, 0., 1.), 2),
    'd3dom': (uniform(4, 3, 2., 5.), 3), 'd2T': (uniform(3, 2, 0., 10.), 2), 'd1neg': (uniform(3, 1, -1., 2.), 1),
}

# curves with jumps are only used for sums and products
JUMPS = ('d0n2', 'd0n3', 'd2jump')
SMOOTH = [b for b in BASES if b not in JUMPS]


def basis(name):
    k, d = BASES[name]
    return BSplineBasis(np.array(k), d)


class Spec(object):
    """one operation: fn on the real splines, ref on exact piecewise polynomials"""

    def __init__(self, name, bases, fn, ref, routes=('num', 'mx'), tol=TOL, consts=0, atoms=None):
        self.name, self.bases, self.fn, self.ref, self.routes, self.tol = name, bases, fn, ref, routes, tol
        self.consts = consts


def is_spline(x):
    return isinstance(x, BSpline)


def _flat(v):
    if isinstance(v, np.ndarray):
        return [lift(x) for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += _flat(x)
        return out
    return [lift(v)]


def coef_terms(c):
    return _flat(np.asarray(c, dtype=object)) if not isinstance(c, (cas.MX, cas.DM)) else [lift(float(x)) for x in np.array(cas.DM(c)).ravel()]


def run_num(spec):
    """paths of the numeric route: (pc, results, exception)"""
    cs = [symvec('c%d' % i, len(basis(b))) for i, b in enumerate(spec.bases)]

    def go():
        sp = [BSpline(basis(b), c.copy()) for b, c in zip(spec.bases, cs)]
        return spec.fn(sp)
    with patched(spline_patches()):
        for pc, res, exc in Explorer([], timeout=20000).run(go):
            yield pc, res, exc


def run_mx(spec):
    """CasADi route: results with coefficients translated to terms"""
    n = [len(basis(b)) for b in spec.bases]
    ms = [cas.MX.sym('c%d' % i, k) for i, k in enumerate(n)]
    sp = [BSpline(basis(b), m) for b, m in zip(spec.bases, ms)]
    res = spec.fn(sp)
    return mx_terms(res, ms, [symvec('c%d' % i, k) for i, k in enumerate(n)])


def mx_terms(res, ms, cs):
    if isinstance(res, (list, tuple)):
        return [mx_terms(r, ms, cs) for r in res]
    m = cas.MX(res.coeffs if is_spline(res) else res)
    f = cas.Function('f', ms, [m])
    out = np.array(casx.translate(f, [list(c) for c in cs])[0], dtype=object)
    return BSpline(res.basis, out) if is_spline(res) else out


def diffs(res, rf):
    """terms that vanish iff res is what rf says; or a string (structural mismatch)"""
    if isinstance(rf, (list, tuple)):
        res = list(res) if isinstance(res, (list, tuple)) else _flat(res)
        if len(res) != len(rf):
            return '%d results instead of %d' % (len(res), len(rf))
        out = []
        for a, b in zip(res, rf):
            d = diffs(a, b)
            if isinstance(d, str):
                return d
            out += d
        return out
    if isinstance(rf, PW):
        if not is_spline(res):
            return 'result is no spline'
        c = coef_terms(res.coeffs)
        if len(c) != len(res.basis):
            return '%d coefficients for %d basis functions' % (len(c), len(res.basis))
        try:
            pw = PW.spline(res.basis.knots, res.basis.degree, c)
        except Exception as e:
            return 'result is no spline: %r' % e
        d = curve_diffs(pw, rf)
        if d is None:
            return 'domain [%g,%g] instead of [%g,%g]' % (tuple(float(x) for x in pw.dom) + tuple(float(x) for x in rf.dom))
        return d
    a = _flat(res)
    if len(a) != 1:
        return '%d values instead of one' % len(a)
    return [a[0] - rf]


def decide(t, spec, kind, route, pc, res, extra=None):
    cs = [symvec('c%d' % i, len(basis(b))) for i, b in enumerate(spec.bases)]
    pws = [PW.spline(BASES[b][0], BASES[b][1], c) for b, c in zip(spec.bases, cs)]
    rf = spec.ref(pws)
    d = diffs(res, rf)
    what = '%s (%s route)' % (spec.name, route)
    key = spec.name.split('(')[0] + ':' + route
    case = lambda m: dict(kind=kind, spec=spec.name, route=route, c=vals(m, spec))
    if isinstance(d, str):
        t.counterexample(key, what + ': ' + d, case({}))
        return
    v, i = zero_query(d, tol=spec.tol)
    if v == 'proved':
        t.ok(what + ': %d coefficients' % len(d))
    elif v == 'refuted':
        if pc:
            # the path condition matters: ask with it
            vs = [x for x in expr.topo([d[i]]) if x.op == 'v']
            g = expr.band(*[expr.band(x <= F(spec.tol), x >= -F(spec.tol)) for x in d])
            box = [expr.band(x <= 1, x >= -1) for c in cs for x in c]
            vv, m = prove(list(pc) + box, g)
            if vv == 'proved':
                t.ok(what)
                return
            if vv == 'unknown':
                t.unknown(what)
                return
        else:
            m = point_model(d[i], lambda n: 1, spec.tol)
            if m is None:
                # only the over-approximation is refuted
                t.ok(what + ' (over-approximation refined)')
                return
        t.counterexample(key, what, case(m))
    else:
        t.unknown(what)


def vals(m, spec):
    rng = np.random.RandomState(7)
    out = []
    for i, b in enumerate(spec.bases):
        n = len(basis(b))
        out.append([float(m.get('c%d[%d]' % (i, j), rng.uniform(-1, 1))) for j in range(n)])
    return out


def run_spec(t, spec, kind):
    for route in spec.routes:
        if route == 'num':
            it = run_num(spec)
        else:
            try:
                it = [([], run_mx(spec), None)]
            except expr.Unsupported:
                raise
            except Exception as e:
                it = [([], None, e)]
        for pc, res, exc in it:
            if exc is not None:
                t.counterexample(spec.name.split('(')[0] + ':exception', '%s (%s route) raises %r' % (spec.name, route, exc),
                                 dict(kind=kind, spec=spec.name, route=route, c=vals(check(pc)[1] or {}, spec)))
                continue
            decide(t, spec, kind, route, pc, res)


def replay(spec, case):
    """the operation on floats against the exact curves"""
    cs = [np.array(c, dtype=float) for c in case['c']]
    pws = [PW.spline(BASES[b][0], BASES[b][1], [R.const(float(v)) for v in c]) for b, c in zip(spec.bases, cs)]
    rf = spec.ref(pws)
    try:
        if case['route'] == 'num':
            res = spec.fn([BSpline(basis(b), c) for b, c in zip(spec.bases, cs)])
        else:
            ms = [cas.MX.sym('c%d' % i, len(c)) for i, c in enumerate(cs)]
            r = spec.fn([BSpline(basis(b), m) for b, m in zip(spec.bases, ms)])

            def num(r):
                if isinstance(r, (list, tuple)):
                    return [num(x) for x in r]
                f = cas.Function('f', ms, [cas.MX(r.coeffs if is_spline(r) else r)])
                v = np.array(f(*[cas.DM(c) for c in cs])).ravel()
                return BSpline(r.basis, v) if is_spline(r) else v
            res = num(r)
    except Exception as e:
        return False, 'raised %r on coefficients %s' % (e, case['c'])
    worst = compare_float(res, rf)
    if isinstance(worst, str):
        return False, worst
    e, where = worst
    return e <= 1e-6, 'largest deviation %.3g at %s for coefficients %s' % (e, where, case['c'])


def compare_float(res, rf):
    if isinstance(rf, (list, tuple)):
        res = list(res) if isinstance(res, (list, tuple)) else list(np.ravel(res))
        if len(res) != len(rf):
            return '%d results instead of %d' % (len(res), len(rf))
        w = (0., None)
        for i, (a, b) in enumerate(zip(res, rf)):
            x = compare_float(a, b)
            if isinstance(x, str):
                return x
            if x[0] >= w[0]:
                w = (x[0], (i, x[1]))
        return w
    if isinstance(rf, PW):
        if not is_spline(res):
            return 'result is no spline'
        if len(res.basis) != np.size(res.coeffs):
            return '%d coefficients for %d basis functions' % (np.size(res.coeffs), len(res.basis))
        lo, hi = float(rf.dom[0]), float(rf.dom[1])
        if abs(res.basis.knots[0] - lo) > 1e-6 or abs(res.basis.knots[-1] - hi) > 1e-6:
            return 'domain [%g,%g] instead of [%g,%g]' % (res.basis.knots[0], res.basis.knots[-1], lo, hi)
        w = (0., None)
        br = sorted(set(rf.breaks()) | set(F(float(k)) for k in res.basis.knots))
        for a, b in zip(br[:-1], br[1:]):
            if b - a < F(1, 10**8):
                continue
            for k in range(1, 8):
                x = a + (b - a) * F(k, 8)
                if not rf.dom[0] <= x <= rf.dom[1]:
                    continue
                got = float(np.ravel(res([float(x)]))[0])
                e = abs(got - float(rf.at(x).value))
                if not e <= w[0]:
                    w = (e if e == e else float('inf'), 'x=%.6g' % float(x))
        return w
    got = float(np.ravel(res)[0])
    e = abs(got - float(rf.value))
    return (e if e == e else float('inf')), 'value %g instead of %g' % (got, float(rf.value))
