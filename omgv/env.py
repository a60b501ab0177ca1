"""Loads the real code from /repo, and the seams (FFI stubs) every check shares."""
import os, sys, warnings, types, contextlib, io, math
REPO = os.environ.get('OMG_REPO', '/repo')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(v, '1')
warnings.filterwarnings('ignore')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import matplotlib
_use = matplotlib.use
matplotlib.use = lambda *a, **k: _use('Agg')      # no display here; plotting is never the subject
import numpy as np
import casadi as cas
import omgtools
matplotlib.use = _use
from . import expr
from .expr import R, B, Unsupported


def omg_modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith('omgtools') and m is not None]


_active = []


def _put(old):
    for m, n, has, v in reversed(old):
        if has:
            setattr(m, n, v)
        else:
            delattr(m, n)


@contextlib.contextmanager
def patched(targets):
    """targets: list of (module, name, value); restored on exit"""
    old = []
    targets = list(targets)
    _active.append((targets, old))
    try:
        for m, n, v in targets:
            has = n in m.__dict__
            old.append((m, n, has, m.__dict__.get(n)))
            setattr(m, n, v)
        yield
    finally:
        _put(old)
        _active.pop()


@contextlib.contextmanager
def unpatched():
    """the real code again, inside patched()"""
    held = list(_active)
    del _active[:]
    for targets, old in reversed(held):
        _put(old)
    try:
        yield
    finally:
        for targets, old in held:
            for m, n, v in targets[:len(old)]:
                setattr(m, n, v)
        _active.extend(held)


def refs_to(obj, extra=()):
    """every (module, name) in the code under test bound to obj"""
    out = []
    for m in omg_modules() + list(extra):
        for n, v in list(m.__dict__.items()):
            if v is obj:
                out.append((m, n))
    return out


# --------------------------------------------------------------- numpy seam

class _LinalgProxy(object):
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = np.asarray(x)
        if a.dtype != object:
            return np.linalg.norm(x, ord, axis, keepdims)
        if axis is not None:
            if isinstance(axis, tuple) or a.ndim < 2:
                raise Unsupported('norm of this kind')
            a = np.moveaxis(a, axis, -1)
            out = np.empty(a.shape[:-1], dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = self.norm(a[ix], ord)
            return np.expand_dims(out, axis) if keepdims else out
        if a.ndim == 1 and ord == 1:
            return expr.lift(sum(abs(expr.lift(v)) for v in a))
        if a.ndim == 1 and ord == np.inf:
            return max(abs(expr.lift(v)) for v in a)
        if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim > 1):
            raise Unsupported('norm of this kind')
        s = 0
        for v in a.ravel():
            s = s + v * v
        return expr.sqrt(expr.lift(s))

    def solve(self, A, b):
        A_, b_ = np.asarray(A), np.asarray(b)
        if A_.dtype != object:
            if b_.dtype == object:
                return np.dot(np.linalg.inv(A_), b_)
            return np.linalg.solve(A, b)
        return _gauss(A_, b_)

    def inv(self, A):
        A_ = np.asarray(A)
        return np.linalg.inv(A) if A_.dtype != object else _gauss(A_, np.eye(A_.shape[0]).astype(object))


def _gauss(A, b):
    n = A.shape[0]
    A = [[expr.lift(A[i, j]) for j in range(n)] for i in range(n)]
    vec = b.ndim == 1
    bb = b.reshape(n, -1)
    X = [[expr.lift(bb[i, j]) for j in range(bb.shape[1])] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if not (A[r][c].isconst and A[r][c].value == 0)), None)
        if p is None:
            raise np.linalg.LinAlgError('singular')
        A[c], A[p] = A[p], A[c]
        X[c], X[p] = X[p], X[c]
        for r in range(n):
            if r != c and not (A[r][c].isconst and A[r][c].value == 0):
                f = A[r][c] / A[c][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                X[r] = [x - f * y for x, y in zip(X[r], X[c])]
    out = np.empty((n, bb.shape[1]), dtype=object)
    for r in range(n):
        for k in range(bb.shape[1]):
            out[r, k] = X[r][k] / A[r][r]
    return out[:, 0] if vec else out


def _issym(*xs):
    for x in xs:
        if isinstance(x, (R, B)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and _issym(*x):
            return True
    return False


class NumpyProxy(types.ModuleType):
    """numpy with containers that can hold terms.  Everything else is the real numpy."""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.linalg = _LinalgProxy()

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def _obj(a):
        return a.astype(object)

    def zeros(self, shape, dtype=float, **k):
        a = np.zeros(shape, dtype, **k)
        return a.astype(object) if a.dtype == float else a

    def ones(self, shape, dtype=float, **k):
        a = np.ones(shape, dtype, **k)
        return a.astype(object) if a.dtype == float else a

    def empty(self, shape, dtype=float, **k):
        a = np.zeros(shape, dtype, **k)
        return a.astype(object) if a.dtype == float else a

    def zeros_like(self, x, **k):
        a = np.zeros_like(x, **k)
        return a.astype(object) if a.dtype == float else a

    def eye(self, *a, **k):
        return np.eye(*a, **k).astype(object)

    def identity(self, *a, **k):
        return np.identity(*a, **k).astype(object)

    def linspace(self, a, b, num=50, **k):
        if not _issym(a, b) and not isinstance(num, R):
            return np.linspace(a, b, num, **k)
        num = int(num)
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = a if num == 1 else a + (b - a) * expr.R.const(expr.Fraction(i, num - 1))
        return out

    def round(self, x, decimals=0, **k):
        if isinstance(x, R):
            return x.round(decimals)
        a = np.asarray(x)
        if a.dtype == object:
            out = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                v = a[ix]
                out[ix] = v.round(decimals) if isinstance(v, R) else np.round(v, decimals)
            return out if a.ndim else out.item()
        return np.round(x, decimals, **k)
    around = round_ = round

    def isnan(self, x):
        return np.zeros(np.shape(x), bool) if _issym(x) else np.isnan(x)

    def floor(self, x):
        return R.const(x.__floor__()) if isinstance(x, R) else np.floor(x)

    def ceil(self, x):
        return R.const(x.__ceil__()) if isinstance(x, R) else np.ceil(x)

    def mod(self, a, b):
        return a % b

    def abs(self, x):
        return abs(x) if isinstance(x, R) else np.abs(x)
    absolute = abs

    def sign(self, x):
        if isinstance(x, R):
            return expr.ite(x > 0, R.const(1), expr.ite(x < 0, R.const(-1), R.const(0)))
        return np.sign(x)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if _issym(a, b):
            if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
                a, b = np.broadcast_arrays(np.asarray(a, object), np.asarray(b, object))
            return abs(a - b) <= atol + rtol * abs(b)
        return np.isclose(a, b, rtol, atol, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if _issym(a, b):
            a, b = np.broadcast_arrays(np.asarray(a, object), np.asarray(b, object))
            return all([bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(a.ravel(), b.ravel())])
        return np.allclose(a, b, rtol, atol, **k)

    # containers and elementwise functions the code does not use today but may after a rewrite
    @staticmethod
    def _dtype(k, *xs):
        if k.get('dtype') in (float, np.float64, SymFloat) and _issym(*xs):
            k = dict(k, dtype=object)
        return k

    def array(self, x, *a, **k):
        if a:
            k, a = dict(k, dtype=a[0]), a[1:]
        return np.array(x, *a, **self._real(self._dtype(k, x)))

    def asarray(self, x, *a, **k):
        if a:
            k, a = dict(k, dtype=a[0]), a[1:]
        return np.asarray(x, *a, **self._real(self._dtype(k, x)))

    @staticmethod
    def _real(k):
        return dict(k, dtype=float) if k.get('dtype') is SymFloat else k

    def float64(self, x=0.):
        return x if isinstance(x, R) else np.float64(x)

    def full(self, shape, fill, *a, **k):
        if _issym(fill):
            return np.full(shape, fill, dtype=object)
        r = np.full(shape, fill, *a, **self._real(k))
        return r.astype(object) if r.dtype == float else r

    def full_like(self, x, fill, **k):
        if _issym(fill):
            return np.full(np.shape(x), fill, dtype=object)
        r = np.full_like(x, fill, **self._real(k))
        return r.astype(object) if r.dtype == float else r

    def ones_like(self, x, **k):
        a = np.ones_like(x, **self._real(k))
        return a.astype(object) if a.dtype == float else a

    def empty_like(self, x, **k):
        return self.zeros_like(x, **k)

    def isfinite(self, x, *a, **k):
        return np.ones(np.shape(x), bool) if _issym(x) else np.isfinite(x, *a, **k)

    def isinf(self, x, *a, **k):
        return np.zeros(np.shape(x), bool) if _issym(x) else np.isinf(x, *a, **k)


def _u(name):
    def f(self, x, *a):
        if isinstance(x, R):
            return getattr(x, name)(*a)
        if a and isinstance(a[0], R) and not isinstance(x, np.ndarray):
            return getattr(expr.lift(x), name)(*a)
        return getattr(np, name)(x, *a)
    return f


for _n in ('sqrt', 'sin', 'cos', 'tan', 'arctan2', 'arctan', 'arccos', 'arcsin', 'exp', 'square', 'hypot',
           'deg2rad', 'radians', 'rad2deg', 'degrees'):
    setattr(NumpyProxy, _n, _u(_n))

NP = NumpyProxy()


class MathProxy(types.ModuleType):
    """math on terms; with numbers it is the real math"""

    _same = {'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'radians': 'radians',
             'degrees': 'degrees', 'atan': 'arctan', 'atan2': 'arctan2', 'acos': 'arccos', 'asin': 'arcsin',
             'fabs': 'fabs', 'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite'}

    def __init__(self, px=NP):
        types.ModuleType.__init__(self, 'math')
        self.px = px

    def __getattr__(self, n):
        v = getattr(math, n)
        if n in self._same:
            def f(*a, _n=self._same[n], _v=v):
                return getattr(self.px, _n)(*a) if _issym(*a) else _v(*a)
            return f
        return self.px.pi if n == 'pi' else v

    def hypot(self, *a):
        return expr.sqrt(sum(x * x for x in a)) if _issym(*a) else math.hypot(*a)

    def dist(self, p, q):
        return self.hypot(*[x - y for x, y in zip(p, q)])

    def fsum(self, xs):
        xs = list(xs)
        return sum(xs) if _issym(*xs) else math.fsum(xs)

    def pow(self, x, y):
        return x ** y if _issym(x, y) else math.pow(x, y)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.):
        if _issym(a, b):
            d = abs(a - b)
            return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b))
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


MATH = MathProxy()


def _same_function(v):
    """the stand-in of a function that was imported by name from numpy or math, or None"""
    n = getattr(v, '__name__', None)
    if not isinstance(n, str) or isinstance(v, (type, types.ModuleType)):
        return None
    if getattr(math, n, None) is v:
        return getattr(MATH, n) if getattr(MATH, n) is not v else None
    if getattr(np, n, None) is v and n in NumpyProxy.__dict__:
        return getattr(NP, n)
    if getattr(np.linalg, n, None) is v and n in _LinalgProxy.__dict__:
        return getattr(NP.linalg, n)
    return None


def sym_float(x=0., *a):
    if isinstance(x, R):
        return x
    return float(x, *a)


def sym_round(x, n=None):
    if isinstance(x, R):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, R)

    def __call__(cls, *a):
        return sym_float(*a)


class SymFloat(float, metaclass=_FloatMeta):
    """stands in for the builtin float in instrumented modules: terms count as floats"""


def sym_modules(mods, numpy=True, floats=True):
    """patch list that makes the given modules executable on terms"""
    t = []
    for m in mods:
        for n, v in list(m.__dict__.items()):
            if numpy and v is np:
                t.append((m, n, NP))
            elif numpy and v is np.linalg:
                t.append((m, n, NP.linalg))
            elif numpy and v is math:
                t.append((m, n, MATH))
            elif numpy and callable(v):
                w = _same_function(v)
                if w is not None:
                    t.append((m, n, w))
        if floats:
            t.append((m, 'float', SymFloat))
    return t


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class RealCrash(Exception):
    """the code under test raised on concrete, valid input"""


def last_own_frame(tb):
    """the innermost frame that belongs to the code under test or to this harness"""
    import traceback
    own = None
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.path.join(REPO, 'omgtools')
    for fr in traceback.extract_tb(tb):
        f = os.path.abspath(fr.filename)
        if f.startswith(repo + os.sep) or f.startswith(here + os.sep):
            own = fr
    return own, own is not None and os.path.abspath(own.filename).startswith(repo + os.sep)


def real(fn, *a, **k):
    """call the code under test on concrete, valid input"""
    import sys
    try:
        return fn(*a, **k)
    except RealCrash:
        raise
    except Exception as e:
        fr, mine = last_own_frame(sys.exc_info()[2])
        if mine:
            raise RealCrash('%s:%s raised %s: %s' % (os.path.relpath(fr.filename, REPO), fr.name, type(e).__name__, str(e)[:300])) from e
        raise
