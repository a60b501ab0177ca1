"""Recording what a model declares through the public modelling interface, and finding it back in the captured NLP."""
import contextlib
from fractions import Fraction as F
import numpy as np
import casadi as cas
from . import env, casx, expr
from .env import patched
from .expr import R, lift
from omgtools.basics.optilayer import OptiChild, OptiFather
from omgtools.basics.spline import BSpline


class Log(object):
    def __init__(self):
        self.sym = {}        # symbol name -> ('q', child, name) | ('s', child, name) | ('e', expr): quantity, shared symbol, substitute
        self.shape = {}      # (child, name) -> shape
        self.kind = {}       # (child, name) -> 'var' | 'par'
        self.value = {}      # (child, name) -> declared default
        self.basis = {}
        self.subst = {}      # (child, name) -> MX expression
        self.cons = []       # dict(child, expr(MX or BSpline), lb, ub, shutdown, skip, name)
        self.obj = []        # (child, MX expression)
        self.order = []      # (child, name) of declaration
        self.dead = []

    def forget(self, child):
        self.shape = {k: v for k, v in self.shape.items() if k[0] is not child}
        self.kind = {k: v for k, v in self.kind.items() if k[0] is not child}
        self.value = {k: v for k, v in self.value.items() if k[0] is not child}
        self.basis = {k: v for k, v in self.basis.items() if k[0] is not child}
        self.subst = {k: v for k, v in self.subst.items() if k[0] is not child}
        self.cons = [c for c in self.cons if c['child'] is not child]
        self.obj = [o for o in self.obj if o[0] is not child]
        self.order = [o for o in self.order if o[0] is not child]
        self.dead = [o for o in self.dead if o[0][0] is not child]


def _syms(x):
    return cas.symvar(x) if isinstance(x, cas.MX) else []


@contextlib.contextmanager
def record():
    """within, every declaration of every child is logged; yields the Log"""
    log = Log()
    depth = [0]
    C = OptiChild

    def outer(fn, after):
        def w(self, *a, **k):
            depth[0] += 1
            try:
                r = fn(self, *a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0:
                after(self, r, *a, **k)
            return r
        return w

    def q(self, name, mx, kind, value=None, basis=None):
        key = (self, name)
        for s in _syms(mx):
            log.sym[s.name()] = ('s' if kind == 'sym' else 'q', self, name)
        if kind != 'sym':
            if key in log.kind:
                if log.kind[key] != kind:
                    log.dead.append((key, log.kind[key], log.shape[key]))    # redeclared: the last declaration counts
                log.order.remove(key)
            log.shape[key] = tuple(mx.shape)
            log.kind[key] = kind
            log.value[key] = value
            log.order.append(key)
            if basis is not None:
                log.basis[key] = basis

    def plain(kind):
        def after(self, r, name, size0=1, size1=1, **k):
            q(self, name, r, kind, k.get('value'))
        return after

    def spline(kind):
        def after(self, r, name, size0=1, size1=1, **k):
            if size1 > 1:
                for l, x in enumerate(r):
                    one(self, name + str(l), x, k)
            else:
                one(self, name, r, k)

        def one(self, name, r, k):
            ss = {s.name(): s for b in r for s in _syms(b.coeffs)}
            for s in ss.values():
                q(self, name, s, kind, k.get('value'), r[0].basis)
        return after

    def subst(self, r, name, e):
        if isinstance(e, list):
            for l, (x, rr) in enumerate(zip(e, r)):
                subst(self, rr, name + str(l), x)
            return
        mx = e.coeffs if isinstance(e, BSpline) else e
        sy = r.coeffs if isinstance(r, BSpline) else r
        for s in _syms(sy):
            log.sym[s.name()] = ('e', mx)
        log.subst[(self, name)] = mx
        if isinstance(e, BSpline):
            log.basis[(self, name)] = e.basis

    def con(self, r, e, lb, ub, shutdown=False, name=None, skip=[]):
        log.cons.append(dict(child=self, expr=e, lb=lb, ub=ub, shutdown=shutdown, skip=list(skip), name=name))

    def obj(self, r, e):
        log.obj.append((self, e))

    def reset(self, r):
        log.forget(self)
    spec = [('define_symbol', plain('sym')), ('define_variable', plain('var')), ('define_parameter', plain('par')),
            ('define_spline_symbol', spline('sym')), ('define_spline_variable', spline('var')),
            ('define_spline_parameter', spline('par')), ('define_substitute', subst), ('define_constraint', con),
            ('define_objective', obj), ('reset', reset)]
    with patched([(_Ns(C), n, outer(C.__dict__[n], f)) for n, f in spec]):
        yield log


class _Ns(object):
    """lets env.patched work on a class"""

    def __init__(self, c):
        object.__setattr__(self, 'c', c)

    @property
    def __dict__(self):
        return self.c.__dict__

    def __setattr__(self, n, v):
        setattr(self.c, n, v)

    def __delattr__(self, n):
        delattr(self.c, n)


class Model(object):
    """a captured NLP tied to the declared quantities: terms for every quantity, from the positions at which the
    public interface reads and writes them"""

    def __init__(self, log, father, nlp, prefix=''):
        self.log, self.father, self.nlp = log, father, nlp
        children = list(father.children.values())
        self.children = children
        self.X = expr.symvec(prefix + 'x', nlp.nx)
        self.P = expr.symvec(prefix + 'p', nlp.np)
        self.q, self.ix = {}, {}
        self.clash = []
        seen = {}
        for key in log.order:
            child, name = key
            if child not in children or log.kind[key] != 'var':
                continue
            ix = casx.xmap(father, child, name)
            self.ix[key] = ix
            self.q[key] = self.X[ix]
            for i in ix.ravel():
                if i in seen:
                    self.clash.append((key, seen[i]))
                seen[i] = key
        self.missing_x = [i for i in range(nlp.nx) if i not in seen]
        pm = pmap(father, [k for k in log.order if k[0] in children and log.kind[k] == 'par'], log)
        self.pix = pm
        seen = {}
        for key, ix in pm.items():
            self.q[key] = self.P[ix]
            for i in ix.ravel():
                if i in seen:
                    self.clash.append((key, seen[i]))
                seen[i] = key
        self.missing_p = [i for i in range(nlp.np) if i not in seen]
        for kind, miss in (('var', self.missing_x), ('par', self.missing_p)):
            n = sum(int(np.prod(sh)) for (k, kd, sh) in log.dead if kd == kind and k[0] in children)
            if n == len(miss):
                del miss[:]
        self._cache = {}

    def var(self, child, name):
        return self.q[(child, name)]

    def owner(self, name):
        ks = [k for k in self.q if k[1] == name and k[0] in self.children]
        if len(ks) != 1:
            raise ValueError('symbol %s declared %d times' % (name, len(ks)))
        return self.q[ks[0]]

    def of(self, mx):
        """array of terms of a declared expression (number, MX or array of MX)"""
        if isinstance(mx, (int, float, np.number)):
            return np.array([[lift(mx)]], dtype=object)
        if isinstance(mx, np.ndarray):
            return np.array([[lift(v) for v in r] for r in np.atleast_2d(mx.T).T], dtype=object)
        mx = cas.MX(mx)
        sy = cas.symvar(mx)
        ins = []
        for s in sy:
            d = self.log.sym[s.name()]
            if d[0] == 'q':
                v = self.q[(d[1], d[2])]
            elif d[0] == 's':
                v = self.owner(d[2])
            else:
                v = self.of(d[1])
            ins.append([lift(x) for x in np.asarray(v, dtype=object).reshape(s.shape).ravel('F')])
        out = casx.translate(cas.Function('d', sy, [mx]), ins)[0]
        return np.array(out, dtype=object).reshape(mx.shape, order='F')

    def rows(self):
        """(objective, [constraint terms]) of the problem the solver has"""
        if 'rows' not in self._cache:
            self._cache['rows'] = self.nlp.terms(self.X, self.P)
        return self._cache['rows']


def pmap(father, keys, log):
    """positions of parameters in the parameter vector: every child hands out distinct numbers through set_parameters"""
    children = list(father.children.values())
    magic, n = {}, 1000001
    for k in keys:
        sh = log.shape[k]
        m = np.arange(n, n + sh[0] * sh[1], dtype=float).reshape(sh)
        n += sh[0] * sh[1]
        magic[k] = m
    keep = father.get_parameters()
    keep = cas.DM(keep.cat)
    old = []
    for c in children:
        old.append((c, c.__dict__.get('set_parameters')))
        c.set_parameters = (lambda t, c=c: {c: {k[1]: m for k, m in magic.items() if k[0] is c}})
    try:
        vec = np.array(cas.DM(father.set_parameters(0.).cat)).ravel()
    finally:
        for c, o in old:
            if o is None:
                del c.__dict__['set_parameters']
            else:
                c.set_parameters = o
        father._par_result = father._par_struct(keep)
    pos = {}
    for i, v in enumerate(vec):
        pos.setdefault(int(round(v)), []).append(i)
    out = {}
    for k, m in magic.items():
        ix = np.zeros(m.shape, int)
        for a in np.ndindex(*m.shape):
            p = pos.get(int(m[a]), [])
            if len(p) != 1:
                raise LookupError('parameter %s of %s reaches %d places of the parameter vector' % (k[1], k[0], len(p)))
            ix[a] = p[0]
        out[k] = ix
    return out
