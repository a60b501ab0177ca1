"""CasADi graphs -> terms, and the seam at the NLP solver interface."""
import contextlib
import numpy as np
import casadi as cas
from . import expr, env
from .expr import R, lift, ite, fun, Unsupported

_OPS = {}
for _n in dir(cas):
    if _n.startswith('OP_'):
        _OPS[getattr(cas, _n)] = _n


def translate(f, inputs):
    """Execute casadi Function f (expanded to scalar instructions) on lists of terms.
    inputs: one flat list of terms per input (dense, column-major).  Returns list of flat lists (dense)."""
    if not f.is_a('SXFunction'):
        f = f.expand()
    W = [None] * f.sz_w()
    outs = [[R.const(0)] * f.numel_out(i) for i in range(f.n_out())]
    spi = [f.sparsity_in(i) for i in range(f.n_in())]
    spo = [f.sparsity_out(i) for i in range(f.n_out())]
    mi = [_dense_index(s) for s in spi]
    mo = [_dense_index(s) for s in spo]
    zero, one = R.const(0), R.const(1)
    b2r = lambda b: ite(b, one, zero)
    for k in range(f.n_instructions()):
        op = _OPS[f.instruction_id(k)]
        i, o = f.instruction_input(k), f.instruction_output(k)
        if op == 'OP_CONST':
            W[o[0]] = lift(f.instruction_constant(k))
            continue
        if op == 'OP_INPUT':
            W[o[0]] = lift(inputs[i[0]][mi[i[0]][i[1]]])
            continue
        if op == 'OP_OUTPUT':
            outs[o[0]][mo[o[0]][o[1]]] = W[i[0]]
            continue
        a = W[i[0]] if len(i) else None
        b = W[i[1]] if len(i) > 1 else None
        if op == 'OP_ADD':
            v = a + b
        elif op == 'OP_SUB':
            v = a - b
        elif op == 'OP_MUL':
            v = a * b
        elif op == 'OP_DIV':
            v = a / b
        elif op == 'OP_NEG':
            v = -a
        elif op == 'OP_SQ':
            v = a * a
        elif op == 'OP_TWICE':
            v = 2 * a
        elif op == 'OP_INV':
            v = 1 / a
        elif op == 'OP_SQRT':
            v = expr.sqrt(a)
        elif op in ('OP_SIN', 'OP_COS'):
            v = fun(op[3:].lower(), a)
        elif op == 'OP_TAN':
            v = a.tan()
        elif op == 'OP_ATAN2':
            v = fun('atan2', a, b)
        elif op == 'OP_ATAN':
            v = fun('atan', a)
        elif op in ('OP_POW', 'OP_CONSTPOW'):
            v = a ** b
        elif op == 'OP_LT':
            v = b2r(expr.lt(a, b))
        elif op == 'OP_LE':
            v = b2r(expr.le(a, b))
        elif op == 'OP_EQ':
            v = b2r(expr.eq(a, b))
        elif op == 'OP_NE':
            v = b2r(expr.bnot(expr.eq(a, b)))
        elif op == 'OP_NOT':
            v = b2r(expr.eq(a, zero))
        elif op == 'OP_AND':
            v = b2r(expr.band(expr.liftb(a), expr.liftb(b)))
        elif op == 'OP_OR':
            v = b2r(expr.bor(expr.liftb(a), expr.liftb(b)))
        elif op == 'OP_IF_ELSE_ZERO':
            v = ite(expr.liftb(a), b, zero)
        elif op == 'OP_FABS':
            v = abs(a)
        elif op == 'OP_FMAX':
            v = ite(expr.ge(a, b), a, b)
        elif op == 'OP_FMIN':
            v = ite(expr.le(a, b), a, b)
        elif op == 'OP_ASSIGN':
            v = a
        elif op == 'OP_SIGN':
            v = ite(expr.gt(a, zero), one, ite(expr.lt(a, zero), R.const(-1), zero))
        else:
            raise Unsupported('casadi op ' + op)
        W[o[0]] = v
    return outs


def _dense_index(sp):
    """index in the dense column-major vector of each structural nonzero"""
    nr = sp.size1()
    rows, cols = sp.row(), sp.get_col()
    return [c * nr + r for r, c in zip(rows, cols)]


class Nlp(object):
    """what reached the solver interface: the problem, and the last call's arguments"""

    def __init__(self, name, solver, prob, opts):
        self.name, self.solver, self.opts = name, solver, opts
        self.x, self.p = cas.MX(prob['x']), cas.MX(prob['p'])
        self.f, self.g = cas.MX(prob['f']), cas.MX(prob['g'])
        self.calls = []
        self.answer = None
        self._t = None

    # interface of casadi's solver object
    def __call__(self, **kw):
        self.calls.append({k: np.array(cas.DM(v)).ravel() for k, v in kw.items()})
        x = kw['x0'] if self.answer is None else self.answer(self, kw)
        x = cas.DM(x)
        return {'x': x, 'f': cas.DM(0), 'g': cas.DM.zeros(self.g.shape[0], 1), 'lam_g': cas.DM.zeros(self.g.shape[0], 1),
                'lam_x': cas.DM.zeros(self.x.shape[0], 1), 'lam_p': cas.DM.zeros(self.p.shape[0], 1)}

    def stats(self):
        return {'return_status': 'Solve_Succeeded', 'success': True, 'iter_count': 0}

    def generate_dependencies(self, *a):
        raise Unsupported('code generation')

    # encoding
    def fun(self):
        return cas.Function('nlp', [self.x, self.p], [self.f, self.g])

    def terms(self, xs, ps):
        """(objective term, [constraint terms]) for lists of terms xs, ps"""
        f, g = translate(self.fun(), [list(xs), list(ps)])
        return f[0], g

    @property
    def nx(self):
        return self.x.shape[0] * self.x.shape[1]

    @property
    def np(self):
        return self.p.shape[0] * self.p.shape[1]

    @property
    def ng(self):
        return self.g.shape[0] * self.g.shape[1]


@contextlib.contextmanager
def capture():
    """within, every solver the real code builds is a recording stub; yields the list of them"""
    got = []

    def nlpsol(name, solver, prob, opts=None, *a):
        n = Nlp(name, solver, prob, opts)
        got.append(n)
        return n
    t = [(m, n, nlpsol) for m, n in env.refs_to(cas.nlpsol, [cas])]
    with env.patched(t):
        yield got


def xmap(father, child, name):
    """which entries of the decision vector are (child, name): integer array shaped like the variable.
    Found by writing the vector 0,1,2,.. through the public setter and reading the variable back."""
    keep = father.get_variables()
    n = keep.cat.shape[0] if hasattr(keep, 'cat') else keep.shape[0]
    keep = cas.DM(keep.cat)
    father.set_variables(cas.DM(list(range(n))))
    v = father.get_variables(child, name, spline=False)
    father.set_variables(keep)
    return np.array(v).round().astype(int)
