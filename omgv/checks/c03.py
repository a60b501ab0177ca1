"""C03: the problem at the solver interface is the declared one (optilayer), values round-trip, shutdown."""
import itertools
from fractions import Fraction as F
import numpy as np
import casadi as cas
from .. import env, casx, decl, expr, scen, fpoly
from ..env import patched, sym_modules
from ..expr import R, lift, band, bor, bnot, liftb, evaluate
from ..lin import zero_query, point_model, PW, to_ratio, poly_term
from ..solver import Explorer, prove, check, LinQuery, q, z3
from ..spl import spline_patches
import omgtools.basics.optilayer as OL
from omgtools.basics.optilayer import OptiFather, OptiChild
from omgtools.basics.spline import BSpline, BSplineBasis
from omgtools.basics.spline_extra import definite_integral, evalspline

INFO = dict(
    explanation='every declaration made through the modelling interface is recorded; the problem handed to the solver interface is translated '
                'to terms over its decision and parameter vectors, and z3 decides that its rows, bounds and objective are the declared ones for '
                'every value of the vectors; shutdown conditions run on a symbolic time',
    bounds=['synthetic models: 1-3 children, up to 3x2 matrices, splines of degree 1-3 with 1-5 knot intervals',
            'real problems: point-to-point (fixed and free horizon) for several vehicles, rooms and obstacles',
            'expressions compared exactly with every decision and parameter entry in [-1, 1] (tolerance 1e-8)'],
    outside=['code generation / compiled builds', 'the duals'],
    stubs=['the solver is a recorder that answers with a given vector'],
    assumptions=['variable and child names do not collide after joining them with an underscore'])

KN = lambda n, d: np.r_[np.zeros(d), np.linspace(0., 1., n + 1), np.ones(d)]


def build_opts():
    return {'codegen': {'build': None, 'flags': ''}, 'verbose': 0, 'solver': 'ipopt', 'solver_options': {'ipopt': {}}}


# --------------------------------------------------------------- synthetic models

def syn_basic():
    a, b = OptiChild('alpha'), OptiChild('beta')
    x = a.define_variable('x', 2, value=np.array([[.3], [-.2]]))
    y = a.define_variable('y', 2, 2, value=np.array([[1., 2.], [3., 4.]]))
    p = a.define_parameter('p', 3, value=np.array([[.1], [.2], [.3]]))
    z = b.define_variable('z', value=7.)
    r = b.define_parameter('r', 1, 2, value=np.array([[5., 6.]]))
    xs, ps = b.define_symbol('x', 2), b.define_symbol('p', 3)
    zs = a.define_symbol('z')
    a.define_constraint(x[0] * p[1] + y[1, 0] - zs, -1., 2.)
    a.define_constraint(cas.mtimes(y, x) + p[:2], np.array([-3., -4.]), np.array([1., 5.]))
    a.define_constraint(0.5, 0., 0.)
    a.define_constraint(3, 0., 0.)
    b.define_constraint(z * xs[1] - r[0, 1] * ps[2], 0., 0.)
    b.define_constraint(z - 1, -cas.inf, 0., name='named')
    b.define_constraint(xs[0]**2 + z, -2., cas.inf, name='named')
    a.define_objective(x[0]**2 + p[0] * y[0, 1])
    a.define_objective(zs)
    b.define_objective(3 * z - xs[1] * r[0, 0])
    return [a, b]


def syn_order():
    """children and quantities of equal names, declared in interleaved order, label clashes resolved by numbering"""
    cs = [OptiChild('veh') for _ in range(3)]
    ms = []
    for k, c in enumerate(cs):
        ms.append((c.define_parameter('q', 2, value=np.array([[k + .5], [k - .5]])), c.define_variable('w%d' % k, 2, value=np.array([[k], [-k]]))))
    for k, c in enumerate(cs):
        ms[k] += (c.define_variable('u', 1 + k, value=np.arange(1. + k).reshape(-1, 1)),)
        c.define_variable('unused')
    for k, c in reversed(list(enumerate(cs))):
        q_, w, u = ms[k]
        c.define_constraint(w[0] * q_[1] + (k + 1) * u[-1], -k, k + 1)
        o = c.define_symbol('w%d' % ((k + 1) % 3), 2)
        c.define_constraint(o - w, 0., float(k))
        c.define_objective((k + 1) * o[1] * q_[0])
    return cs


def syn_splines():
    a, b = OptiChild('spl'), OptiChild('other')
    b3, b2, b1 = BSplineBasis(KN(4, 3), 3), BSplineBasis(KN(2, 2), 2), BSplineBasis(KN(3, 1), 1)
    a.basis = b3
    s = a.define_spline_variable('s', 2, value=np.arange(14.).reshape(7, 2) / 10)
    g = b.define_spline_variable('g', 1, basis=b2)[0]
    d = b.define_spline_parameter('d', 1, basis=b1, value=np.array([[1.], [2.], [3.], [4.]]))[0]
    m = a.define_spline_variable('m', 1, 2, basis=b1, value=np.array([[1.], [2.], [3.], [4.]]))
    ss = b.define_spline_symbol('s', 2, basis=b3)
    T = a.define_variable('T', value=2.)
    a.define_constraint(s[0] - 1., -cas.inf, 0.)
    a.define_constraint(s[0].derivative() - T * s[1].derivative(), -1., 1.)
    a.define_constraint(m[0][0] * m[1][0] + 2., 0., 3.)
    b.define_constraint(g * d - 1, -cas.inf, 0.)
    b.define_constraint(ss[1] * g, -.5, .5)
    b.define_constraint(evalspline(ss[0], 0.3) - .5, 0., 0.)
    a.define_objective(definite_integral(s[0], 0., 1.))
    b.define_objective(T_ref(b) * definite_integral(g, .2, .8))
    return [a, b]


def T_ref(c):
    return c.define_symbol('T')


def syn_skip():
    a = OptiChild('skip')
    for i, (kn, dg) in enumerate([(3, 3), (1, 2)]):
        basis = BSplineBasis(KN(kn, dg), dg)
        s = a.define_spline_variable('s%d' % i, 1, basis=basis)[0]
        for sk in ([], [0, 0], [0, 1], [1, 0], [1, 1], [2, 0], [0, 2], [1, 2] if kn > 1 else [1, 1]):
            a.define_constraint((1 + len(sk) + sum(sk)) * s, -1. - i, 2., skip=sk)
    return [a]


def syn_subst():
    a, b = OptiChild('sub'), OptiChild('user')
    basis = BSplineBasis(KN(2, 2), 2)
    x = a.define_variable('x', 2, value=np.array([[.5], [.25]]))
    p = a.define_parameter('p', value=2.)
    s = a.define_spline_variable('s', 2, basis=basis, value=np.arange(8.).reshape(4, 2))
    a.define_substitute('sum', x[0] + p * x[1])
    a.define_substitute('lst', [x[0] * x[1], cas.vertcat(x, p)])
    a.define_substitute('curve', s[0] + 2 * s[1])
    a.define_substitute('curves', [s[0] * 2, s[1] - 1])
    a.define_constraint(x, 0., 1.)
    a.define_objective(x[0])
    return [a, b]


def syn_shutdown():
    a, b = OptiChild('down'), OptiChild('keep')
    x = a.define_variable('x', 3)
    y = b.define_variable('y')
    a.define_constraint(x[0], -1., 1., shutdown='t > 5.')
    a.define_constraint(x[1:], -2., 2., shutdown='t <= 2.5')
    a.define_constraint(x[0] + x[1], -3., 3.)
    a.define_constraint(x[2] - x[1], -4., 4., shutdown='t < 1. or t >= 7')
    b.define_constraint(y, -5., 0., shutdown='1. < t < 4')
    b.define_constraint(y * 2, 0., 6.)
    return [a, b]


SYN = dict(basic=syn_basic, order=syn_order, splines=syn_splines, skip=syn_skip, subst=syn_subst, shutdown=syn_shutdown)
SHUT = {'t > 5.': lambda t: t > 5, 't <= 2.5': lambda t: t <= F(5, 2), 't < 1. or t >= 7': lambda t: bor(lift(t) < 1, lift(t) >= 7),
        '1. < t < 4': lambda t: band(lift(t) > 1, lift(t) < 4)}


class Syn(object):
    def __init__(self, name):
        with decl.record() as log, casx.capture() as got:
            cs = SYN[name]()
            f = OptiFather(cs)
            self.children, self.father, self.log = cs, f, log
            self.problem, _ = f.construct_problem(build_opts())
        self.nlp = got[-1]

    def model(self):
        return decl.Model(self.log, self.father, self.nlp)


# ------------------------------------------------------------------------ oracle

def vec(v, n):
    a = np.array(cas.DM(v)).ravel() if not np.isscalar(v) else np.array([float(v)])
    return a * np.ones(n) if a.size == 1 else a


def expected_rows(M):
    """[(term, lb, ub, description)] declared"""
    out = []
    for c in M.log.cons:
        if c['child'] not in M.children or isinstance(c['expr'], (int, float)):
            continue
        e = c['expr']
        if isinstance(e, BSpline):
            terms = list(M.of(e.coeffs).ravel('F'))
            k0, k1 = c['skip'] if c['skip'] else (0, 0)
            terms = terms[k0:len(terms) - k1]
            lb, ub = [float(c['lb'])] * len(terms), [float(c['ub'])] * len(terms)
        else:
            terms = list(M.of(e).ravel('F'))
            lb, ub = vec(c['lb'], len(terms)), vec(c['ub'], len(terms))
        for i, (t_, l, u) in enumerate(zip(terms, lb, ub)):
            out.append((t_, float(l), float(u), '%s constraint %d of %s' % (c['name'] or '', i, c['child'])))
    return out


def point(M, seed):
    rng = np.random.RandomState(seed)
    e = {v.args[0]: rng.uniform(-1, 1) for v in list(M.X) + list(M.P)}
    return e


def fl(x):
    return x if np.isfinite(x) else (1e30 if x > 0 else -1e30)


def same_expr(t, a, b, cache=None):
    """are two terms equal for every value of the vectors?  (verdict, model)"""
    if a is b:
        return fpoly.zero({}), None      # the same term
    d = a - b
    cache = {} if cache is None else cache
    v = fpoly.zero(fpoly.fadd(fpoly.to_f(a, cache), fpoly.to_f(b, cache), -1.))
    if v == 'proved':
        return v, None
    n, dn = to_ratio(d)
    v, i = zero_query([n], tol=1e-8)
    if v == 'proved':
        return v, None
    m = point_model(d, lambda n_: 1, 1e-6)
    if m is None:
        return 'unknown', None
    return 'refuted', m


def compare(t, M, lb, ub, name, case):
    exp = expected_rows(M)
    obj, g = M.rows()
    got = [(x, float(l), float(u)) for x, l, u in zip(g, lb, ub)]
    if M.clash or M.missing_x or M.missing_p:
        t.counterexample('%s:layout' % name, 'every entry of the decision and parameter vectors belongs to exactly one quantity', case)
        return
    e0 = point(M, 11)
    ve = evaluate([x[0] for x in exp], e0)
    vg = evaluate([x[0] for x in got], e0)
    key = lambda v, l, u: (round(float(v), 6), round(fl(l), 6), round(fl(u), 6))
    free = {}
    for i, (v, (x, l, u)) in enumerate(zip(vg, got)):
        free.setdefault(key(v, l, u), []).append(i)
    un, pairs = [], []
    for i, (v, (x, l, u, d)) in enumerate(zip(ve, exp)):
        k = key(v, l, u)
        c = free.get(k, [])
        # nearest by position
        if c:
            j = min(c, key=lambda j: abs(j - i))
            c.remove(j)
            pairs.append((i, j))
        else:
            un.append(i)
    left = [j for c in free.values() for j in c]
    bad = False
    cache = {}
    for i, j in pairs:
        v, m = same_expr(t, exp[i][0], got[j][0], cache)
        if v == 'proved':
            t.ok('%s: %s is row %d' % (name, exp[i][3], j))
        elif v == 'refuted':
            bad = True
            t.counterexample('%s:row' % name, '%s differs from row %d' % (exp[i][3], j), dict(case, point={k: float(x) for k, x in m.items()}))
            return
        else:
            t.unknown('%s: %s' % (name, exp[i][3]))
    if un or left:
        t.counterexample('%s:rows' % name, '%d declared rows are missing (%s), %d rows were not declared' % (
            len(un), '; '.join(exp[i][3] for i in un[:4]), len(left)), case)
        return
    tot = R.const(0)
    for c, o in M.log.obj:
        if c in M.children:
            tot = tot + (lift(o) if not isinstance(o, cas.MX) else M.of(o).ravel()[0])
    v, m = same_expr(t, tot, obj)
    if v == 'proved':
        t.ok('%s: objective is the sum of the declared ones' % name)
    elif v == 'refuted':
        t.counterexample('%s:objective' % name, 'objective differs from the sum of the declared ones',
                         dict(case, point={k: float(x) for k, x in m.items()}))
    else:
        t.unknown('%s: objective' % name)
    t.reach(len(pairs) > 0, name + ': some rows compared')


# --------------------------------------------------------------------------- tasks

def load(case):
    if case['model'] == 'syn':
        return Syn(case['name'])
    return SCEN[case['name']]()


def bounds_of(S, time=0.):
    f = S.father if isinstance(S, Syn) else S.problem.father
    lb, ub = f.update_bounds(time)
    return np.array(cas.DM(lb.cat)).ravel(), np.array(cas.DM(ub.cat)).ravel()


def task_syn(t, name):
    case = dict(kind='rows', model='syn', name=name)
    try:
        S = Syn(name)
        # outside every shutdown window
        lb, ub = bounds_of(S, 4.5)
        M = S.model()
    except Exception as e:
        t.counterexample('%s:exception' % name, 'building the model raises %r' % e, case)
        return
    compare(t, M, lb, ub, name, case)
    if name == 'splines' or name == 'skip':
        hull(t, M, lb, ub, name, case)


def hull(t, M, lb, ub, name, case):
    """rows within their bounds imply that the whole curve is within the declared bounds"""
    obj, g = M.rows()
    from ..expr import to_poly
    cache = {}
    rows = [to_poly(x, cache) for x in g]
    for ci, c in enumerate(M.log.cons):
        e = c['expr']
        if not isinstance(e, BSpline) or c['skip'] and any(c['skip']):
            continue
        pw = PW.spline(e.basis.knots, e.basis.degree, M.of(e.coeffs).ravel('F'))
        claims = []
        for lo, hi, bc in pw.bern():
            claims += bc
        L = LinQuery(60000)
        for x, l, u in zip(rows, lb, ub):
            ex = L.lin({m: k for m, k in x.t.items() if m}, x.t.get((), 0))
            if np.isfinite(l):
                L.add(ex >= q(F(float(l)) - F(1, 10**9)))
            if np.isfinite(u):
                L.add(ex <= q(F(float(u)) + F(1, 10**9)))
        bad = []
        for cl in claims:
            p = to_poly(cl, cache)
            ex = L.lin({m: k for m, k in p.t.items() if m}, p.t.get((), 0))
            if np.isfinite(c['lb']):
                bad.append(ex < q(F(float(c['lb'])) - F(1, 10**6)))
            if np.isfinite(c['ub']):
                bad.append(ex > q(F(float(c['ub'])) + F(1, 10**6)))
        L.push()
        L.add(z3.Or(bad))
        r = L.check()
        L.pop()
        what = '%s: rows in bounds keep the whole curve of constraint %d in its bounds' % (name, ci)
        if r == 'unsat':
            t.ok(what)
        elif r == 'sat':
            t.counterexample('%s:hull' % name, what, dict(case, kind='hull', con=ci))
        else:
            t.unknown(what)
        t.reach(L.check() == 'sat', what + ' (rows satisfiable)')


def task_values(t, name):
    """x0 and p at the solver interface, and reading results back, entry by entry through magic numbers (each entry of the
    vectors is one unknown: the answer vector is symbolic in the sense that every entry carries its own mark)"""
    case = dict(kind='values', name=name)
    ok, msg = values(name)
    what = '%s: declared values reach the solver, answers are read back under their own names' % name
    if ok:
        t.ok(what)
    else:
        t.counterexample('%s:values' % name, what, case)


def values(name):
    S = Syn(name)
    f, log, nlp = S.father, S.log, S.nlp
    x0 = np.array(cas.DM(f.get_variables().cat)).ravel()
    p = np.array(cas.DM(f.set_parameters(0.).cat)).ravel()
    M = S.model()
    for key, ix in M.ix.items():
        v = log.value[key]
        v = np.zeros(ix.shape) if v is None else np.array(v, dtype=float) * np.ones(ix.shape)
        if not np.allclose(x0[ix], v):
            return False, 'initial value of %s of %s: %s reaches the solver as %s' % (key[1], key[0], v.tolist(), x0[ix].tolist())
    for key, ix in M.pix.items():
        v = log.value[key]
        v = np.zeros(ix.shape) if v is None else np.array(v, dtype=float) * np.ones(ix.shape)
        if not np.allclose(p[ix], v):
            return False, 'value of parameter %s of %s: %s reaches the solver as %s' % (key[1], key[0], v.tolist(), p[ix].tolist())
    # values set later
    for c in S.children:
        for key in [k for k in log.order if k[0] is c and log.kind[k] == 'par']:
            nv = np.arange(np.prod(log.shape[key])).reshape(log.shape[key]) + .125
            c.set_value(key[1], nv)
            p = np.array(cas.DM(f.set_parameters(0.).cat)).ravel()
            if not np.allclose(p[M.pix[key]], nv):
                return False, 'set_value(%s) reaches the solver as %s' % (key[1], p[M.pix[key]].tolist())
            if not np.allclose(f.get_parameters(c, key[1], spline=False), nv):
                return False, 'parameter %s set to %s is read back as %s' % (key[1], nv.tolist(), f.get_parameters(c, key[1], spline=False).tolist())
    # an answer of the solver
    ans = np.arange(nlp.nx) * 1.5 + .25
    f.set_variables(cas.DM(ans))
    for key, ix in M.ix.items():
        got = f.get_variables(key[0], key[1], spline=False)
        if not np.allclose(got, ans[ix]):
            return False, 'solution of %s of %s is read back as %s instead of %s' % (key[1], key[0], got, ans[ix])
        if key in log.basis:
            for k, s in enumerate(f.get_variables(key[0], key[1])):
                if s.basis != log.basis[key] or not np.allclose(np.ravel(s.coeffs), ans[ix][:, k]):
                    return False, 'spline %s of %s is read back with other coefficients' % (key[1], key[0])
    for key in M.pix:
        if key in log.basis:
            for k, s in enumerate(f.get_parameters(key[0], key[1])):
                if s.basis != log.basis[key] or not np.allclose(np.ravel(s.coeffs), p[M.pix[key]][:, k]):
                    return False, 'spline parameter %s of %s is read back with other coefficients' % (key[1], key[0])
    # setting one variable changes nothing else
    for key, ix in M.ix.items():
        f.set_variables(cas.DM(ans))
        f.set_variables(-np.ones(ix.shape), key[0], key[1])
        now = np.array(cas.DM(f.get_variables().cat)).ravel()
        want = ans.copy()
        want[ix] = -1.
        if not np.allclose(now, want):
            return False, 'setting %s of %s changes other entries' % (key[1], key[0])
    return True, 'all values'


def task_subst(t):
    S = Syn('subst')
    M = S.model()
    f = S.father
    for (c, n), mx in S.log.subst.items():
        fun = f.substitutes[c][n]
        got = np.array(casx.translate(fun, [list(M.X), list(M.P)])[0], dtype=object)
        want = M.of(mx).ravel('F')
        what = 'substitute %s reads back its expression' % n
        if len(got) != len(want):
            t.counterexample('subst:size', what, dict(kind='subst', name=n))
            continue
        v, i = zero_query([a - b for a, b in zip(got, want)])
        if v == 'proved':
            t.ok(what)
        elif v == 'refuted':
            t.counterexample('subst', what, dict(kind='subst', name=n))
        else:
            t.unknown(what)
        if not replay_subst(dict(name=n))[0]:
            t.counterexample('subst:read', what, dict(kind='subst', name=n))


def replay_subst(case):
    S = Syn('subst')
    M = S.model()
    f = S.father
    e = point(M, 5)
    f.set_variables(cas.DM([e[v.args[0]] for v in M.X]))
    p = [e[v.args[0]] for v in M.P]
    f._par_result = f._par_struct(cas.DM(p))
    for (c, n), mx in S.log.subst.items():
        if n != case['name']:
            continue
        want = np.array(evaluate(list(M.of(mx).ravel('F')), e), dtype=float)
        r = f.get_variables(c, n)
        got = np.concatenate([np.ravel(s.coeffs) for s in r]) if isinstance(r, list) else np.ravel(r, 'F')
        if len(got) != len(want) or not np.allclose(got, want):
            return False, 'substitute %s reads %s, its expression is %s' % (n, got, want)
        if isinstance(r, list) and r[0].basis != S.log.basis[(c, n)]:
            return False, 'substitute %s is read back on another basis' % n
    return True, 'substitutes read their expressions'


def task_shutdown(t):
    S = Syn('shutdown')
    M = S.model()
    exp = expected_rows(M)
    sh = []
    for c in M.log.cons:
        n = M.of(c['expr']).size
        sh += [c['shutdown']] * n
    obj, g = M.rows()
    # which row is which declared constraint
    at = {}
    lb0, ub0 = bounds_of(S, 4.5)
    vg, ve = evaluate(g, point(M, 3)), evaluate([x[0] for x in exp], point(M, 3))
    for i in range(len(exp)):
        c = [j for j in range(len(g)) if abs(vg[j] - ve[i]) < 1e-9]
        at[i] = c[0] if c else None
    if len(exp) != len(g) or None in at.values():
        t.counterexample('shutdown:rows', 'rows of the model with shutdown conditions', dict(kind='rows', model='syn', name='shutdown'))
        return
    now, before = R.var('t'), R.var('t_before')
    seen = {}

    def history():
        # two updates of the same problem: the answer for the second must not depend on the first
        F = Syn('shutdown').father
        F.update_bounds(before)
        return [np.array(cas.DM(x.cat)).ravel() for x in F.update_bounds(now)]
    for pc, res, exc in Explorer([]).run(history):
        if exc is not None:
            m = check(pc)[1] or {}
            t.counterexample('shutdown:exception', 'update_bounds raises %r' % exc, dict(kind='shutdown', t=float(m.get('t', 0.)), before=float(m.get('t_before', 0.))))
            continue
        lb, ub = res
        for i, (x, l, u, d) in enumerate(exp):
            j = at[i]
            if lb[j] == -np.inf and ub[j] == np.inf:
                state = True
            elif lb[j] == l and ub[j] == u:
                state = False
            else:
                state = None
            cond = liftb(SHUT[sh[i]](now)) if sh[i] else expr.FALSE
            goal = expr.FALSE if state is None else (cond if state else bnot(cond))
            v, m = prove(pc, goal)
            what = '%s (shutdown %r) %s exactly when its condition %s' % (d, sh[i], 'is free' if state else 'keeps its bounds', 'holds' if state else 'fails')
            seen.setdefault(i, set()).add(state)
            if v == 'proved':
                t.ok(what)
            elif v == 'refuted':
                t.counterexample('shutdown', what, dict(kind='shutdown', t=float(m.get('t', 0.)), before=float(m.get('t_before', 0.))))
            else:
                t.unknown(what)
    t.reach(all(seen[i] == ({True, False} if sh[i] else {False}) for i in range(len(exp))), 'shutdown conditions both hold and fail')


def replay_shutdown(case):
    S = Syn('shutdown')
    M = S.model()
    tm = case['t']
    try:
        S.father.update_bounds(case.get('before', 0.))
        lb, ub = bounds_of(S, tm)
    except Exception as e:
        return False, 'update_bounds(%g) raised %r' % (tm, e)
    lb0, ub0 = {}, {}
    exp = expected_rows(M)
    g = M.rows()[1]
    e = point(M, 3)
    vg, ve = evaluate(g, e), evaluate([x[0] for x in exp], e)
    k = 0
    for c in M.log.cons:
        for _ in range(M.of(c['expr']).size):
            j = [j for j in range(len(g)) if abs(vg[j] - ve[k]) < 1e-9][0]
            down = bool(c['shutdown']) and eval(c['shutdown'], {'t': tm})
            want = (-np.inf, np.inf) if down else exp[k][1:3]
            if (lb[j], ub[j]) != tuple(want):
                return False, 'at t=%g (after an update at t=%g) the constraint with shutdown %r has bounds %s, expected %s' % (tm, case.get('before', 0.), c['shutdown'], (lb[j], ub[j]), want)
            k += 1
    return True, 'bounds as declared at t=%g' % tm


# --- real problems

def _two(**k):
    return lambda: scen.p2p(['Holonomic', 'Dubins'], knots=3, popts={'inter_vehicle_avoidance': True}, **k)


def obs_circle(pos=(.3, .2), r=.3, **sim):
    return lambda: scen.Obstacle({'position': list(pos), 'velocity': [.1, -.2]}, shape=scen.Circle(r))


def obs_rect():
    return scen.Obstacle({'position': [-.5, .6]}, shape=scen.Rectangle(width=1., height=.2))


SCEN = {
    'holo fixedT': lambda: scen.p2p('Holonomic', obstacles=[obs_circle(), obs_rect], knots=4),
    'holo freeT': lambda: scen.p2p('Holonomic', True, obstacles=[obs_circle(), obs_rect], knots=4),
    'holo safety': lambda: scen.p2p('Holonomic', obstacles=[obs_circle()], knots=3, vopts={'safety_distance': .1}),
    'dubins freeT': lambda: scen.p2p('Dubins', True, obstacles=[obs_circle()], knots=3),
    'quadrotor fixedT': lambda: scen.p2p('Quadrotor', obstacles=[obs_rect], knots=3),
    'holo3d fixedT': lambda: scen.p2p('Holonomic3D', obstacles=[lambda: scen.Obstacle({'position': [0., 0., .2]}, shape=scen.Sphere(.2))], knots=3),
    'two fixedT': _two(obstacles=[obs_circle()]),
}


def task_real(t, name):
    case = dict(kind='rows', model='scen', name=name)
    try:
        S = SCEN[name]()
        lb, ub = bounds_of(S)
        M = S.model()
    except expr.Unsupported:
        raise
    except Exception as e:
        t.counterexample('%s:exception' % name, 'building the problem raises %r' % e, case)
        return
    compare(t, M, lb, ub, name, case)
    ok, msg = solve_io(name)
    if ok:
        t.ok('%s: solve() hands over the current guess, parameters and bounds and keeps the answer' % name)
    else:
        t.counterexample('%s:solve' % name, msg, dict(kind='solve', name=name))


def solve_io(name):
    S = SCEN[name]()
    pb, f, nlp = S.problem, S.problem.father, S.nlp
    M = S.model()
    x = np.arange(nlp.nx) * .01 + 1.
    f.set_variables(cas.DM(x))
    ans = np.arange(nlp.nx) * .02 - 3.
    nlp.answer = lambda n, kw: cas.DM(ans)
    pb.initialize(0.)
    pb.solve(0., .1)
    kw = nlp.calls[-1]
    p = np.array(cas.DM(f.get_parameters().cat)).ravel()
    lb, ub = bounds_of(S)
    for nm, got, want in (('x0', kw['x0'], x), ('p', kw['p'], p), ('lbg', kw['lbg'], lb), ('ubg', kw['ubg'], ub)):
        if got.shape != want.shape or not np.array_equal(got, want):
            return False, 'solver gets another %s' % nm
    for key, ix in M.ix.items():
        got = f.get_variables(key[0], key[1], spline=False)
        if not np.allclose(got, ans[ix]):
            return False, 'the answer for %s of %s is read back as %s' % (key[1], key[0], got)
    return True, 'solver interface'


def replay_solve(case):
    try:
        return solve_io(case['name'])
    except Exception as e:
        return False, 'raised %r' % e


def replay_values(case):
    try:
        return values(case['name'])
    except Exception as e:
        return False, 'raised %r' % e


def replay_rows(case):
    """float evaluation of the real CasADi functions"""
    try:
        S = load(case)
        M = S.model()
        lb, ub = bounds_of(S, 4.5 if case['model'] == 'syn' else 0.)
    except Exception as e:
        return False, 'raised %r' % e
    if M.clash or M.missing_x or M.missing_p:
        return False, 'entries shared by two quantities %s, without owner %s %s' % (M.clash, M.missing_x, M.missing_p)
    e = point(M, 23)
    e.update({k: v for k, v in case.get('point', {}).items() if k in e})
    xv, pv = [e[v.args[0]] for v in M.X], [e[v.args[0]] for v in M.P]
    fv, gv = M.nlp.fun()(cas.DM(xv), cas.DM(pv))
    gv = np.array(gv).ravel()
    exp = expected_rows(M)
    ve = evaluate([x[0] for x in exp], e)
    got = sorted((float(v), fl(l), fl(u)) for v, l, u in zip(gv, lb, ub))
    want = sorted((float(v), fl(x[1]), fl(x[2])) for v, x in zip(ve, exp))
    used = [False] * len(got)
    for w in want:
        k = next((k for k, g_ in enumerate(got) if not used[k] and all(abs(a - b) <= 1e-6 * max(1, abs(b)) for a, b in zip(g_, w))), None)
        if k is None:
            return False, 'declared row (value %.6g, bounds %g..%g) is not among the %d rows of the problem' % (w + (len(got),))
        used[k] = True
    if not all(used):
        return False, '%d rows of the problem were not declared' % used.count(False)
    tot = 0.
    for c, o in M.log.obj:
        if c in M.children:
            tot += float(evaluate([lift(o) if not isinstance(o, cas.MX) else M.of(o).ravel()[0]], e)[0])
    if abs(tot - float(fv)) > 1e-6 * max(1, abs(tot)):
        return False, 'objective %.8g, sum of the declared ones %.8g' % (float(fv), tot)
    return True, 'rows, bounds and objective as declared'


def replay_hull(case):
    """solve for the largest excursion of the curve while the rows hold"""
    S = load(case)
    M = S.model()
    lb, ub = bounds_of(S, 4.5)
    c = M.log.cons[case['con']]
    from ..conc import maximize
    pw = PW.spline(c['expr'].basis.knots, c['expr'].basis.degree, M.of(c['expr'].coeffs).ravel('F'))
    worst = -1.
    for lo, hi, p in pw.p:
        for k in range(5):
            x = lo + (hi - lo) * F(k, 4)
            v = sum((p[i] * R.const(x**i) for i in range(len(p))), R.const(0))
            for s, b in ((1, c['ub']), (-1, c['lb'])):
                if np.isfinite(b):
                    val, pt = maximize(M, lb, ub, s * v - s * float(b))
                    worst = max(worst, val)
    return worst <= 1e-4, 'curve leaves its bounds by %.4g while all rows hold' % worst


def tasks(tier, seed):
    out = [('model ' + n, ('syn', n)) for n in SYN if n != 'shutdown']
    out += [('values ' + n, ('values', n)) for n in ('basic', 'order', 'splines', 'subst')]
    out += [('substitutes', ('subst',)), ('shutdown', ('shutdown',))]
    out += [('problem ' + n, ('real', n)) for n in SCEN]
    return out
