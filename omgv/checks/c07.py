"""C07: the state and input signals of a plan obey the vehicle's differential equations; the pose is that of the flat outputs."""
import numpy as np
from .. import env, models, jets, expr
from ..expr import R, symarr, lift, band, TRUE
from ..solver import Explorer, prove, check
import omgtools.basics.spline as spl

INFO = dict(
    explanation='splines2signals, state2pose and ode of every vehicle model run on curves given by their symbolic derivatives (jets) at three '
                'sample instants; the exact time derivative of every stored state is compared with ode(state, input), the pose with the flat '
                'outputs, and every other stored signal with its definition, for all values of the derivatives',
    bounds=['three consecutive samples (first, middle, last) at unrelated instants; any values of the flat outputs and their derivatives',
            'Bicycle, AGV: forward speed above 1e-3 at the samples, and separately standstill at the first sample with non-zero acceleration',
            'Quadrotors: thrust (and its component in the rolled plane) not zero', 'first and later updates (hasattr signals)'],
    outside=['error signals of the `substitution` options', 'standstill in the middle or at the end of a Bicycle/AGV plan (steering angle is copied)',
             'the numerical integrator used in simulation (see C11)', 'floating-point rounding'],
    stubs=['BSpline -> jet (value and derivatives of the curve at the samples; C01 shows derivatives, products and integrals of the real '
           'class are those of the curve)', 'splev, running_integral, evalspline, definite_integral on jets'],
    assumptions=['Trailer: the hinge rows of define_trajectory_constraints hold (with their documented slack)'])

NB = dict(Holonomic=2, Holonomic1D=1, Holonomic3D=3, HolonomicOrient=3, Dubins=2, Bicycle=2, AGV=2, Quadrotor=2, Quadrotor3D=3,
          SimpleQuadrotor3D=3, Trailer=3, Tool=3)
NAMES = sorted(NB)
EPS_TRAILER = 1e-3


def start(name, v, nsig, num=None):
    """what the plan starts from: returns {state index: term} of the position at the first sample"""
    ns = models.NSTATE[name]
    g = (lambda x: x) if num is None else (lambda x: np.array([num.get(q.args[0], 0.) for q in x.ravel()], float).reshape(x.shape))
    s0 = g(symarr('s', ns, 2))
    p0 = g(symarr('p', ns))
    if name == 'Trailer':
        lead = v.lead_veh
        lead.set_initial_conditions(p0[3:])
        lead.prediction['state'] = p0[3:]
        v.prediction['state'], v.prediction['input'] = p0, g(symarr('pu', 2))
    else:
        v.prediction['state'], v.prediction['input'] = p0, g(symarr('pu', models.NINPUT[name]))
    if name in ('Dubins', 'Bicycle', 'AGV'):
        v.set_initial_conditions(p0)
        v.pose0 = p0[:3]
    if nsig:
        v.signals = {'state': s0, 'pose': np.array([[0.] * 2] * 6) if num is not None else symarr('sp', 6, 2),
                     'input': g(symarr('su', models.NINPUT[name], 2)), 'time': np.array([[0., .1]])}
        if name == 'Trailer':
            v.signals['pose'] = s0
    src = s0[:, -1] if nsig else p0
    if name in ('Dubins', 'Bicycle', 'AGV'):
        return {0: src[0], 1: src[1]}
    if name == 'Quadrotor3D':
        return {k: p0[k] for k in range(6)}
    if name == 'Trailer':
        return {3: src[3], 4: src[4]}
    return {}


def setup(name, opts):
    if name == 'Trailer':
        lead = models.vehicle(opts.get('lead', 'Dubins'))
        v = models.vehicle('Trailer', lead_veh=lead)
    else:
        v = models.vehicle(name)
    for x in (v, getattr(v, 'lead_veh', v)):
        x.options['substitution'] = False
    return v


def hinge(v, w, S):
    """rows of the trailer's own trajectory constraints on jets: assumption per sample"""
    rows = []
    with env.patched([(type(v), 'define_constraint', lambda self, e, lb, ub, *a, **k: rows.append((e, lb, ub)))]):
        v.lead_veh.define_trajectory_constraints = lambda *a, **k: None
        v.define_trajectory_constraints(S, 1.)
        del v.lead_veh.define_trajectory_constraints
    out = []
    for e, lb, ub in rows:
        for k in range(w.n):
            if np.isfinite(float(ub)):
                out.append(e.v[k] <= float(ub))
            if np.isfinite(float(lb)):
                out.append(e.v[k] >= float(lb))
    return out


def run(name, nsig, opts):
    v = setup(name, opts)
    w = jets.World()
    S = [w.base('f%d' % i) for i in range(NB[name])]
    first = start(name, v, nsig)
    sig = v.splines2signals(S, w.time)
    return v, w, S, first, sig


def flat_pos(name, S, k):
    """position and tan(half heading) of the body that moves in the plan, at sample k (None: not a base curve)"""
    q = [s.v[k] for s in S]
    if name in ('Holonomic', 'Quadrotor'):
        return q[:2], None
    if name == 'Holonomic1D':
        return q[:1], None
    if name in ('Holonomic3D', 'SimpleQuadrotor3D', 'Tool'):
        return q[:3], None
    if name == 'HolonomicOrient':
        return q[:2], q[2]
    if name in ('Dubins', 'Bicycle', 'AGV'):
        return None, q[1]
    return None, None


NPOS = dict(Holonomic1D=1, Holonomic3D=3, Quadrotor3D=3, SimpleQuadrotor3D=3, Tool=3)
DERIV = {  # signal -> (source, indices, order of differentiation)
    'Holonomic': {'dinput': ('state', [0, 1], 2)},
    'Holonomic1D': {'a': ('state', [0], 2)},
    'Holonomic3D': {'a': ('state', [0, 1, 2], 2)},
    'HolonomicOrient': {'a': ('state', [0, 1], 2)},
    'Dubins': {'acc': ('input', [0], 1)},
    'Quadrotor': {'dspl': ('state', [0, 1], 1), 'ddspl': ('state', [0, 1], 2)},
    'SimpleQuadrotor3D': {'dspl': ('state', [0, 1, 2], 1), 'ddspl': ('state', [0, 1, 2], 2), 'dddspl': ('state', [0, 1, 2], 3)},
    'Tool': {'dinput': ('state', [0, 1, 2], 2), 'ddinput': ('state', [0, 1, 2], 3)},
}


def claims(name, v, w, S, first, sig, k):
    """(key, what, goal)"""
    col = lambda a: [lift(x) for x in np.asarray(a, dtype=object).reshape(np.shape(a)[0], -1)[:, k]]
    state, inp = col(sig['state']), col(sig['input'])
    der = [w.dt(x, k) for x in state]
    rate = list(np.ravel(v.ode(np.array(state, dtype=object), np.array(inp, dtype=object))))
    res = w.resolve
    ns = models.NSTATE[name]
    yield 'shape|%d' % k, 'one value per state and input', TRUE if (len(state), len(inp), len(rate)) == (ns, models.NINPUT[name], ns) else lift(0) > 1
    for i, (a, b) in enumerate(zip(der, rate)):
        a, b = res([a, lift(b)])
        if name == 'Trailer' and i < 3:
            tol = 1.01 * EPS_TRAILER * (1. if i < 2 else 1. / v.l_hitch)
            yield 'ode%d|%d' % (i, k), 'd/dt state[%d] is within %g of ode(state, input)[%d]' % (i, tol, i), band(a - b <= tol, b - a <= tol)
        else:
            yield 'ode%d|%d' % (i, k), 'd/dt state[%d] equals ode(state, input)[%d]' % (i, i), a == b
    if k == 0:
        for i, x in first.items():
            yield 'start%d|%d' % (i, k), 'state[%d] of the first sample is where the plan starts' % i, res([state[i]])[0] == res([lift(x)])[0]
    pose = col(v._state2pose(np.asarray(sig['state'], dtype=object)))
    npos = NPOS.get(name, 2)
    pos, tg = flat_pos(name, S, k)
    if pos is not None:
        for i, p in enumerate(pos):
            yield 'pose%d|%d' % (i, k), 'pose[%d] is the planned position' % i, res([pose[i]])[0] == p
    elif name != 'Trailer':
        for i in range(npos):
            yield 'pose%d|%d' % (i, k), 'pose[%d] is the position in the state' % i, res([pose[i]])[0] == res([state[i]])[0]
    if tg is not None:
        yield from heading('pose', pose[2], tg, k)
    if name in ('Quadrotor', 'Quadrotor3D', 'SimpleQuadrotor3D'):
        acc = [w.dt(w.dt(x, k), k) for x in state[:npos]]
        acc[-1] = acc[-1] + v.g
        sn, cs = (lambda x: expr.fun('sin', x)), (lambda x: expr.fun('cos', x))
        if name == 'Quadrotor':
            up = [-sn(pose[2]), cs(pose[2])]
        else:
            up = [sn(pose[4]) * cs(pose[3]), -sn(pose[3]), cs(pose[4]) * cs(pose[3])]
        u = inp[0]
        for i in range(npos):
            a, b = res([acc[i], u * up[i]])
            yield 'thrust%d|%d' % (i, k), 'thrust along the body axis of the pose gives the planned acceleration [%d]' % i, a == b
    if name == 'Trailer':
        x, y, th = res(state[3:6])
        yield from heading('veh', res([pose[5]])[0], S[2].v[k], k)
        yield from heading('trailer', res([pose[2]])[0], S[0].v[k], k)
        for i in range(2):
            yield 'pose%d|%d' % (i + 3, k), 'pose[%d] is the position of the lead vehicle' % (i + 3), res([pose[i + 3]])[0] == (x, y)[i]
        g = S[0].v[k]
        for i, c in enumerate((1 - g * g, 2 * g)):
            yield ('pose%d|%d' % (i, k), 'the trailer axle is l_hitch behind the lead vehicle [%d]' % i,
                   ((x, y)[i] - res([pose[i]])[0]) * (1 + g * g) == v.l_hitch * c)
        yield 'r1|%d' % k, 'r1 holds tan(theta/2) of the trailer and its derivative', band(lift(sig['r1'][0, k]) == g, lift(sig['r1'][1, k]) == w.dt(g, k))
    for sname, (src, ix, order) in DERIV.get(name, {}).items():
        got = col(sig[sname])
        base = state if src == 'state' else inp
        for i, j in enumerate(ix):
            x = base[j]
            for _ in range(order):
                x = w.dt(x, k)
            a, b = res([got[i], x])
            yield '%s%d|%d' % (sname, i, k), '%s[%d] is the derivative (order %d) of %s[%d]' % (sname, i, order, src, j), a == b
    if 'v_tot' in sig:
        vt = lift(np.asarray(sig['v_tot'], dtype=object).ravel()[k])
        d = [w.dt(x, k) for x in state[:npos]]
        yield 'v_tot|%d' % k, 'v_tot is the length of the velocity', band(vt >= 0, vt * vt == sum((x * x for x in d), lift(0)))
    if 'delta' in sig:
        yield 'delta|%d' % k, 'delta is the steering angle of the state', lift(np.asarray(sig['delta'], dtype=object).ravel()[k]) == state[3]


def heading(key, ang, tg, k):
    c, s = expr.fun('cos', ang), expr.fun('sin', ang)
    n = 1 + tg * tg
    yield '%s-cos|%d' % (key, k), 'cos of the %s heading is that of the planned tan(theta/2)' % key, c * n == 1 - tg * tg
    yield '%s-sin|%d' % (key, k), 'sin of the %s heading is that of the planned tan(theta/2)' % key, s * n == 2 * tg


def regular(name, v, w, S):
    """non-degenerate plans"""
    out = []
    for k in range(w.n):
        if name in ('Bicycle', 'AGV'):
            out.append(S[0].v[k] > 1.01e-3)
        if name == 'Dubins' or name == 'Trailer':
            pass
        if name in ('Quadrotor', 'SimpleQuadrotor3D'):
            d = [w.dt(w.dt(x.v[k], k), k) for x in S]
            d[-1] = d[-1] + v.g
            out.append(d[0] * d[0] + d[-1] * d[-1] > 0)
    return out


def bounded(w, S, B=4.):
    out = []
    for k in range(w.n):
        for s in S:
            x = s
            for _ in range(5):
                out += [x.v[k] <= B, x.v[k] >= -B]
                x = x.derivative()
    return out


def task_model(t, name, nsig, lead=None):
    opts = {'lead': lead} if lead else {}
    tag = name + ('/' + lead if lead else '')
    with jets.executable():
        v0, w0 = setup(name, opts), jets.World()
        S0 = [w0.base('f%d' % i) for i in range(NB[name])]
        assume = regular(name, v0, w0, S0)
        if name == 'Trailer':
            assume = assume + hinge(v0, w0, S0)
        verdict, _ = check(assume)
        t.reach(verdict == 'sat', tag + ': plans that satisfy the assumptions exist')
        todo = []
        for pc, res, exc in Explorer(assume).run(lambda: run(name, nsig, opts)):
            if exc is None:
                v, w, S, first, sig = res
                res = (w, S, [(k,) + c for k in range(w.n) for c in claims(name, v, w, S, first, sig, k)])
            todo.append((pc, res, exc))
        small = bounded(w0, S0)
    paths = 0
    for pc, res, exc in todo:
        if exc is not None:
            verdict, m = check(pc + small)
            t.counterexample('%s:exception' % tag, 'splines2signals raises %r' % exc, case_of(name, nsig, opts, 'exception', 0, m or {}))
            continue
        paths += 1
        w, S, cl = res
        bad = set()
        for k, key, what, goal in cl:
            if key.split('|')[0] not in bad:
                what = '%s%s, sample %d: %s' % (tag, ' (later update)' if nsig else '', k, what)
                decide(t, name, nsig, opts, tag, pc, key, what, goal, w, S, bad)
    t.reach(paths > 0, tag + ': signals computed')


def decide(t, name, nsig, opts, tag, pc, key, what, goal, w, S, bad):
    verdict, m = prove(pc, goal, 20000)
    if verdict == 'proved':
        t.ok(what)
        return
    kk = key.split('|')[0]
    small = pc + bounded(w, S) + [x <= 5 for x in vars_of(pc, goal)] + [x >= -5 for x in vars_of(pc, goal)]
    for s in range(4):
        # a well-behaved model: replayed on polynomials, so away from large values
        ref = prove(small + spread(S, s), goal, 20000)
        if ref[0] == 'refuted':
            if t.counterexample('%s:%s' % (tag, kk), what, case_of(name, nsig, opts, key, 0, ref[1])):
                bad.add(kk)
                return
    t.unknown(what + ' (%s)' % verdict)


def vars_of(pc, goal):
    return [n for n in expr.topo([goal]) if n.op == 'v' and not n.args[0].startswith('t')]


def spread(S, s):
    """different corners of the space, so that a counterexample is not degenerate"""
    out = []
    for i, b in enumerate(S):
        for k in range(len(b.v)):
            x, y = b, b.derivative()
            c = [(0.3, 0.2), (0.7, -0.4), (1.2, 0.9), (0.4, -0.6)][s]
            out += [x.v[k] >= c[0] * (0.6 + 0.2 * i), x.v[k] <= c[0] * (0.6 + 0.2 * i) + 0.4]
            if s < 3:
                out += [y.v[k] >= c[1] - 0.3, y.v[k] <= c[1] + 0.3]
    return out


def task_rest(t, name, nsig):
    """Bicycle, AGV standing still at the first sample: the steering angle is the limit of the model's"""
    with jets.executable():
        w0 = jets.World()
        S0 = [w0.base('f%d' % i) for i in range(NB[name])]
        assume = [S0[0].v[0] == 0, S0[1].derivative().v[0] == 0, S0[0].derivative().v[0] > 0]
        for k in (1, 2):
            assume += [S0[0].v[k] > 1.01e-3]
        t.reach(check(assume)[0] == 'sat', name + ': standstill at the first sample')
        todo = []
        for pc, res, exc in Explorer(assume).run(lambda: run(name, nsig, {})):
            if exc is None:
                v, w, S, first, sig = res
                goal = rest_goal(name, v, w, S, sig)
                res = (goal, bounded(w, S) + [S[0].derivative().v[0] >= 0.5, S[1].derivative(2).v[0] >= 0.3, S[1].v[0] >= 0.3])
            todo.append((pc, res, exc))
        small = bounded(w0, S0)
    for pc, res, exc in todo:
        if exc is not None:
            verdict, m = check(pc + small)
            t.counterexample('%s:exception' % name, 'splines2signals raises %r' % exc, case_of(name, nsig, {}, 'exception', 0, m or {}))
            continue
        goal, small2 = res
        what = '%s standing still at the first sample: the steering angle is the limit of the model' % name
        verdict, m = prove(pc, goal, 20000)
        if verdict == 'proved':
            t.ok(what)
            continue
        ref = prove(pc + small2, goal, 20000)
        if ref[0] != 'refuted':
            t.unknown(what)
        else:
            t.counterexample('%s:rest' % name, what, case_of(name, nsig, {}, 'rest', 0, ref[1]))


def rest_goal(name, v, w, S, sig):
    """tan(delta) = +-L dtheta/V; both vanish: the ratio of their derivatives"""
    g, dv, ddg = S[1].v[0], S[0].derivative().v[0], S[1].derivative(2).v[0]
    # V = v (1+g^2), dtheta = 2 dg/(1+g^2): at standstill dV = dv (1+g^2), ddtheta = 2 ddg/(1+g^2)
    sgn = -1 if name == 'AGV' else 1
    de = lift(sig['state'][3, 0])
    c, s = expr.fun('cos', de), expr.fun('sin', de)
    n = 1 + g * g
    return band(s * dv * n * n == c * (sgn * 2 * v.length * ddg), c > 0)


def case_of(name, nsig, opts, key, smp, m):
    return dict(kind='jet', name=name, nsig=nsig, opts=opts, key=key, model={k: float(x) for k, x in m.items()})


def taylor(vals, tc, lo, hi, degree):
    """BSpline on [lo, hi] that is the polynomial with these derivatives at tc"""
    from math import factorial, comb
    c = [v / factorial(i) for i, v in enumerate(vals[:degree + 1])]
    c += [0.] * (degree + 1 - len(c))
    P = np.polynomial.Polynomial(c)
    # Bernstein coefficients on [lo, hi]
    Q = P(np.polynomial.Polynomial([lo - tc, hi - lo]))
    a = list(Q.coef) + [0.] * (degree + 1 - len(Q.coef))
    b = [sum(comb(i, j) / comb(degree, j) * a[j] for j in range(i + 1)) for i in range(degree + 1)]
    basis = spl.BSplineBasis(np.r_[lo * np.ones(degree + 1), hi * np.ones(degree + 1)], degree)
    return spl.BSpline(basis, np.array(b))


def replay_jet(case):
    """plans made of polynomials with the counterexample's derivatives; the real splines2signals on a fine grid"""
    name, nsig, opts, key, m = case['name'], case['nsig'], case['opts'], case['key'], case['model']
    kk, k = (key.split('|') + ['0'])[:2]
    k = int(k)
    h = 1e-4
    N = 401
    mid = {0: 0, 1: N // 2, 2: N - 1}[k] if kk != 'rest' else 0
    v = setup(name, opts)
    tm = np.arange(N) * h
    S = [taylor([m.get('f%d_%d@%d' % (i, j, k), 0.) for j in range(6)], tm[mid], 0., tm[-1], min(5, max(3, v.degree))) for i in range(NB[name])]
    first = start(name, v, nsig, m)
    if kk == 'exception':
        try:
            v.splines2signals(S, tm)
        except Exception as e:
            return False, 'splines2signals raised %r' % e
        return None, 'no exception'
    sig = v.splines2signals(S, tm)
    sig = {a: (np.asarray(b) if np.ndim(b) > 1 else np.asarray(b)[None, :]) for a, b in sig.items()}
    st, inp = np.asarray(sig['state'], float), np.asarray(sig['input'], float)
    F = [np.array([[s.derivative(o)(x) if o else s(x) for x in tm[[mid]]] for o in range(4)]).reshape(4) for s in S]
    D = lambda a, o=1: derive(a, h, mid, o)
    tol = lambda *x: 2e-3 * (1. + max(abs(float(y)) for y in x))
    if name == 'Trailer':
        val, vals = hinge_numeric(v, F)
        if not val:
            return None, 'hinge rows do not hold: %s' % vals

    def cmp(what, a, b, slack=0.):
        if abs(a - b) > tol(a, b) + slack:
            return False, '%s: %.6g, expected %.6g (derivatives of the plan at the sample: %s)' % (what, a, b, [f.round(4).tolist() for f in F])
        return True, '%.6g vs %.6g' % (a, b)
    ns = models.NSTATE[name]
    rate = np.ravel(v.ode(st[:, mid], inp[:, mid]))
    pose = np.asarray(v._state2pose(st), float)[:, mid]
    i = int(kk[-1]) if kk[-1].isdigit() else 0
    if kk == 'shape':
        return (st.shape[0], inp.shape[0], len(rate)) == (ns, models.NINPUT[name], ns), 'shapes %s %s %d' % (st.shape, inp.shape, len(rate))
    if kk.startswith('ode'):
        sl = 1.01e-3 * (1. if i < 2 else 1. / v.l_hitch) if name == 'Trailer' and i < 3 else 0.
        return cmp('d/dt state[%d] along the stored signals against ode(state, input)' % i, D(st[i]), rate[i], sl)
    if kk.startswith('start'):
        return cmp('state[%d] at the first sample against the start of the plan' % i, st[i, 0], float(first[i]))
    if kk.startswith('pose'):
        if kk in ('pose-cos', 'pose-sin'):
            g = F[-1][0] if name == 'HolonomicOrient' else F[1][0]
            return cmp('heading of the pose', (np.cos if kk[-3:] == 'cos' else np.sin)(pose[2]), ((1 - g * g) if kk[-3:] == 'cos' else 2 * g) / (1 + g * g))
        if name == 'Trailer':
            if i > 1:
                return cmp('pose[%d]' % i, pose[i], st[i, mid])
            g = F[0][0]
            return cmp('distance from axle to lead vehicle', st[3 + i, mid] - pose[i], v.l_hitch * ((1 - g * g), 2 * g)[i] / (1 + g * g))
        return cmp('pose[%d]' % i, pose[i], F[i][0] if flat_known(name) else st[i, mid])
    if kk.startswith(('veh', 'trailer')):
        j, g = (5, F[2][0]) if kk.startswith('veh') else (2, F[0][0])
        return cmp('heading of the pose', (np.cos if kk[-3:] == 'cos' else np.sin)(pose[j]), ((1 - g * g) if kk[-3:] == 'cos' else 2 * g) / (1 + g * g))
    if kk.startswith('thrust'):
        npos = NPOS.get(name, 2)
        acc = np.array([D(st[j], 2) for j in range(npos)])
        acc[-1] += v.g
        sn, cs = np.sin, np.cos
        up = [-sn(pose[2]), cs(pose[2])] if name == 'Quadrotor' else [sn(pose[4]) * cs(pose[3]), -sn(pose[3]), cs(pose[4]) * cs(pose[3])]
        a, b = acc[i], inp[0, mid] * up[i]
        return (True, '') if abs(a - b) <= 2e-2 * (1 + abs(a)) else (False, 'thrust along the body axis gives %.5g, planned acceleration %.5g' % (b, a))
    if kk == 'r1':
        a = np.abs(sig['r1'][:, mid] - F[0][:2]).max()
        return a <= 1e-6, 'r1 %s, planned %s' % (sig['r1'][:, mid], F[0][:2])
    if kk == 'v_tot':
        d = np.array([D(st[j]) for j in range(NPOS.get(name, 2))])
        return cmp('v_tot', float(sig['v_tot'][0, mid]), float(np.linalg.norm(d)))
    if kk == 'delta':
        return cmp('delta', float(sig['delta'][0, mid]), st[3, mid])
    if kk == 'rest':
        g, dv, ddg = F[1][0], F[0][1], F[1][2]
        return cmp('steering angle at standstill', st[3, 0], float(np.arctan((-1 if name == 'AGV' else 1) * 2 * v.length * ddg / (dv * (1 + g * g) ** 2))))
    for sname, (src, ix, order) in DERIV.get(name, {}).items():
        if kk == '%s%d' % (sname, i):
            a = (st if src == 'state' else inp)[ix[i]]
            x, y = float(sig[sname][i, mid]), D(a, order)
            ok = abs(x - y) <= (2e-3 if order == 1 else 5e-2) * (1 + abs(y))
            return ok, '%s[%d] = %.6g, derivative of the signal %.6g' % (sname, i, x, y)
    return None, 'no claim ' + key


def flat_known(name):
    return name in ('Holonomic', 'Quadrotor', 'Holonomic1D', 'Holonomic3D', 'SimpleQuadrotor3D', 'Tool', 'HolonomicOrient')


def derive(a, h, i, order):
    """derivative of a sampled signal by a local polynomial fit"""
    n = len(a)
    half = 40
    lo, hi = max(0, i - half), min(n, i + half + 1)
    x = (np.arange(lo, hi) - i) * h * 100
    y = np.unwrap(a[lo:hi]) if order == 1 else a[lo:hi]
    p = np.polynomial.Polynomial.fit(x, y, 5).convert().coef
    p = list(p) + [0.] * 6
    from math import factorial
    return p[order] * factorial(order) * 100. ** order


def hinge_numeric(v, F):
    """rows of the trailer at the sample, on numbers"""
    class N(object):
        def __init__(self, f):
            self.f = f

        def derivative(self, o=1):
            return self.f[o]
    class V(float):
        pass
    vals = []
    with env.patched([(type(v), 'define_constraint', lambda self, e, lb, ub, *a, **k: vals.append((float(e), lb, ub)))]):
        v.lead_veh.define_trajectory_constraints = lambda *a, **k: None
        S = []
        for f in F:
            x = V(f[0])
            x.derivative = (lambda o=1, f=f: f[o])
            S.append(x)
        v.define_trajectory_constraints(S, 1.)
        del v.lead_veh.define_trajectory_constraints
    return all(lb - 1e-7 <= e <= ub + 1e-7 for e, lb, ub in vals), vals


def tasks(tier, seed):
    out = []
    for n in NAMES:
        for nsig in (False, True):
            out.append(('%s %s' % (n, 'later' if nsig else 'first'), ('model', n, nsig)))
    for n in ('Bicycle', 'AGV'):
        for nsig in (False, True):
            out.append(('%s rest %s' % (n, 'later' if nsig else 'first'), ('rest', n, nsig)))
    return out
