"""C10: obstacle prediction, simulation and commanded changes agree; bouncing obstacles stay in the room."""
import math
import numpy as np
import casadi as cas
from fractions import Fraction as F
from .. import env, expr, casx, ode
from ..expr import R, lift, band, bor, bnot, symvec, ite
from ..solver import prove, check
from ..env import omg_modules, sym_modules, patched, quiet
from .c16 import patches as exact_geometry
from ..decide import decide, same, close
import omgtools as omg
import omgtools.basics.shape as shp
from omgtools.environment.obstacle import Obstacle
from omgtools.environment.environment import Environment

INFO = dict(
    explanation='the real Obstacle and Environment run on symbolic positions, velocities, accelerations, command times and command values; '
                'every sample of the recorded signals is compared with the closed form of the motion, the CasADi expressions of the planned '
                'obstacle are translated and compared with the same closed form; z3 decides each equation on every path',
    bounds=['2D and 3D obstacles', 'two simulate() calls of 1-3 samples, sample times 0.5, 0.25, 0.1', 'two commanded changes at any two times in (0, 3)',
            'an input trajectory of two samples through a jerk model', 'turn rates +-0.4, +-1.3, 3 rad/s, horizons 3 and 10 s, any start angle',
            'bounce: circle and rectangle obstacles of one size in a 4 x 3 room, any position and velocity with a step below 1 m'],
    outside=['accuracy of the numerical integrator (odeint is replaced by the exact solution)', 'bouncing in rooms that are not rectangles',
             'which way an obstacle bounces off another obstacle (only its speed is checked)',
             'between eighths of a turn the predicted orientation deviates from constant rate by up to about one degree (rational circle)'],
    stubs=['scipy odeint = exact solution of the affine nilpotent system between the command times', 'scipy interp1d (zero, linear) = its definition'],
    assumptions=['command times of one signal ascend'])


def patches():
    return exact_geometry() + ode.stubs(omg_modules())


def num(m, v):
    return [m.get(x.args[0], 0.) for x in v]


def motion(x, v, a, tau):
    return ([p + q * tau + r * tau * tau * F(1, 2) for p, q, r in zip(x, v, a)], [q + r * tau for q, r in zip(v, a)], list(a))


# ------------------------------------------------- simulation against the closed form

SIM = {  # (commands, calls of simulate)
    'none': ((), ((1., 0.5), (0.75, 0.25))),
    'tenths': ((), ((0.3, 0.1), (0.7, 0.1))),
    'vel-vel': (('velocity', 'velocity'), ((1., 0.5), (1., 0.5))),
    'pos-acc': (('position', 'acceleration'), ((1., 0.5), (1., 0.5))),
    'vel-pos': (('velocity', 'position'), ((0.5, 0.5), (1.5, 0.5))),
    'acc-vel': (('acceleration', 'velocity'), ((2., 1.),)),
    'acc-acc': (('acceleration', 'acceleration'), ((1., 1.), (1., 1.))),
    'start-vel': (('velocity0', 'velocity'), ((1., 0.5), (1., 0.5))),
    'start-pos': (('position0', 'velocity'), ((1., 0.5), (1., 1.))),
    'start-all': (('position0', 'velocity0', 'acceleration0'), ((1., 0.5), (1., 1.))),
}
KEYS = ('position', 'velocity', 'acceleration')


def commands(kind, n, value):
    """{key: {time, values}}, with value(name) a number or a symbol"""
    out = {}
    for i, key in enumerate(SIM[kind][0]):
        zero = key.endswith('0')
        key = key.rstrip('0')
        d = out.setdefault(key, {'time': [], 'values': []})
        d['time'].append(0. if zero else value('tc%d' % i))
        d['values'].append([value('c%d_%d' % (i, j)) for j in range(n)])
    return out


def build(kind, n, value, shape=None):
    start = {'position': [value('x%d' % j) for j in range(n)], 'velocity': [value('v%d' % j) for j in range(n)],
             'acceleration': [value('a%d' % j) for j in range(n)]}
    if n == 2:
        start['orientation'] = value('theta')
        start['angular_velocity'] = value('omega')
    given = dict(start)
    shape = shape or (shp.Circle(0.3) if n == 2 else shp.Sphere(0.3))
    cmd = commands(kind, n, value)
    o = Obstacle(start, shape, {'trajectories': cmd} if cmd else {})
    return o, given, start


def expected(kind, n, value, t, branch=ite):
    """position, velocity, acceleration at time t after the start at time 0"""
    x, v, a = [[value('%s%d' % (s, j)) for j in range(n)] for s in 'xva']
    S = dict(position=x, velocity=v, acceleration=a)
    late = []
    for key, d in commands(kind, n, value).items():
        for tc, val in zip(d['time'], d['values']):
            if isinstance(tc, float) and tc == 0.:
                S[key] = val
            else:
                late.append((key, tc, val))
    x, v, a = motion(S['position'], S['velocity'], S['acceleration'], t)
    for key, tc, val in late:
        z = [0] * n
        p = motion(val if key == 'position' else z, val if key == 'velocity' else z, val if key == 'acceleration' else z, t - tc)
        x, v, a = [[q + branch(tc <= t, lift(d), lift(0)) for q, d in zip(s, e)] for s, e in zip((x, v, a), p)]
    return x, v, a


def task_sim(t, kind, n):
    sym = R.var
    cmds, calls = SIM[kind]
    asm = []
    names = [i for i, c in enumerate(cmds) if not c.endswith('0')]
    for i in names:
        asm += [sym('tc%d' % i) > 0, sym('tc%d' % i) < 3]
    if len(names) == 2 and cmds[names[0]] == cmds[names[1]]:
        asm.append(sym('tc%d' % names[0]) <= sym('tc%d' % names[1]))
    exact = all(float(d).as_integer_ratio()[1] < 1024 for _, d in calls)
    lim = [c for s in 'xva' for j in range(n) for c in (sym('%s%d' % (s, j)) <= 100, sym('%s%d' % (s, j)) >= -100)]
    if not exact:
        asm = asm + lim

    def run():
        ode.fresh()
        o, given, start = build(kind, n, sym)
        with quiet():
            for T, d in calls:
                o.simulate(T, d)
        return o, given, start
    times = [0.]
    for T, d in calls:
        k = int(round(T / d))
        times += [times[-1] + (i + 1) * d for i in range(k)] if exact else list(times[-1] + (np.arange(k) + 1) * d)

    def claims(res):
        o, given, start = res
        s = o.signals
        N = len(times)
        out = []
        shape_ok = all(s[k].shape == (n, N) for k in KEYS) and s['time'].shape == (N,)
        if n == 2:
            shape_ok = shape_ok and s['orientation'].shape == (1, N) and s['angular_velocity'].shape == (1, N)
        out.append(('one entry per sample', [], expr.TRUE if shape_ok else expr.FALSE))
        if not shape_ok:
            return out
        cmp = same if exact else (lambda a, b: close(a, b, F(1, 10**7)))
        out.append(('time stamps', [], close(s['time'], times, F(1, 10**9))))
        for k in range(N):
            x, v, a = expected(kind, n, sym, lift(times[k]))
            for key, e in zip(KEYS, (x, v, a)):
                out.append(('%s at sample %d' % (key, k), [], cmp(s[key][:, k], e)))
            if n == 2:
                out.append(('orientation at sample %d' % k, [], close([s['orientation'][0, k], s['angular_velocity'][0, k]],
                                                                    [sym('theta') + sym('omega') * times[k], sym('omega')], 0 if exact else F(1, 10**7))))
        out.append(('the description given by the user is not changed', [], band(*[same(np.ravel(start[k]), np.ravel(given[k])) for k in given])
                    if sorted(start) == sorted(given) else expr.FALSE))
        return out
    if not exact:
        asm = asm + [sym('theta') <= 10, sym('theta') >= -10, sym('omega') >= -10, sym('omega') <= 10]
    decide(t, 'simulate(%s,%dD)' % (kind, n), asm, run, claims, 'sim', [kind, n], patches(), normal=True)


def replay_sim(case):
    kind, n = case['extra']
    m = case['model']
    value = lambda s: float(m.get(s, 0.7 if s.startswith('tc') else 0.))
    o, given, start = build(kind, n, value)
    with quiet():
        for T, d in SIM[kind][1]:
            o.simulate(T, d)
    times = [0.]
    for T, d in SIM[kind][1]:
        times += list(times[-1] + (np.arange(int(round(T / d))) + 1) * d)
    s = o.signals
    if any(s[k].shape != (n, len(times)) for k in KEYS) or s['time'].shape != (len(times),):
        return False, '%d samples expected, recorded %s' % (len(times), [s[k].shape for k in KEYS + ('time',)])
    if not np.allclose(s['time'], times, atol=1e-9):
        return False, 'time stamps %s, expected %s' % (s['time'], times)
    if start != given:
        return False, 'initial dictionary %s became %s' % (given, start)
    pick = lambda c, a, b: a.value if c else b.value
    for k, tt in enumerate(times):
        e = expected(kind, n, value, tt, lambda c, a, b: float(a.value) if c else 0.)
        # at a command time itself rounding of the time decides
        if any(abs(tc - tt) < 1e-7 for i, tc in enumerate(value('tc%d' % i) for i, c in enumerate(SIM[kind][0]) if not c.endswith('0'))):
            continue
        for key, w in zip(KEYS, e):
            w = np.array([float(lift(q).value) for q in w])
            if not np.allclose(s[key][:, k], w, atol=1e-4, rtol=1e-4):
                return False, '%s at time %g is %s, expected %s (commands %s)' % (key, tt, s[key][:, k], w, commands(kind, n, value))
        if n == 2 and abs(s['orientation'][0, k] - value('theta') - value('omega') * tt) > 1e-6 * (1 + abs(value('omega'))):
            return False, 'orientation at time %g is %g, expected %g' % (tt, s['orientation'][0, k], value('theta') + value('omega') * tt)
    return True, 'recorded signals as expected'


# -------------------------------------------------------- an input through a model

def jerk_obstacle(value):
    A = np.kron(np.array([[0., 1., 0.], [0., 0., 1.], [0., 0., 0.]]), np.eye(2))
    B = np.zeros((6, 1))
    B[4, 0] = 2.
    start = {s: [value('%s%d' % (s[0], j)) for j in range(2)] for s in KEYS}
    return Obstacle(start, shp.Circle(0.3), {'model': {'A': A, 'B': B},
                                             'trajectories': {'input': {'time': [0., 1.], 'values': [[value('u0')], [value('u1')]]}}})


def jerk_expected(value, t):
    """jerk 2u along x, u linear from u0 to u1 in the first second and constant afterwards; t = 1/2, 1, 3/2"""
    x, v, a = [[value('%s%d' % (s, j)) for j in range(2)] for s in 'pva']
    u0, du = value('u0'), value('u1') - value('u0')
    first = min(t, F(1)) if isinstance(t, F) else min(t, 1.)

    def seg(x, v, a, u, s, h):
        return (x + v * h + a * (h**2 / 2) + 2 * (u * (h**3 / 6) + s * (h**4 / 24)), v + a * h + 2 * (u * (h**2 / 2) + s * (h**3 / 6)),
                a + 2 * (u * h + s * (h**2 / 2)))
    w = seg(x[0], v[0], a[0], u0, du, first)
    if t > 1:
        w = seg(w[0], w[1], w[2], value('u1'), 0, t - 1)
    y = motion(x[1:], v[1:], a[1:], t)
    return [[w[i], y[i][0]] for i in range(3)]


def task_input(t):
    sym = R.var

    def run():
        ode.fresh()
        o = jerk_obstacle(sym)
        with quiet():
            o.simulate(1., 0.5)
            o.simulate(0.5, 0.5)
        return o
    decide(t, 'simulate(input)', [], run,
           lambda o: [('%s at sample %d' % (key, k), [], same(o.signals[key][:, k], e)) for k, tt in enumerate((F(0), F(1, 2), F(1), F(3, 2)))
                      for key, e in zip(KEYS, jerk_expected(sym, tt))], 'input', None, patches(), normal=True)


def replay_input(case):
    m = case['model']
    value = lambda s: float(m.get(s, 0.))
    o = jerk_obstacle(value)
    o.simulate(1., 0.5)
    o.simulate(0.5, 0.5)
    for k, tt in enumerate((0., .5, 1., 1.5)):
        for key, e in zip(KEYS, jerk_expected(value, tt)):
            if not np.allclose(o.signals[key][:, k], e, atol=1e-4, rtol=1e-4):
                return False, '%s at time %g is %s, expected %s' % (key, tt, o.signals[key][:, k], e)
    return True, 'as expected'


# ------------------------------------------------------------------- prediction

def planned(n, horizons):
    """the real prediction: (functions of x, v, a, t, T.. giving the position coefficients per axis, knots, degree)"""
    o = Obstacle({'position': [0.5] * n, 'velocity': [0.1] * n}, shp.Circle(0.3) if n == 2 else shp.Sphere(0.3))
    T = [cas.MX.sym('T%d' % k) for k in range(horizons)]
    if horizons == 0:
        o.init()
        T = [o.T]
    elif horizons == 1:
        o.init(horizon_times=T[0])
    else:
        o.init(horizon_times=T)
    p = o._parameters
    f = cas.Function('p', [p['x'], p['v'], p['a'], o.t] + T, [s.coeffs for s in o.pos_spline])
    return o, f, o.pos_spline[0].basis


def bern2(c, s):
    return c[0] * (1 - s) * (1 - s) + c[1] * 2 * s * (1 - s) + c[2] * s * s


def task_predict(t, n, horizons):
    o, f, basis = env.real(planned, n, horizons)
    ok = basis.degree == 2 and list(basis.knots) == [0, 0, 0, 1, 1, 1]
    t.ok('prediction is a parabola') if ok else t.unknown('prediction basis is not one quadratic piece')
    if not ok:
        return
    x, v, a = symvec('x', n), symvec('v', n), symvec('a', n)
    tt, s = R.var('t'), R.var('s')
    T = [R.var('T%d' % k) for k in range(max(1, horizons))]
    # the current sample, taken at time t of the horizon, goes to x, v, a
    o2 = o
    o2.signals['position'], o2.signals['velocity'], o2.signals['acceleration'] = [np.c_[np.array(list(w) , object)] for w in (x, v, a)]
    par = o2.set_parameters(R.var('now'))[o2]
    out = casx.translate(f, [list(np.ravel(par[k])) for k in 'xva'] + [[tt]] + [[q] for q in T])
    # the last segment starts after the earlier ones
    tau = sum(T[:-1], lift(0)) + T[-1] * s - tt
    e = motion(x, v, a, tau)[0]

    def case(m):
        return dict(kind='predict', extra=[n, horizons], model={k: float(w) for k, w in m.items()})
    from ..norm import Norm
    nm = Norm()
    for k in range(n):
        verdict, m = prove([], nm(bern2(out[k], s) == e[k]), 30000)
        what = 'predict(%dD,%d segments): axis %d of the planned position is the constant-acceleration motion through the current sample' % (n, horizons, k)
        if verdict == 'proved':
            t.ok(what)
        elif verdict == 'refuted':
            t.counterexample('predict:%dD:%d:axis%d' % (n, horizons, k), what, case(m))
        else:
            t.unknown(what)


def replay_predict(case):
    n, horizons = case['extra']
    m = case['model']
    o, f, basis = planned(n, horizons)
    x, v, a = [np.array([m.get('%s[%d]' % (s, j), m.get('%s%d' % (s, j), m.get('%s_%d' % (s, j), 0.))) for j in range(n)]) for s in 'xva']
    T = [m.get('T%d' % k, 1.) for k in range(max(1, horizons))]
    tt, s = m.get('t', 0.), m.get('s', 0.)
    o.signals['position'], o.signals['velocity'], o.signals['acceleration'] = np.c_[x], np.c_[v], np.c_[a]
    par = o.set_parameters(0.)[o]
    out = [np.array(c).ravel() for c in f(par['x'], par['v'], par['a'], tt, *T)]
    tau = sum(T[:-1]) + T[-1] * s - tt
    e = x + v * tau + 0.5 * a * tau**2
    g = np.array([bern2(c, s) for c in out])
    return bool(np.allclose(g, e, atol=1e-7, rtol=1e-7)), 'x %s v %s a %s sampled at %g of horizon(s) %s: predicted %s at %g, expected %s' % (x, v, a, tt, T, g, tau, e)


def turning(omega, T):
    o = Obstacle({'position': [0.5, 0.2], 'orientation': 0.3, 'angular_velocity': omega}, shp.Rectangle(1., 0.4), options={'horizon_time': T})
    o.init()
    return o


def task_turn(t, omega, T):
    """the planned cosine, sine and weight: on the circle, exact at eighths of a turn, in the direction of the turn rate"""
    o = env.real(turning, omega, T)
    th = o._parameters['theta']
    parts = (o.cos, o.sin, o.gon_weight)
    f = cas.Function('o', [th, o.t], [cas.MX(p.coeffs) for p in (o.cos, o.sin)])
    theta, tt = R.var('theta'), R.var('t')
    th0 = theta - tt * omega
    C, S = expr.fun('cos', th0), expr.fun('sin', th0)
    o.signals['orientation'] = np.array([[theta]], object)
    par = o.set_parameters(0.)[o]
    cs = casx.translate(f, [list(np.ravel(par['theta'])), [tt]])
    c, d = R.var('c'), R.var('d')
    cs = [expr.substitute(x, {C: c, S: d}) for x in cs]
    left = [v for x in cs for v in expr.topo(x) if v.op == 'v' and v.args[0] in ('theta', 't')]
    what = 'turn(%g,%g)' % (omega, T)

    def fail(key, text, m=None, extra=None):
        t.counterexample('%s:%s' % (what, key), text, dict(kind='turn', extra=[omega, T] + list(extra or ()), model={k: float(v) for k, v in (m or {}).items()}))
    if left:
        return fail('angle', 'the predicted orientation does not depend on the current angle as theta - t*omega')
    w = np.array(o.gon_weight.coeffs, float)
    kn, deg = o.cos.basis.knots, o.cos.basis.degree
    if not (o.gon_weight.basis.degree == deg == 2 and np.allclose(o.gon_weight.basis.knots, kn) and np.allclose(o.sin.basis.knots, kn)):
        return t.unknown(what + ': bases differ')
    from .. import ref
    pcs = ref.basis_polys([F(float(x)) for x in kn], 2)
    s = R.var('s')
    unit = c * c + d * d == 1

    def at(coefs, Bp, x):
        r = lift(0)
        for j, p in enumerate(Bp):
            pw = lift(1)
            for e in p:
                if e:
                    r = r + lift(coefs[j]) * lift(e) * pw
                pw = pw * x
        return r
    eps = F(1, 10**6)
    for i, (lo, hi, Bp) in enumerate(pcs):
        if hi - lo < F(1, 10**9):
            continue
        X, Y, W = [at(q, Bp, s) for q in (cs[0], cs[1], [F(float(v)) for v in w])]
        dX, dY, dW = [expr.diff(q, {s: lift(1)}) for q in (X, Y, W)]
        hyp = [unit, s >= lo, s <= hi]
        goals = [('the weight is positive', W >= F(1, 2)), ('cosine and sine lie on the circle', band(X * X + Y * Y - W * W <= eps, W * W - X * X - Y * Y <= eps)),
                 ('it turns the right way', (X * dY - Y * dX) * (1 if omega > 0 else -1) > 0)]
        for g, goal in goals:
            # c, d only turn the picture: X = p c - q d, Y = p d + q c
            v, m = prove(hyp, goal, 30000)
            if v == 'proved':
                t.ok('%s: %s' % (what, g))
            elif v == 'refuted':
                fail(g.replace(' ', '-'), '%s: %s' % (what, g), m)
            else:
                t.unknown('%s: %s (piece %d)' % (what, g, i))
    # eighths of a turn
    n8 = int(math.floor(abs(omega) * T / (math.pi / 4) + 1e-9))
    for k in range(n8 + 1):
        u = F(float(k * (math.pi / 4) / abs(omega) / T))
        u = min(u, F(1))
        a = k * math.pi / 4 * (1 if omega > 0 else -1)
        ca, sa = F(math.cos(a)), F(math.sin(a))
        lo, hi, Bp = next(p for p in pcs if p[0] <= u <= p[1] and p[1] - p[0] > F(1, 10**9))
        X, Y, W = [at(q, Bp, lift(u)) for q in (cs[0], cs[1], [F(float(v)) for v in w])]
        goal = close([X, Y], [W * (c * ca - d * sa), W * (d * ca + c * sa)], eps)
        v, m = prove([unit], goal, 30000)
        g = 'the angle after %d eighths of a turn' % k
        if v == 'proved':
            t.ok('%s: %s' % (what, g))
        elif v == 'refuted':
            fail('eighth%d' % k, '%s: %s' % (what, g), m, [k])
        else:
            t.unknown('%s: %s' % (what, g))


def replay_turn(case):
    omega, T = case['extra'][:2]
    m = case['model']
    o = turning(omega, T)
    theta = math.atan2(m.get('d', 0.), m.get('c', 1.)) + m.get('t', 0.) * omega
    o.signals['orientation'] = np.array([[theta]])
    par = o.set_parameters(0.)[o]
    f = cas.Function('o', [o._parameters['theta'], o.t], [cas.MX(p.coeffs) for p in (o.cos, o.sin)])
    c, s = [np.array(q).ravel() for q in f(par['theta'], m.get('t', 0.))]
    from omgtools.basics.spline import BSpline
    u = np.linspace(0, 1, 201)
    ev = lambda b, q: np.array(BSpline(b, q)(u)).ravel()
    C, S, W = ev(o.cos.basis, c), ev(o.sin.basis, s), ev(o.gon_weight.basis, np.array(o.gon_weight.coeffs, float))
    a = theta - m.get('t', 0.) * omega + omega * T * u
    err = np.abs(np.arctan2(S / W * np.cos(a) - C / W * np.sin(a), C / W * np.cos(a) + S / W * np.sin(a)))
    rad = np.abs(np.hypot(C / W, S / W) - 1)
    return bool(err.max() < 0.03 and rad.max() < 1e-6), 'turn rate %g, horizon %g: predicted angle off by up to %g rad, radius by %g' % (omega, T, err.max(), rad.max())


# ------------------------------------------------------------------- bouncing

ROOM = dict(w=4., h=3., x=1., y=-0.5)
BODY = {'ball': (lambda: shp.Circle(0.25), (0.25, 0.25)), 'block': (lambda: shp.Rectangle(0.75, 0.5), (0.375, 0.25))}
DT = 0.5


def bouncing(body, value, others=()):
    o = Obstacle({'position': [value('x0'), value('x1')]}, BODY[body][0](),
                 {'trajectories': {'velocity': {'time': [0.], 'values': [[value('v0'), value('v1')]]}}}, {'bounce': True})
    e = Environment({'shape': shp.Rectangle(ROOM['w'], ROOM['h']), 'position': [ROOM['x'], ROOM['y']]}, [o] + [Obstacle({'position': p}, s()) for p, s in others])
    return e, o


def walls(body):
    b = BODY[body][1]
    return [(ROOM[c] - ROOM[s] / 2 + b[k], ROOM[c] + ROOM[s] / 2 - b[k]) for k, (c, s) in enumerate((('x', 'w'), ('y', 'h')))]


def invariant(body, x, v):
    """no further outside than one step of the motion across that wall"""
    out = []
    for (lo, hi), p, q in zip(walls(body), x, v):
        q = abs(lift(q))
        out += [p <= F(hi) + q * F(DT), p >= F(lo) - q * F(DT)]
    return band(*out)


def task_bounce(t, body):
    sym = R.var
    x, v = [sym('x0'), sym('x1')], [sym('v0'), sym('v1')]
    asm = [invariant(body, x, v)] + [c for q in v for c in (q >= -2, q <= 2)] + [bor(v[0] < 0, v[0] > 0, v[1] < 0, v[1] > 0)]
    inside = band(*[c for (lo, hi), p in zip(walls(body), x) for c in (p >= F(lo), p <= F(hi))])

    def run():
        ode.fresh()
        e, o = bouncing(body, sym)
        with quiet():
            e.simulate(DT, DT)
        return o

    def claims(o):
        p, w = o.signals['position'][:, -1], o.signals['velocity'][:, -1]
        return [('one more sample', [], expr.TRUE if o.signals['position'].shape == (2, 2) and o.signals['velocity'].shape == (2, 2) else expr.FALSE),
                ('keeps its speed', [], w[0] * w[0] + w[1] * w[1] == v[0] * v[0] + v[1] * v[1]),
                ('inside it moves on unchanged', [inside], same(list(w) + list(p), v + [a + b * F(DT) for a, b in zip(x, v)])),
                ('stays in the room up to one step of motion', [], invariant(body, p, w))]
    decide(t, 'bounce(%s)' % body, asm, run, claims, 'bounce', body, patches())
    far = [band(lift(x[0]) > F(walls(body)[0][1]), v[0] > 0), band(x[1] < F(walls(body)[1][0]), v[1] < 0)]
    for g in far:
        t.reach(check(asm + [g])[0] == 'sat', 'bounce: crossing a wall is possible')


def replay_bounce(case):
    m, body = case['model'], case['extra']
    value = lambda s: float(m.get(s, 0.))
    e, o = bouncing(body, value)
    # what really happens from here
    track = []
    with quiet():
        for _ in range(40):
            e.simulate(DT, DT)
            track.append(list(o.signals['position'][:, -1]) + list(o.signals['velocity'][:, -1]))
    v = [value('v0'), value('v1')]
    sp = math.hypot(*v)
    for k, (x, y, vx, vy) in enumerate(track):
        if abs(math.hypot(vx, vy) - sp) > 1e-6:
            return False, 'speed %g became %g' % (sp, math.hypot(vx, vy))
        for (lo, hi), p in zip(walls(body), (x, y)):
            out = max(lo - p, p - hi)
            if out > sp * DT + 1e-6:
                return False, '%s at (%g, %g) with velocity %s: after %d updates of %g s it is %g outside the room' % (
                    body, value('x0'), value('x1'), v, k + 1, DT, out)
    lim = walls(body)
    p0 = [value('x0'), value('x1')]
    if all(lo + 1e-9 <= p <= hi - 1e-9 for (lo, hi), p in zip(lim, p0)):
        e = [p + q * DT for p, q in zip(p0, v)]
        if not np.allclose(track[0], e + v, atol=1e-6):
            return False, 'inside the room at %s with velocity %s: next state %s' % (p0, v, track[0])
    return True, 'stays within reach of the room'


def task_meet(t, body):
    """off another obstacle: the speed is kept"""
    sym = R.var
    x, v = [sym('x0'), sym('x1')], [sym('v0'), sym('v1')]
    asm = [c for (lo, hi), p in zip(walls(body), x) for c in (p >= F(lo), p <= F(hi))] + [c for q in v for c in (q >= -2, q <= 2)]
    other = [([1.5, -0.25], BODY[body][0])]

    def run():
        ode.fresh()
        e, o = bouncing(body, sym, other)
        with quiet():
            e.simulate(DT, DT)
        return o

    def claims(o):
        w = o.signals['velocity'][:, -1]
        p = o.signals['position'][:, -1]
        return [('keeps its speed', [], w[0] * w[0] + w[1] * w[1] == v[0] * v[0] + v[1] * v[1]),
                ('moves on from where it was', [], same(p, [a + b * F(DT) for a, b in zip(x, w)]))]
    decide(t, 'meet(%s)' % body, asm, run, claims, 'meet', body, patches(), normal=True)


def replay_meet(case):
    m, body = case['model'], case['extra']
    value = lambda s: float(m.get(s, 0.))
    e, o = bouncing(body, value, [([1.5, -0.25], BODY[body][0])])
    with quiet():
        e.simulate(DT, DT)
    w, p = o.signals['velocity'][:, -1], o.signals['position'][:, -1]
    v, x = np.array([value('v0'), value('v1')]), np.array([value('x0'), value('x1')])
    return bool(abs(np.linalg.norm(w) - np.linalg.norm(v)) < 1e-6 and np.allclose(p, x + DT * w, atol=1e-6)), \
        'at %s with velocity %s: next position %s, velocity %s' % (x, v, p, w)


def tasks(tier, seed):
    out = [('sim %s %dD' % (k, n), ('sim', k, n)) for k in SIM for n in ((2,) if tier == 'quick' and k not in ('none', 'vel-vel') else (2, 3))]
    out += [('input', ('input',))]
    out += [('predict %dD %d' % (n, h), ('predict', n, h)) for n in (2, 3) for h in (0, 1, 2, 3)]
    turns = [(0.4, 10.), (-1.3, 3.), (1.3, 3.), (3., 10.)] if tier == 'quick' else [(0.4, 10.), (-0.4, 10.), (-1.3, 3.), (1.3, 3.), (3., 10.), (-3., 3.), (0.1, 5.)]
    out += [('turn %g %g' % w, ('turn',) + w) for w in turns]
    out += [('bounce ' + b, ('bounce', b)) for b in BODY]
    out += [('meet ' + b, ('meet', b)) for b in BODY]
    return out
