"""C11: one consistent clock over sampling, predicting, shifting and applying plans."""
import math
import types
import numpy as np
from fractions import Fraction as F
from .. import env, expr, ode, spl, ref, scen, models
from ..expr import R, lift, band, bor, bnot
from ..env import omg_modules, sym_modules, patched, unpatched, quiet
from ..decide import decide, same, close
from ..lin import PW, curve_diffs
import omgtools as omg
from omgtools.basics.shape import Rectangle
from omgtools.problems import multiframeproblem as mfm
from omgtools.execution.simulator import Simulator
from omgtools.execution.deployer import Deployer
from omgtools.problems import point2point as p2pm
from omgtools.execution.plotlayer import PlotLayer

INFO = dict(
    explanation='the real Simulator, Deployer, point-to-point problems and Vehicle run with the interior-point solver replaced by a stand-in that '
                'returns symbolic spline coefficients; clock values are symbolic (with symbolic float error around whole numbers of samples and knots); '
                'z3 decides that every sample, prediction, shift and window refers to the same instant',
    bounds=['horizon / knot intervals / sample time: 2 s/2/0.5, 1 s/5/0.1, 12 s/10/1, 10 s/3/2, 1.001 s/4/0.1, 7/3 s/3/0.25; update times from one sample to the horizon',
            'a clock value lies within 1e-8 of a knot or at least 1e-5 away from it; an update lasts a whole number of samples up to a relative float error of 1e-9',
            'up to 6 knots passed (clock), up to 3 knots in one update (shift); windows of 1 to 7 samples, delays of 0 to 2 samples',
            'loops of 3 to 6 updates, with pauses and restarts, on concrete timings and arbitrary plans (any spline coefficients)',
            'free motion time in (2 updates, 4 s]; two segments per plan in multi-room problems',
            'models Holonomic1D, Holonomic, Holonomic3D (state integrated from the input); distributed problems with 2 and 3 vehicles'],
    outside=['the interior of the free-time warm start (a projection on new knots, by design inexact), the nearly arrived branch (less than two updates left) and the guess of variables other than splines',
             'states measured on hardware between updates other than through the given state', 'input disturbance and first-order actuator delay'],
    stubs=['nlpsol: returns any coefficients', 'odeint / interp1d: exact integration of the linearly interpolated input', 'plotting'],
    assumptions=['spline evaluation follows the B-spline definition (decided in C01)', 'the plans satisfy |coefficient| <= 100 in comparisons with tolerance 1e-3'])

NOISE = F(1, 10**9)


def patches():
    ms = omg_modules()
    return spl.spline_patches(ms) + ode.stubs(ms)


class Store(object):
    """stands for the CasADi structure that holds the decision variables: same indexing, any values"""

    def __init__(self, d=None):
        self.d = dict(d or {})

    @staticmethod
    def key(k):
        return (k,) if not isinstance(k, tuple) else k

    def __getitem__(self, k):
        return self.d[self.key(k)]

    def __setitem__(self, k, v):
        v = np.array(v, object) if not isinstance(v, np.ndarray) else v
        if v.ndim == 0:
            v = v.reshape(1, 1)
        elif v.ndim == 1:
            v = v.reshape(-1, 1)
        self.d[self.key(k)] = v

    def prefix(self, p):
        return Store({k[1:]: v for k, v in self.d.items() if k[0] == p})

    def __call__(self, v):
        return v if isinstance(v, Store) else Store()

    def copy(self):
        return Store({k: v.copy() for k, v in self.d.items()})


# ------------------------------------------------- one vehicle, any trajectory

def veh(name, **opts):
    with unpatched():
        v = models.vehicle(name, options=opts)
        v.define_knots(knot_intervals=3)
    v.to_simulate = True
    v.update_plots = lambda *a, **k: None
    return v


def traj(v, n, value, tag='', t0=0., Ts=1.):
    """any trajectory of n samples of a model whose state is integrated from its input"""
    d = {'Holonomic': 2, 'Holonomic1D': 1, 'Holonomic3D': 3}[type(v).__name__]
    out = {}
    for key, m in (('state', d), ('input', d), ('splines', d), ('dinput', d)):
        out[key] = np.array([[value('%s%s%d_%d' % (tag, key, i, k)) for k in range(n)] for i in range(m)], object)
    out['time'] = np.array([[lift(t0) + k * lift(Ts) if not isinstance(t0, float) else t0 + k * Ts for k in range(n)]], object)
    out['pose'] = v._state2pose(out['state'])
    return out


def numtraj(T):
    return {k: np.array(a, float) for k, a in T.items()}


def trap(x0, inp, n, Ts, first=0):
    """state after n samples of an integrator driven by the linear interpolation of the input"""
    x = [lift(q) for q in x0]
    out = [list(x)]
    for k in range(first, first + n):
        x = [p + (lift(inp[i][k]) + lift(inp[i][k + 1])) * (F(1, 2) * F(Ts)) for i, p in enumerate(x)]
        out.append(list(x))
    return out


def small(*arrays):
    return [c for a in arrays for x in np.ravel(np.array(a, object)) for c in (lift(x) <= 1000, lift(x) >= -1000)]


PRED = [  # model, ideal, number of samples per update, delay, given state
    ('Holonomic', True, 1, 0, False), ('Holonomic', True, 3, 2, True), ('Holonomic1D', True, 7, 0, False),
    ('Holonomic', False, 1, 0, False), ('Holonomic', False, 3, 0, False), ('Holonomic', False, 3, 2, True),
    ('Holonomic1D', False, 7, 1, False), ('Holonomic3D', False, 2, 1, True)]


def task_predict(t, name, ideal, n, delay, given, Ts):
    N = n + delay + 3
    sym = R.var
    e = sym('noise')
    h = F(float(Ts))

    def run():
        ode.fresh()
        v = veh(name, ideal_prediction=ideal)
        v.trajectories = traj(v, N, sym, 'p', 0., Ts)
        d = v.trajectories['state'].shape[0]
        past = traj(v, n + 2, sym, 's', -float(Ts) * n, Ts)
        v.signals = {k: a.copy() for k, a in past.items()}
        s0 = [sym('given%d' % i) for i in range(d)] if given else None
        v.predict(5., n * h + e, Ts, state0=s0, delay=delay)
        return v, past, s0

    def claims(res):
        v, past, s0 = res
        p, T = v.prediction, v.trajectories
        k = n + delay
        out = [('input at the predicted instant', [], same(p['input'], T['input'][:, k])),
               ('splines at the predicted instant', [], same(p['splines'], T['splines'][:, k]))]
        if ideal:
            out.append(('state at the predicted instant', [], same(p['state'], T['state'][:, k])))
            exp = T['state'][:, k]
        else:
            x0 = s0 if given else list(past['state'][:, -n - 1])
            exp = trap(x0, T['input'], n, Ts, delay)[n]
            out.append(('state integrated from the measured state over the update', small(T['input'], x0), close(p['state'], exp, F(1, 1000))))
        with patched(patches()):
            q = v._state2pose(np.array([lift(x) for x in exp], object))
        out.append(('pose belongs to the predicted state', [] if ideal else small(T['input'], x0), close(p['pose'], q, F(1, 1000))))
        return out
    decide(t, 'predict:%s:%s:%d+%d:%s' % (name, 'ideal' if ideal else 'ode', n, delay, Ts), [e <= NOISE * h, e >= -NOISE * h], run, claims, 'predict',
           extra=[name, ideal, n, delay, given, Ts], patches=patches(), normal=True)


def floats_near(n, Ts):
    """the floats a user program can hold for n samples"""
    c = {n * Ts, round(n * Ts, 10), sum([Ts] * n), (n + 1) * Ts - Ts, (5 + n) * Ts - 5 * Ts}
    c |= {np.nextafter(x, 0.) for x in list(c)} | {np.nextafter(x, 10.) for x in list(c)}
    return sorted(c)


def rng_value(case):
    m = case['model']
    return lambda name: m.get(name, (sum(ord(c) * (i + 3) for i, c in enumerate(name)) % 37) / 10. - 1.7)


def replay_predict(case):
    name, ideal, n, delay, given, Ts = case['extra']
    val = rng_value(case)
    for upd in floats_near(n, Ts):
        v = veh(name, ideal_prediction=ideal)
        v.trajectories = numtraj(traj(v, n + delay + 3, val, 'p', 0., Ts))
        d = v.trajectories['state'].shape[0]
        past = numtraj(traj(v, n + 2, val, 's', -float(Ts) * n, Ts))
        v.signals = {k: a.copy() for k, a in past.items()}
        s0 = [val('given%d' % i) for i in range(d)] if given else None
        try:
            v.predict(5., upd, Ts, state0=s0, delay=delay)
        except Exception as x:
            return False, 'predict(update %r, sample %r) raises %r' % (upd, Ts, x)
        T, k = v.trajectories, n + delay
        if ideal:
            exp = T['state'][:, k]
        else:
            inp = T['input']
            exp = np.array(s0 if given else past['state'][:, -n - 1]) + sum((inp[:, j] + inp[:, j + 1]) * Ts / 2 for j in range(delay, delay + n))
        for key, want in (('state', exp), ('input', T['input'][:, k]), ('splines', T['splines'][:, k]), ('pose', v._state2pose(np.array(exp)))):
            if not np.allclose(v.prediction[key], want, atol=5e-4):
                return False, 'update %r, sample %r: predicted %s is %s, at that instant it is %s' % (upd, Ts, key, v.prediction[key], want)
    return True, 'every nearby float predicts the right instant'


WINDOWS = [  # model, ideal, samples per window
    ('Holonomic', True, (2, 3)), ('Holonomic', False, (2, 3)), ('Holonomic1D', False, (3, 1, 7)), ('Holonomic1D', True, (7, 3, 1)), ('Holonomic3D', False, (1, 2))]


def window_trajs(v, wins, value, Ts):
    """trajectories of the successive plans, each starting at the instant where the previous window ends"""
    out, t0 = [], 0
    for i, n in enumerate(wins):
        out.append(traj(v, n + 2, value, 'w%d' % i, t0 * float(Ts), Ts))
        t0 += n
    return out


def task_windows(t, name, ideal, wins, Ts):
    h = F(float(Ts))
    es = [R.var('noise%d' % i) for i in range(len(wins))]
    asm = [c for e in es for c in (e <= NOISE * h, e >= -NOISE * h)]

    def run():
        ode.fresh()
        v = veh(name, ideal_update=ideal)
        trs = window_trajs(v, wins, R.var, Ts)
        for n, e, T in zip(wins, es, trs):
            v.trajectories = T
            v.trajectories_kn = {k: a[:, :2] for k, a in T.items()}
            v.prediction = {k: a[:, 0] for k, a in T.items()}
            v.simulate(n * h + e, Ts)
        return v, trs

    def claims(res):
        v, trs = res
        tot = sum(wins) + 1
        s = v.signals
        ok = all(a.shape[1] == tot for a in s.values())
        out = [('every signal has one entry per sample', [], expr.TRUE if ok else expr.FALSE)]
        per = [T['time'] for n, T in zip(wins, trs) for _ in range(n)]
        mem = all(len(m) == tot - 1 for st in (v.traj_storage, v.traj_storage_kn, v.pred_storage) for m in st.values())
        out.append(('one stored plan per sample', [], expr.TRUE if mem else expr.FALSE))
        if not (ok and mem):
            return out
        out.append(('the plan stored for a sample is the one in force', [], band(*[same(np.ravel(a)[:1], np.ravel(b)[:1]) for a, b in zip(v.traj_storage['time'], per)])))
        out.append(('time axis', [], close(s['time'][0], [F(float(Ts)) * k for k in range(tot)], F(1, 10**9))))
        for key in ('input', 'splines', 'dinput') + (('state',) if ideal else ()):
            exp = [trs[0][key][:, :1]] + [T[key][:, 1:n + 1] for n, T in zip(wins, trs)]
            out.append(('%s are those of the plans in force' % key, [], same(s[key].ravel(), np.concatenate(exp, axis=1).ravel())))
        if not ideal:
            x = list(trs[0]['state'][:, 0])
            cols = [x]
            for n, T in zip(wins, trs):
                cols += trap(cols[-1], T['input'], n, Ts)[1:]
            every = small(*[T['input'] for T in trs] + [x])
            for k, c in enumerate(cols):
                out.append(('state is the integral of the input at sample %d' % k, every, close(s['state'][:, k], c, F(1, 1000))))
        return out
    decide(t, 'windows:%s:%s:%s:%s' % (name, 'ideal' if ideal else 'ode', '-'.join(map(str, wins)), Ts), asm, run, claims, 'windows',
           extra=[name, ideal, list(wins), Ts], patches=patches(), normal=True)


def replay_windows(case):
    name, ideal, wins, Ts = case['extra']
    val = rng_value(case)
    for pick in range(15):
        v = veh(name, ideal_update=ideal)
        trs = [numtraj(T) for T in window_trajs(v, wins, val, Ts)]
        used = []
        for n, T in zip(wins, trs):
            v.trajectories = T
            v.trajectories_kn = {k: a[:, :2] for k, a in T.items()}
            v.prediction = {k: a[:, 0] for k, a in T.items()}
            c = floats_near(n, Ts)
            used.append(c[pick % len(c)])
            try:
                v.simulate(used[-1], Ts)
            except Exception as x:
                return False, 'simulate of windows %s, sample time %r raises %r' % (used, Ts, x)
        tot = sum(wins) + 1
        s = v.signals
        for k, a in s.items():
            if a.shape[1] != tot:
                return False, 'windows %s, sample time %r: signal %s has %d entries for %d samples' % (used, Ts, k, a.shape[1], tot)
        for st in (v.traj_storage, v.pred_storage):
            if len(st['state']) != tot - 1:
                return False, 'windows %s, sample time %r: %d stored plans for %d samples' % (used, Ts, len(st['state']), tot - 1)
        if not np.allclose(s['time'][0], np.arange(tot) * Ts, atol=1e-7):
            return False, 'time axis %s' % s['time'][0]
        per = [T['time'][0, 0] for n, T in zip(wins, trs) for _ in range(n)]
        if not np.allclose([np.ravel(x)[0] for x in v.traj_storage['time']], per):
            return False, 'stored plans start at %s' % [np.ravel(x)[0] for x in v.traj_storage['time']]
        for key in ('input', 'splines', 'dinput', 'state'):
            exp = np.concatenate([trs[0][key][:, :1]] + [T[key][:, 1:n + 1] for n, T in zip(wins, trs)], axis=1)
            if key == 'state' and not ideal:
                x, cols = trs[0][key][:, 0], [trs[0][key][:, 0]]
                for n, T in zip(wins, trs):
                    for j in range(n):
                        cols.append(cols[-1] + (T['input'][:, j] + T['input'][:, j + 1]) * Ts / 2)
                exp = np.array(cols).T
            if not np.allclose(s[key], exp, atol=5e-4):
                return False, 'windows %s: recorded %s differ from the plans in force' % (used, key)
    return True, 'every nearby float joins the windows'


# ------------------------------------------------- fixed horizon: clock, shift, samples

HOR = {'2-2': (2., 2, 0.5), '1-5': (1., 5, 0.1), '12-10': (12., 10, 1.), '10-3': (10., 3, 2.), '1.001-4': (1.001, 4, 0.1), '7/3-3': (7. / 3., 3, 0.25)}


def ROOM1():
    return {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}


def ROOM2():
    return {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}


class Real(object):
    """a real point-to-point problem whose variables are terms"""

    def __init__(self, kind='FixedT', vehicle='Holonomic', horizon=10., knots=4, popts=None, n_veh=1):
        with unpatched():
            b = scen.multi(vehicle, [ROOM1, ROOM2][:2], knots=knots) if kind == 'Multi' else scen.p2p([vehicle] * n_veh if n_veh > 1 else vehicle, freeT=(kind == 'FreeT'), knots=knots, popts=dict(popts or {}, horizon_time=horizon))
        self.b, self.pb = b, b.problem
        f = self.pb.father
        self.f = f
        self.names = {(c.label, n): c._variables[n].shape for c in f.children.values() for n in c._variables}
        f._var_struct = f._par_struct = f._con_struct = Store()
        f.init_variables = f.init_parameters = lambda: None
        f._var_result, f._dual_var_result, f._par_result = Store(), Store(), Store()
        self.pb.update_plots = self.pb.fleet.update_plots = lambda *a, **k: None
        for v in self.pb.vehicles:
            v.update_plots = lambda *a, **k: None

    def fill(self, value, tag=''):
        st = Store()
        for (lab, n), sh in self.names.items():
            st[lab, n] = np.array([[value('%s%s_%s_%d_%d' % (tag, lab, n, i, j)) for j in range(sh[1])] for i in range(sh[0])], object)
        self.f._var_result = st
        return st

    def splines(self):
        return [(c.label, n) for c in self.f.children.values() for n in c._splines_prim if n in c._variables and 'seg' in n]

    def basis(self, lab, n):
        return self.f.children[lab]._splines_prim[n]['basis']


def hor(key):
    H, K, Ts = HOR[key]
    kt = H / K
    return H, K, Ts, kt


def off_knots(x, kt, upto):
    """a time is either at a knot up to float error, or clearly not"""
    out = []
    for i in range(upto + 1):
        d = x - F(kt) * i
        out.append(bor(band(d <= F(1, 10**8), d >= -F(1, 10**8)), d >= F(1, 10**5), d <= -F(1, 10**5)))
    return out


def task_clock(t, key, start):
    """parameters, stored samples and simulated time of a fixed-horizon problem at any time"""
    H, K, Ts, kt = hor(key)
    now = R.var('now')
    up = 3 if K < 4 else 6
    asm = [now >= 0, now <= F(kt) * up + F(kt) / 2] + off_knots(now, kt, up + 1)

    def run():
        r = Real(horizon=H, knots=K)
        r.fill(R.var)
        pb = r.pb
        rec = {}
        v = pb.vehicles[0]
        v.store = lambda *a, **k: rec.setdefault('store', a)
        v.simulate = lambda *a, **k: rec.setdefault('sim', a)
        pb.environment.simulate = lambda *a, **k: rec.setdefault('env', a)
        pb.initialize(start)
        pb.current_time_prev = 0.
        par = p2pm.FixedTPoint2point.set_parameters(pb, now)
        before = pb.current_time_prev
        pb.store(start + now, 0.1, Ts)
        pb.term_con_len = [0]
        pb.simulate(start + now, R.var('sim'), Ts)
        n = [0]
        pb.father.transform_primal_splines = lambda *a, **k: n.__setitem__(0, n[0] + 1)
        for i in range(60):
            if not kt * (i + 0.5) < now:
                break
            pb.init_step(kt * (i + 0.5), 0.1)
        pb.init_step(now, 0.1)
        return par[pb]['t'], par[pb]['T'], rec, n[0]

    def claims(res):
        tt, T, rec, n = res
        rel = now - F(kt) * n
        tol = F(2, 10**6)
        sa, se, ee = rec['store'], rec['sim'], rec['env']
        axis = [lift(x) for x in sa[4]]
        out = [('the parameter t is the time since the first knot of the plan', [], close([tt], [rel], tol)),
               ('t lies in the first knot interval', [], band(lift(tt) >= 0, lift(tt) <= F(kt) + tol)),
               ('the parameter T is the horizon', [], same([T], [H])),
               ('the stored window starts at the current time', [], band(close([axis[0]], [tt], F(1, 10**8)), same([sa[0]], [start + now]))),
               ('samples are one sample time apart', [], close([b - a for a, b in zip(axis[:-1], axis[1:])], [Ts] * (len(axis) - 1), F(1, 10**9))),
               ('the last sample lies within the horizon', [], band(axis[-1] <= F(H) + F(Ts) / 10**5, axis[-1] + F(Ts) > F(H))),
               ('the stored plan spans the horizon', [], same([sa[3]], [H])),
               ('simulated time', [], close([se[0]], [expr.ite(R.var('sim') <= H - lift(tt), R.var('sim'), H - lift(tt))], tol)),
               ('the environment moves along', [], same([se[0]], [ee[0]]))]
        return out

    def tag(res):
        return 'knots passed %d' % res[3]
    decide(t, 'clock:%s:%s' % (key, start), asm + [R.var('sim') > 0, R.var('sim') <= H + 1], run, claims, 'clock', extra=[key, start], patches=patches(),
           tag=tag, want=['knots passed %d' % i for i in range(up + 1)])


def replay_clock(case):
    key, start = case['extra']
    H, K, Ts, kt = hor(key)
    now0 = case['model'].get('now', 0.)
    cands = {now0, round(now0, 6)}
    for i in range(30):
        cands |= {i * kt, float(np.round(i * kt, 9)), float(np.sum([kt] * i)), np.nextafter(i * kt, 0.), np.nextafter(i * kt, 1e3)}
    sim = case['model'].get('sim', 0.1)
    for now in sorted(c for c in cands if c >= 0):
        r = Real(horizon=H, knots=K)
        r.fill(lambda s: 0.25)
        pb = r.pb
        rec = {}
        v = pb.vehicles[0]
        v.store = lambda *a, **k: rec.setdefault('store', a)
        v.simulate = lambda *a, **k: rec.setdefault('sim', a)
        pb.environment.simulate = lambda *a, **k: rec.setdefault('env', a)
        pb.initialize(start)
        pb.current_time_prev = 0.
        par = p2pm.FixedTPoint2point.set_parameters(pb, now)
        pb.store(start + now, 0.1, Ts)
        pb.term_con_len = [0]
        pb.simulate(start + now, sim, Ts)
        n = [0]
        pb.father.transform_primal_splines = lambda *a, **k: n.__setitem__(0, n[0] + 1)
        for i in range(60):
            if not kt * (i + 0.5) < now:
                break
            pb.init_step(kt * (i + 0.5), 0.1)
        pb.init_step(now, 0.1)
        tt, T = par[pb]['t'], par[pb]['T']
        axis = rec['store'][4]
        msg = 'horizon %g, knot time %r, time %r: ' % (H, kt, now)
        if abs(tt - (now - kt * n[0])) > 3e-6:
            return False, msg + 'the plan was shifted %d times but t = %r' % (n[0], tt)
        if not -1e-9 <= tt <= kt + 3e-6:
            return False, msg + 't = %r' % tt
        if T != H or abs(axis[0] - tt) > 1e-7 or rec['store'][0] != start + now or rec['store'][3] != H:
            return False, msg + 'window starts at %r of the plan, t is %r' % (axis[0], tt)
        if len(axis) > 1 and np.max(np.abs(np.diff(axis) - Ts)) > 1e-8:
            return False, msg + 'samples at %s' % axis[:4]
        if axis[-1] > H + 2e-5 * Ts or axis[-1] + Ts <= H:
            return False, msg + 'last sample at %r' % axis[-1]
        if abs(rec['sim'][0] - min(sim, H - tt)) > 3e-6 or rec['sim'][0] != rec['env'][0]:
            return False, msg + 'simulates %r and %r for %r' % (rec['sim'][0], rec['env'][0], sim)
    return True, 'clock consistent at nearby floats'


def task_shift(t, key, upto):
    """warm start after any update: the previous plan on the common time span"""
    H, K, Ts, kt = hor(key)
    a, b = R.var('prev'), R.var('now')
    asm = [a >= 0, b > a, b - a <= F(kt) * upto, a <= F(kt) * 2] + off_knots(a, kt, 3) + off_knots(b, kt, 3 + upto)

    def run():
        r = Real(horizon=H, knots=K)
        old = r.fill(R.var).copy()
        pb = r.pb
        pb.initialize(0.)
        pb.init_step(0., 0.1)
        r.f._var_result = old.copy()
        pb.init_step(a, 0.1)
        k0 = [None]
        mid = old.copy()
        r.f._var_result = mid
        pb.init_step(b, 0.1)
        return r, old, r.f._var_result, int(np_round(a / F(kt))), int(np_round(b / F(kt)))

    def np_round(x):
        return lift(x).__round__(6)

    def claims(res):
        r, old, new, i0, i1 = res
        out = []
        m = i1 - i0
        for lab, n in r.splines():
            bs = r.basis(lab, n)
            deg, kn = bs.degree, [float(x) for x in bs.knots]
            lim = []
            for j in range(old[lab, n].shape[1]):
                p = PW.spline(kn, deg, old[lab, n][:, j]).affine(F(1, 1), 0)
                q = PW.spline(kn, deg, new[lab, n][:, j])
                s = F(m, K)
                if s >= 1:
                    continue
                q = q.affine(1, -s).restrict(s, 1)
                ds = curve_diffs(p.restrict(s, 1), q, 1e-7)
                if ds is None:
                    out.append(('common span', [], expr.FALSE))
                    continue
                lim = [c for x in old[lab, n][:, j] for c in (lift(x) <= 100, lift(x) >= -100)]
                out.append(('warm start of %s after %d knots' % (n, m), lim, close(ds, [0] * len(ds), F(1, 10**5))))
        return out

    def tag(res):
        return '%d knots' % (res[4] - res[3])
    decide(t, 'shift:%s:%d' % (key, upto), asm, run, claims, 'shift', extra=[key, upto], patches=patches(), tag=tag, want=['%d knots' % i for i in range(upto + 1)])


def replay_shift(case):
    key, upto = case['extra']
    H, K, Ts, kt = hor(key)
    val = rng_value(case)
    a, b = case['model'].get('prev', 0.), case['model'].get('now', 0.)
    r = Real(horizon=H, knots=K)
    old = r.fill(val).copy()
    for k in old.d:
        old.d[k] = np.array(old.d[k], float)
    pb = r.pb
    pb.initialize(0.)
    pb.init_step(0., 0.1)
    pb.init_step(a, 0.1)
    r.f._var_result = old.copy()
    pb.init_step(b, 0.1)
    new = r.f._var_result
    from omgtools.basics.spline import BSpline
    i0, i1 = int(np.round(a / kt, 6)), int(np.round(b / kt, 6))
    s = (i1 - i0) / float(K)
    for lab, n in r.splines():
        bs = r.basis(lab, n)
        for j in range(old[lab, n].shape[1]):
            p, q = BSpline(bs, old[lab, n][:, j]), BSpline(bs, np.array(new[lab, n][:, j], float))
            for x in np.linspace(s, 1., 15):
                if x <= 1 and abs(float(p(x)) - float(q(x - s))) > 1e-4:
                    return False, 'time %r to %r, knot time %r: warm start is %g where the previous plan is %g' % (a, b, kt, float(q(x - s)), float(p(x)))
    return True, 'warm start follows the previous plan'


# ------------------------------------------------- free end time

def task_freet(t, start):
    T, u, now, Ts = R.var('T'), R.var('u'), R.var('now'), 0.5
    asm = [u >= F(1, 100), u <= 1, T > 2 * u + F(1, 100), T <= 4, now > F(1, 1000), now <= 10]

    def run():
        r = Real('FreeT', knots=3)
        r.fill(R.var)
        pb = r.pb
        r.f.set_variables(T, pb, 'T')
        rec = {}
        v = pb.vehicles[0]
        v.store = lambda *a, **k: rec.setdefault('store', a)
        v.simulate = lambda *a, **k: rec.setdefault('sim', a)
        pb.environment.simulate = lambda *a, **k: rec.setdefault('env', a)
        pb.initialize(start)
        par = p2pm.FreeTPoint2point.set_parameters(pb, now)
        pb.store(start + now, u, Ts)
        pb.simulate(start + now, u, Ts)
        stop = T < u
        frac = []
        old = p2pm.shift_spline
        p2pm.shift_spline = lambda c, s, b: (frac.append((c, s, b)), c)[1]
        try:
            pb.init_step(now, u)
        finally:
            p2pm.shift_spline = old
        return par[pb]['t'], rec, frac, r.f.get_variables(pb, 'T')[0][0], len(r.splines()), pb.objective

    def claims(res):
        tt, rec, frac, T2, nspl, obj = res
        if 'store' not in rec:
            return [('a plan longer than a sample is stored', [], T < F(Ts))]
        sa = rec['store']
        axis = [lift(x) for x in sa[4]]
        return [('t is zero', [], same([tt], [0])),
                ('the window starts at the plan start', [], band(same([axis[0]], [0]), same([sa[0]], [start + now]))),
                ('samples are one sample time apart', [], close([y - x for x, y in zip(axis[:-1], axis[1:])], [Ts] * (len(axis) - 1), F(1, 10**9))),
                ('the last sample lies within the motion time', [], band(axis[-1] <= T + F(Ts) / 10**5, axis[-1] + F(Ts) > T)),
                ('the stored plan spans the motion time', [], same([sa[3]], [T])),
                ('simulated time', [], band(same([rec['sim'][0]], [u]), same([rec['env'][0]], [u]))),
                ('elapsed time', [], same([obj], [now + u])),
                ('every spline is shifted once', [], expr.TRUE if len(frac) == nspl else expr.FALSE),
                ('the warm start begins where the previous plan is after the update', [], same([f[1] * T for f in frac], [u] * len(frac))),
                ('the warm start lasts the remaining time', [], same([T2], [T - u]))]
    decide(t, 'freet:%s' % start, asm, run, claims, 'freet', extra=[start], patches=patches(), normal=True)


def replay_freet(case):
    start, = case['extra']
    m = case['model']
    T, u, now, Ts = m.get('T', 3.), m.get('u', 0.5), m.get('now', 1.), 0.5
    val = rng_value(case)
    r = Real('FreeT', knots=3)
    old = r.fill(val)
    for k in old.d:
        old.d[k] = np.array(old.d[k], float)
    old = old.copy()
    pb = r.pb
    r.f.set_variables(T, pb, 'T')
    rec = {}
    v = pb.vehicles[0]
    v.store = lambda *a, **k: rec.setdefault('store', a)
    v.simulate = lambda *a, **k: rec.setdefault('sim', a)
    pb.environment.simulate = lambda *a, **k: rec.setdefault('env', a)
    pb.initialize(start)
    par = p2pm.FreeTPoint2point.set_parameters(pb, now)
    pb.store(start + now, u, Ts)
    pb.simulate(start + now, u, Ts)
    pb.init_step(now, u)
    T2 = float(r.f.get_variables(pb, 'T')[0][0])
    msg = 'motion time %r, update %r, time %r, start %r: ' % (T, u, now, start)
    if 'store' in rec:
        ax = np.array(rec['store'][4], float)
        if par[pb]['t'] != 0 or ax[0] != 0 or rec['store'][0] != start + now or rec['store'][3] != T or ax[-1] > T + 1e-5 or ax[-1] + Ts <= T:
            return False, msg + 'window from %r to %r' % (ax[0], ax[-1])
        if rec['sim'][0] != u or rec['env'][0] != u:
            return False, msg + 'simulates %r' % (rec['sim'],)
        if abs(pb.objective - now - u) > 1e-9:
            return False, msg + 'elapsed time %r' % pb.objective
    if abs(T2 - (T - u)) > 1e-9:
        return False, msg + 'the warm start lasts %r' % T2
    from omgtools.basics.spline import BSpline
    for lab, n in r.splines():
        bs = r.basis(lab, n)
        for j in range(old[lab, n].shape[1]):
            p, q = BSpline(bs, np.array(old[lab, n][:, j], float)), BSpline(bs, np.array(r.f._var_result[lab, n][:, j], float))
            if abs(float(p(u / T)) - float(q(0.))) > 1e-6:
                return False, msg + 'the warm start begins at %g, the previous plan is at %g after the update' % (float(q(0.)), float(p(u / T)))
    return True, 'clock consistent'


# ------------------------------------------------- the whole loop, any plans

class Loop(object):
    """real Simulator + Deployer + problem + vehicle; the interior-point solver is a stand-in that returns any plan"""

    def __init__(self, value, kind, K, H, Ts, u, ideal=True):
        self.value, self.kind, self.Ts, self.u, self.H = value, kind, Ts, u, H
        r = self.r = Real(kind, vehicle='Holonomic1D', horizon=H, knots=K)
        pb, f = r.pb, r.f
        v = self.v = pb.vehicles[0]
        v.options['ideal_prediction'] = v.options['ideal_update'] = ideal
        r.fill(value, 'init')
        self.plans, self.warm, self.pred, self.known, self.solved, self.sims = [], [], [], [], [], []
        f.init_transformations(pb.init_primal_transform, pb.init_dual_transform)
        gv, sv = f.get_variables, f.set_variables

        def get_variables(*a, **k):
            return gv(*a, **k) if a or k else 'all'

        def set_variables(x, *a, **k):
            if a or k:
                return sv(x, *a, **k)
            n = len(self.plans)
            st = r.fill(value, 'plan%d' % n)
            if kind == 'FreeT':
                sv(self.times[n], pb, 'T')
            self.plans.append(st.copy())
        f.get_variables, f.set_variables = get_variables, set_variables
        f.get_dual_variables = lambda *a: None
        f.set_dual_variables = lambda *a: None
        f.update_bounds = lambda t: (self.solved.append(t), (None, None))[1]
        f.set_parameters = self.parameters


        class Solver(object):
            def __call__(s, **k):
                self.warm.append(r.f._var_result.copy())
                self.pred.append({n: np.array(a, object).copy() for n, a in v.prediction.items()} if hasattr(v, 'prediction') else {})
                return {'x': None, 'lam_g': None}

            def stats(s):
                return {'return_status': 'Solve_Succeeded'}
        pb.problem = Solver()
        pb.options['verbose'] = 0
        pb.compute_partial_objective = lambda *a: None
        pb.final = lambda: None
        pb.reinitialize = lambda *a: r.fill(value, 'init%d' % len(self.plans))
        env0 = pb.environment.simulate
        pb.environment.simulate = lambda T, h: self.sims.append(T)
        PlotLayer.simulator = None
        self.sim = Simulator(pb, Ts, u)

    def parameters(self, t):
        par = {}
        for c in self.r.f.children.values():
            for k, d in c.set_parameters(t).items():
                par.setdefault(k, {}).update({n: np.array(x, object).copy() for n, x in d.items()})
        self.known.append((t, par))

    def once(self, times=()):
        self.v.check_terminal_conditions = lambda: False
        self.times = [0.] * len(self.plans) + list(times)
        a = len(self.plans)
        self.sim.run_once()
        return a, len(self.plans)

    def steps(self, updates, times=()):
        n = [0]

        def stop():
            n[0] += 1
            return n[0] >= updates
        self.v.check_terminal_conditions = stop
        self.times = [0.] * len(self.plans) + list(times)
        a = len(self.plans)
        self.answers = []
        for k in range(updates):
            self.answers.append(self.sim.step(self.u))
        return a, len(self.plans)

    def run(self, updates, times=()):
        n = [0]

        def stop():
            n[0] += 1
            return n[0] >= updates
        self.v.check_terminal_conditions = stop
        self.times = [0.] * len(self.plans) + list(times)
        a = len(self.plans)
        self.sim.run()
        return a, len(self.plans)


def ref_curve(r, plan):
    """the plan as a function of its own time, from the definition of B-splines"""
    lab = r.pb.vehicles[0].label
    bs = r.basis(lab, 'splines_seg0')
    knots = [float(k) for k in bs.knots]
    co = plan[lab, 'splines_seg0'][:, 0]

    def at(x):
        w = ref.basis_values(knots, bs.degree, min(F(1), F(x)))
        return sum((lift(c) * R.const(b) for c, b in zip(co, w) if b), R.const(0))
    return at


LOOPS = [  # kind, knots, horizon, sample time, update time, what is done
    ('FixedT', 5, 10., 0.5, 1.0, (('run', 4),)),
    ('FixedT', 5, 10., 0.5, 2.0, (('run', 3),)),
    ('FixedT', 4, 2., 0.1, 0.3, (('run', 5),)),
    ('FixedT', 10, 1., 0.1, 0.1, (('run', 4),)),
    ('FixedT', 5, 10., 0.5, 4.0, (('run', 3),)),
    ('FixedT', 4, 2., 0.1, 0.4, (('run', 2), ('run', 3))),
    ('FixedT', 4, 2., 0.1, 0.3, (('run', 2), ('sleep', 0.5), ('run', 3))),
    ('FixedT', 4, 8., 1., 2., (('run', 2), ('run', 2))),
    ('FreeT', 4, 10., 0.1, 0.5, (('run', 3, (2., 1.5, 1.)),)),
    ('FreeT', 4, 10., 0.1, 0.5, (('run', 4, (1.9, 1.3, 0.8, 0.2)),)),
    ('FreeT', 4, 10., 0.1, 0.4, (('run', 2, (2., 1.6)), ('sleep', 0.3), ('run', 2, (2., 1.7)))),
    ('FreeT', 4, 10., 0.05, 0.1, (('run', 4, (1., 0.9, 0.81, 0.7)),)),
    ('FixedT', 4, 2., 0.1, 0.3, (('once', 1),)), ('FreeT', 4, 10., 0.1, 0.5, (('once', 1, (1.5,)),)),
    ('FixedT', 4, 2., 0.1, 0.3, (('step', 4),)), ('FreeT', 4, 10., 0.1, 0.5, (('step', 3, (1.4, 0.9, 0.3)),))]


def play(L, script):
    """-> windows [(plan index or None for a pause, number of samples)] as the script means them"""
    wins = []
    for step in script:
        if step[0] == 'sleep':
            wins.append((None, int(round(step[1] / L.Ts))))
            L.sim.sleep(step[1])
            continue
        how = {'run': L.run, 'step': L.steps}.get(step[0])
        a, b = L.once(step[2] if len(step) > 2 else ()) if step[0] == 'once' else how(step[1], step[2] if len(step) > 2 else ())
        for i in range(a, b):
            n = L.u
            if step[0] == 'once':
                n = L.H
            if L.kind == 'FreeT':
                n = L.times[i] if step[0] == 'once' else min(n, L.times[i])
            wins.append((i, int(np.round(n / L.Ts, 6)), a))
    return wins


def expect(L, wins, evaluate):
    """value of the plan in force at every sample"""
    kt = L.r.pb.knot_time if L.kind == 'FixedT' else None
    out, now, start, last = [], 0, 0, None
    Ts = F(str(L.Ts))
    upd = []
    for w in wins:
        if w[0] is None:
            out += [last(F(1))] * w[1]
            now += w[1]
            continue
        i, n, first = w
        if i == first:
            start = now
        if kt is not None:
            rel = (now - start) * Ts
            off = rel - int(rel / F(str(kt))) * F(str(kt))
            span = F(str(L.r.pb.options['horizon_time']))
        else:
            off, span = F(0), F(str(L.times_all[i]))
        cur = evaluate(i)
        upd.append((i, first, now, start, off, span))
        if not out:
            out.append(cur(off / span))
        out += [cur((off + k * Ts) / span) for k in range(1, n + 1)]
        now += n
        last = cur
    return out, upd


def task_loop(t, j):
    kind, K, H, Ts, u, script = LOOPS[j]
    times_all = [x for s in script if s[0] != 'sleep' and len(s) > 2 for x in s[2]]

    def run():
        ode.fresh()
        L = Loop(R.var, kind, K, H, Ts, u)
        L.times_all = times_all
        wins = play(L, script)
        return L, wins

    def claims(res):
        L, wins = res
        s = L.v.signals
        pw = {}

        def evaluate(i):
            if i not in pw:
                pw[i] = ref_curve(L.r, L.plans[i])
            return pw[i]
        exp, upd = expect(L, wins, evaluate)
        tot = len(exp)
        ok = all(a.shape[1] == tot for a in s.values()) and len(L.plans) == len(upd)
        out = [('one entry per simulated sample (%d, not %s)' % (tot, sorted({a.shape[1] for a in s.values()})), [], expr.TRUE if ok else expr.FALSE)]
        if not ok:
            return out
        lim = [c for p in L.plans for x in p[L.v.label, 'splines_seg0'][:, 0] for c in (lift(x) <= 100, lift(x) >= -100)]
        out.append(('time axis', [], close(s['time'][0], [F(str(Ts)) * k for k in range(tot)], F(1, 10**8))))
        out.append(('clock of the simulator', [], expr.TRUE if len(L.sim.time) == tot else expr.FALSE))
        out.append(('current time of the simulator', [], close(np.ravel(L.sim.current_time), [F(str(Ts)) * (tot - 1)], F(1, 10**8))))
        if len(L.sim.time) == tot:
            out.append(('simulator and vehicle share the time axis', [], close(L.sim.time, s['time'][0], F(1, 10**8))))
        out.append(('the environment is simulated as long', [], band(expr.TRUE if len(L.sims) == len(wins) else expr.FALSE, close(L.sims, [F(str(Ts)) * w[1] for w in wins], F(1, 10**7)))))
        for k in range(tot):
            out.append(('position at sample %d is that of the plan in force' % k, lim, close([s['splines'][0, k], s['state'][0, k]], [exp[k]] * 2, F(1, 1000))))
        for i, first, now, start, off, span in upd:
            tk, pars = L.known[i]
            out.append(('update %d: time of the parameters' % i, [], close([tk], [F(str(Ts)) * (now - start)], F(1, 10**8))))
            out.append(('update %d: t' % i, [], close(np.ravel(pars[L.r.pb]['t']), [off], F(1, 10**6))))
            if i > first:
                par = pars[L.v] if L.v in pars else {}
                out.append(('update %d: predicted state is where the vehicle is' % i, lim, close([L.pred[i]['state'][0]], [exp[now]], F(1, 1000))))
                out.append(('update %d: initial condition is the prediction' % i, lim,
                            close([np.ravel(par['state0'])[0], np.ravel(par['input0'])[0]], [L.pred[i]['state'][0], L.pred[i]['input'][0]], F(1, 10**6))))
                if kind == 'FreeT' and times_all[i - 1] < 2 * u:
                    continue  # almost arrived: the guess is a heuristic
                out.append(('update %d: the warm start begins where the vehicle is' % i, lim, close([ref_curve(L.r, L.warm[i])(off / span if kind == 'FixedT' else F(0))], [exp[now]], F(1, 1000))))
        return out
    decide(t, 'loop:%d' % j, [], run, claims, 'loop', extra=[j], patches=patches())


def replay_loop(case):
    j, = case['extra']
    kind, K, H, Ts, u, script = LOOPS[j]
    val = rng_value(case)
    L = Loop(val, kind, K, H, Ts, u)
    L.times_all = [x for s in script if s[0] != 'sleep' and len(s) > 2 for x in s[2]]
    wins = play(L, script)
    from omgtools.basics.spline import BSpline
    lab = L.v.label
    bs = L.r.basis(lab, 'splines_seg0')

    def evaluate(i):
        sp = BSpline(bs, np.array(L.plans[i][lab, 'splines_seg0'][:, 0], float))
        return lambda x: float(sp(float(x)))
    exp, upd = expect(L, wins, evaluate)
    s = L.v.signals
    msg = '%s, horizon %g, %d knot intervals, sample time %g, update time %g, %s: ' % (kind, H, K, Ts, u, script)
    for k, a in s.items():
        if a.shape[1] != len(exp):
            return False, msg + '%d samples of %s, %d were simulated' % (a.shape[1], k, len(exp))
    if not np.allclose(s['time'][0], np.arange(len(exp)) * Ts, atol=1e-7):
        return False, msg + 'recorded time axis %s' % np.array(s['time'][0], float)
    if len(L.sim.time) != len(exp) or not np.allclose(L.sim.time, s['time'][0], atol=1e-7) or abs(L.sim.current_time - Ts * (len(exp) - 1)) > 1e-7:
        return False, msg + 'simulator time runs to %g (%d samples), recorded time to %g (%d samples)' % (L.sim.time[-1], len(L.sim.time), s['time'][0, -1], len(exp))
    if len(L.sims) != len(wins) or not np.allclose(L.sims, [w[1] * Ts for w in wins], atol=1e-6):
        return False, msg + 'the environment is simulated for %s' % L.sims
    for k, x in enumerate(exp):
        if abs(float(s['splines'][0, k]) - x) > 5e-4 or abs(float(s['state'][0, k]) - x) > 5e-4:
            return False, msg + 'sample %d is at %g, the plan in force is at %g' % (k, float(s['state'][0, k]), x)
    for i, first, now, start, off, span in upd:
        tk, pars = L.known[i]
        if abs(tk - Ts * (now - start)) > 1e-7 or abs(float(pars[L.r.pb]['t']) - float(off)) > 1e-6:
            return False, msg + 'update %d at %g uses time %g and t = %g' % (i, Ts * (now - start), tk, float(pars[L.r.pb]['t']))
        if i > first:
            if abs(float(L.pred[i]['state'][0]) - exp[now]) > 5e-4 or abs(float(np.ravel(pars[L.v]['state0'])[0]) - exp[now]) > 5e-4:
                return False, msg + 'update %d predicts %g, the vehicle is at %g' % (i, float(L.pred[i]['state'][0]), exp[now])
            if kind == 'FreeT' and L.times_all[i - 1] < 2 * u:
                continue
            w = BSpline(bs, np.array(L.warm[i][lab, 'splines_seg0'][:, 0], float))
            if abs(float(w(float(off / span) if kind == 'FixedT' else 0.)) - exp[now]) > 5e-4:
                return False, msg + 'the warm start of update %d begins at %g, the vehicle is at %g' % (i, float(w(float(off / span) if kind == 'FixedT' else 0.)), exp[now])
    return True, 'loop consistent'


# ------------------------------------------------- deployment without simulation, late updates

DEPLOY = [  # kind, knots, horizon, sample time, update time, delays of the updates (samples), first time
    ('FixedT', 5, 10., 0.5, 1.0, (0, 1, 0, 2), 0.), ('FixedT', 4, 2., 0.1, 0.3, (1, 0, 2), 0.), ('FixedT', 10, 1., 0.1, 0.1, (0, 1, 3), 2.3),
    ('FixedT', 5, 10., 0.5, 2.0, (0, 1, 2), 7.), ('FreeT', 4, 10., 0.1, 0.5, (0, 2, 1), 0.), ('FreeT', 4, 10., 0.1, 0.4, (1, 1), 5.)]


def deploy(value, j):
    kind, K, H, Ts, u, delays, t0 = DEPLOY[j]
    L = Loop(value, kind, K, H, Ts, u)
    L.times = [4. - 0.1 * i for i in range(len(delays) + 1)]
    d = Deployer(L.r.pb, Ts, u)
    d.reset()
    now, nows, trs = t0, [], []
    for i in range(len(delays) + 1):
        if i:
            now = round(now + u + delays[i - 1] * Ts, 6)
        tr = d.update(now)
        nows.append(now)
        trs.append({k: np.array(a, object).copy() for k, a in tr.items()})
    return L, nows, trs


def task_deploy(t, j):
    kind, K, H, Ts, u, delays, t0 = DEPLOY[j]

    def run():
        ode.fresh()
        return deploy(R.var, j)

    def claims(res):
        L, nows, trs = res
        out = []
        lim = [c for p in L.plans for x in p[L.v.label, 'splines_seg0'][:, 0] for c in (lift(x) <= 100, lift(x) >= -100)]
        for i, now in enumerate(nows):
            rel = F(str(now)) - F(str(t0))
            span = F(str(H)) if kind == 'FixedT' else F(str(L.times[i]))
            kt = F(str(L.r.pb.knot_time)) if kind == 'FixedT' else None
            off = rel - int(rel / kt) * kt if kt else F(0)
            cur = ref_curve(L.r, L.plans[i])
            tr = trs[i]
            n = tr['time'].shape[1]
            full = int((span - off) / F(str(Ts)) + F(1, 10**6)) + 1
            out.append(('update %d: the trajectory covers the plan' % i, [], expr.TRUE if n == full else expr.FALSE))
            out.append(('update %d: time axis' % i, [], close(tr['time'][0], [F(str(now)) + k * F(str(Ts)) for k in range(n)], F(1, 10**8))))
            out.append(('update %d: samples of the plan' % i, lim, close(tr['splines'][0], [cur((off + k * F(str(Ts))) / span) for k in range(n)], F(1, 1000))))
            if i:
                pr = F(str(nows[i - 1])) - F(str(t0))
                poff = pr - int(pr / kt) * kt if kt else F(0)
                pspan = F(str(H)) if kind == 'FixedT' else F(str(L.times[i - 1]))
                at = ref_curve(L.r, L.plans[i - 1])((poff + F(str(now)) - F(str(nows[i - 1]))) / pspan)
                out.append(('update %d: the prediction is the previous plan at that instant' % i, lim, close([L.pred[i]['state'][0], L.pred[i]['splines'][0]], [at, at], F(1, 1000))))
                if kind == 'FixedT':
                    out.append(('update %d: the warm start passes there' % i, lim, close([ref_curve(L.r, L.warm[i])(off / span)], [at], F(1, 1000))))
        return out
    decide(t, 'deploy:%d' % j, [], run, claims, 'deploy', extra=[j], patches=patches())


def replay_deploy(case):
    j, = case['extra']
    kind, K, H, Ts, u, delays, t0 = DEPLOY[j]
    L, nows, trs = deploy(rng_value(case), j)
    from omgtools.basics.spline import BSpline
    lab = L.v.label
    bs = L.r.basis(lab, 'splines_seg0')
    msg = '%s, horizon %g, %d knot intervals, sample time %g, updates at %s: ' % (kind, H, K, Ts, nows)

    def curve(plan):
        sp = BSpline(bs, np.array(plan[lab, 'splines_seg0'][:, 0], float))
        return lambda x: float(sp(min(1., float(x))))
    for i, now in enumerate(nows):
        span = H if kind == 'FixedT' else L.times[i]
        kt = L.r.pb.knot_time if kind == 'FixedT' else None
        off = now - t0 - int((now - t0) / kt + 1e-7) * kt if kt else 0.
        tr = trs[i]
        n = tr['time'].shape[1]
        if n != int((span - off) / Ts + 1e-5) + 1 or not np.allclose(np.array(tr['time'][0], float), now + np.arange(n) * Ts, atol=1e-7):
            return False, msg + 'trajectory %d has %d samples from %g' % (i, n, tr['time'][0, 0])
        cur = curve(L.plans[i])
        exp = [cur((off + k * Ts) / span) for k in range(n)]
        if not np.allclose(np.array(tr['splines'][0], float), exp, atol=5e-4):
            return False, msg + 'trajectory %d does not sample its plan' % i
        if i:
            poff = nows[i - 1] - t0 - int((nows[i - 1] - t0) / kt + 1e-7) * kt if kt else 0.
            at = curve(L.plans[i - 1])((poff + now - nows[i - 1]) / (H if kind == 'FixedT' else L.times[i - 1]))
            if abs(float(L.pred[i]['state'][0]) - at) > 5e-4:
                return False, msg + 'update %d predicts %g, the previous plan is at %g then' % (i, float(L.pred[i]['state'][0]), at)
            if kind == 'FixedT' and abs(curve(L.warm[i])(off / span) - at) > 5e-4:
                return False, msg + 'the warm start of update %d is at %g, the previous plan at %g' % (i, curve(L.warm[i])(off / span), at)
    return True, 'deployment consistent'


# ------------------------------------------------- one segment per room

def multi_run(r, now, u, Ts, start, T0, T1):
    pb = r.pb
    r.f.set_variables(T0, pb, 'T0')
    r.f.set_variables(T1, pb, 'T1')
    rec = {}
    v = pb.vehicles[0]
    v.store = lambda *a, **k: rec.setdefault('store', a)
    v.simulate = lambda *a, **k: rec.setdefault('sim', a)
    pb.environment.simulate = lambda *a, **k: rec.setdefault('env', a)
    pb.start_time = start
    par = pb.set_parameters(now)
    pb.store(start + now, u, Ts)
    pb.simulate(start + now, u, Ts)
    frac = []
    old = mfm.shift_spline
    mfm.shift_spline = lambda c, s, b: (frac.append((c, s, b)), old(c, s, b) if isinstance(s, float) else c)[1]
    try:
        pb.init_step(now, u)
    finally:
        mfm.shift_spline = old
    return par[pb]['t'], rec, frac, r.f.get_variables(pb, 'T0')[0][0], r.f.get_variables(pb, 'T1')[0][0]


def task_multi(t, start):
    T0, T1, u, now, Ts = R.var('T0'), R.var('T1'), R.var('u'), R.var('now'), 0.5
    asm = [u >= F(1, 100), u <= 1, T0 > u + F(1, 100), T0 <= 2, T1 <= 2, T1 > F(1, 100), T0 + T1 > 2 * u + F(1, 100), now > F(1, 1000), now <= 10]

    def run():
        r = Real('Multi', knots=3)
        r.fill(R.var)
        return multi_run(r, now, u, Ts, start, T0, T1) + (sum(1 for lab, n in r.splines() if 'seg0' in n),)

    def claims(res):
        tt, rec, frac, a, b, nspl = res
        T = T0 + T1
        if 'store' not in rec:
            return [('a plan longer than a sample is stored', [], T < F(Ts))]
        sa = rec['store']
        axis = [lift(x) for x in sa[4]]
        return [('t is zero', [], same([tt], [0])),
                ('the window starts at the plan start', [], band(same([axis[0]], [0]), same([sa[0]], [start + now]))),
                ('samples are one sample time apart', [], close([y - x for x, y in zip(axis[:-1], axis[1:])], [Ts] * (len(axis) - 1), F(1, 10**9))),
                ('the last sample lies within the motion time', [], band(axis[-1] <= T + F(Ts) / 10**5, axis[-1] + F(Ts) > T)),
                ('the stored segments last their motion times', [], same(sa[3], [T0, T1])),
                ('simulated time', [], band(same([rec['sim'][0]], [u]), same([rec['env'][0]], [u]))),
                ('only the splines of the first segment are shifted', [], expr.TRUE if len(frac) == nspl else expr.FALSE),
                ('the warm start begins where the previous plan is after the update', [], same([f[1] * T0 for f in frac], [u] * len(frac))),
                ('the warm start lasts the remaining time', [], same([a, b], [T0 - u, T1]))]
    decide(t, 'multi:%s' % start, asm, run, claims, 'multi', extra=[start], patches=patches(), normal=True)


def replay_multi(case):
    start, = case['extra']
    m = case['model']
    T0, T1, u, now, Ts = m.get('T0', 1.5), m.get('T1', 1.2), m.get('u', 0.5), m.get('now', 1.), 0.5
    r = Real('Multi', knots=3)
    old = r.fill(rng_value(case))
    for k in old.d:
        old.d[k] = np.array(old.d[k], float)
    old = old.copy()
    tt, rec, frac, a, b = multi_run(r, now, u, Ts, start, T0, T1)
    msg = 'segments of %r and %r, update %r, time %r, start %r: ' % (T0, T1, u, now, start)
    if 'store' in rec:
        ax = np.array(rec['store'][4], float)
        if tt != 0 or ax[0] != 0 or rec['store'][0] != start + now or list(rec['store'][3]) != [T0, T1] or ax[-1] > T0 + T1 + 1e-5 or ax[-1] + Ts <= T0 + T1:
            return False, msg + 'window from %r to %r' % (ax[0], ax[-1])
        if rec['sim'][0] != u or rec['env'][0] != u:
            return False, msg + 'simulates %r' % (rec['sim'],)
    if abs(float(a) - (T0 - u)) > 1e-9 or float(b) != T1:
        return False, msg + 'the warm start lasts %r and %r' % (a, b)
    from omgtools.basics.spline import BSpline
    for lab, n in r.splines():
        bs = r.basis(lab, n)
        for j in range(old[lab, n].shape[1]):
            p, q = BSpline(bs, np.array(old[lab, n][:, j], float)), BSpline(bs, np.array(r.f._var_result[lab, n][:, j], float))
            at = u / T0 if 'seg0' in n else 0.
            if abs(float(p(at)) - float(q(0.))) > 1e-6:
                return False, msg + 'the warm start of %s begins at %g, the previous plan is at %g after the update' % (n, float(q(0.)), float(p(at)))
    return True, 'clock consistent'


# ------------------------------------------------- distributed problems hand the deployment data to their parts

def dist_run(value, n, which):
    with unpatched():
        vs = [models.vehicle('Holonomic') for _ in range(n)]
        for v in vs:
            v.define_knots(knot_intervals=3)
        fl = omg.Fleet(vs)
        fl.set_configuration([[0., 0.], [1., 0.], [0., 1.]][:n])
        e = omg.Environment(room={'shape': Rectangle(6., 6.)})
        pb = omg.FormationPoint2point(fl, e, options={'verbose': 0})
        for p in pb.problems:
            p.initialize(1.5)
    got = {}
    for v in vs:
        v.predict = lambda *a, v=v: got.setdefault(v, []).append(a)

    def vec(nm):
        return [np.array([value('%s%d_%d' % (nm, i, j)) for j in range(2)]) for i in range(n)]
    st, ip, di = (vec('state') if 's' in which else None), (vec('input') if 'i' in which else None), (vec('dinput') if 'd' in which else None)
    now, dt, h, delay = value('now'), value('update'), value('sample'), value('delay')
    pb.predict(now, dt, h, st, ip, di, delay, 'e' in which, 'E' in which)
    return vs, got, (now, dt, h, delay), (st, ip, di)


def task_dist(t, n, which):
    def claims(res):
        vs, got, (now, dt, h, delay), given = res
        out = []
        for i, v in enumerate(vs):
            ok = len(got.get(v, [])) == 1 and len(got[v][0]) == 9
            out.append(('vehicle %d is predicted once' % i, [], expr.TRUE if ok else expr.FALSE))
            if not ok:
                continue
            a = got[v][0]
            out.append(('vehicle %d: time, update, sample and delay' % i, [], same([a[0], a[1], a[2], a[6]], [now, dt, h, delay])))
            for k, nm in ((3, 'state'), (4, 'input'), (5, 'dinput')):
                g = given[k - 3]
                if g is None or a[k] is None:
                    out.append(('vehicle %d: %s' % (i, nm), [], expr.TRUE if g is None and a[k] is None else expr.FALSE))
                else:
                    out.append(('vehicle %d: %s' % (i, nm), [], same(np.ravel(a[k]), np.ravel(g[i])) if np.ravel(a[k]).shape == np.ravel(g[i]).shape else expr.FALSE))
            # at the very first instant the states are enforced
            first = now == lift(F(3, 2))
            out.append(('vehicle %d: enforce flags' % i, [], expr.TRUE if bool(a[8]) == ('E' in which) else expr.FALSE))
            out.append(('vehicle %d: enforce states' % i, [], (expr.TRUE if a[7] else bnot(expr.liftb(first))) if 'e' not in which else (expr.TRUE if a[7] else expr.FALSE)))
            if 'e' not in which:
                out.append(('vehicle %d: states are enforced only when asked or at the start' % i, [], expr.liftb(first) if a[7] else expr.TRUE))
        return out
    decide(t, 'dist:%d:%s' % (n, which), [R.var('now') >= 0, R.var('now') <= 10], lambda: dist_run(R.var, n, which), claims, 'dist', extra=[n, which], patches=patches())


def replay_dist(case):
    n, which = case['extra']
    val = rng_value(case)
    for now in (case['model'].get('now', 2.), 1.5, 2.25):
        vs, got, (nw, dt, h, delay), given = dist_run(lambda s: now if s == 'now' else val(s), n, which)
        for i, v in enumerate(vs):
            a = got.get(v, [()])[0]
            if len(a) != 9:
                return False, 'vehicle %d: predict%s' % (i, a)
            if (a[0], a[1], a[2], a[6]) != (nw, dt, h, delay):
                return False, 'vehicle %d gets time %r, update %r, sample %r, delay %r instead of %r' % (i, a[0], a[1], a[2], a[6], (nw, dt, h, delay))
            for k, nm in ((3, 'state'), (4, 'input'), (5, 'dinput')):
                g = given[k - 3]
                if (g is None) != (a[k] is None) or (g is not None and not np.array_equal(np.ravel(a[k]), np.ravel(g[i]))):
                    return False, 'vehicle %d gets %s %r instead of %r' % (i, nm, a[k], None if g is None else g[i])
            if bool(a[8]) != ('E' in which) or bool(a[7]) != ('e' in which or now == 1.5):
                return False, 'vehicle %d gets enforce flags %r, %r' % (i, a[7], a[8])
    return True, 'handed on'


def tasks(tier, seed):
    out = []
    for a in PRED:
        for Ts in (0.1, 0.01):
            out.append(('predict:%s:%s:%d+%d:%s' % (a[0], 'ideal' if a[1] else 'ode', a[2], a[3], Ts), ('predict',) + a + (Ts,)))
    for a in WINDOWS:
        for Ts in (0.1, 0.01):
            out.append(('windows:%s:%s:%s:%s' % (a[0], a[1], '-'.join(map(str, a[2])), Ts), ('windows',) + a + (Ts,)))
    for k in HOR:
        for s in (0., 3.7):
            out.append(('clock:%s:%s' % (k, s), ('clock', k, s)))
        out.append(('shift:%s' % k, ('shift', k, 1)))
    out.append(('shift3:1-5', ('shift', '1-5', 3)))
    out += [('freet:%s' % s, ('freet', s)) for s in (0., 3.7)]
    out += [('loop:%d' % j, ('loop', j)) for j in range(len(LOOPS))]
    out += [('deploy:%d' % j, ('deploy', j)) for j in range(len(DEPLOY))]
    out += [('multi:%s' % x, ('multi', x)) for x in (0., 3.7)]
    out += [('dist:%d:%s' % (n, w), ('dist', n, w)) for n in (2, 3) for w in ('-', 's', 'si', 'sid', 'sidE', 'seE')]
    return out
