"""C09: arrived exactly when at the target and at rest (check_terminal_conditions, stop_criterium)."""
import numpy as np
from .. import env, models
from ..expr import R, symarr, band, bor, bnot, liftb, TRUE, FALSE, lift
from ..norm import Norm
from ..solver import Explorer, prove, check
from ..env import omg_modules, patched, sym_modules

INFO = dict(
    explanation='vehicle.check_terminal_conditions and problem.stop_criterium run on symbolic last states, inputs, targets and tolerances; '
                'every path is compared with the definition |position error| <= tol and |input - rest input| <= tol (2-norms) by z3',
    bounds=['one vehicle of each of the 12 models; signals with 3 samples', 'stop_criterium: 1-2 vehicles; plans of 1-3 segments (multi-frame, G-code), fleets of 1-3 (distributed, ADMM, dual decomposition), 1-3 frames, programs of 3 blocks with the tool in any of them and blocks anywhere, rendez-vous of 2 and 3'],
    outside=['distance measured in angles that differ by 2*pi', 'floating-point rounding in the norms'],
    stubs=['numpy.linalg.norm on symbolic arrays = sqrt of the sum of squares', 'problems other than point-to-point: the terminal checks of their parts (any answer)'],
    assumptions=['stop_tol > 0'])

# what counts as being at the target and as being at rest, per vehicle model:
# indices of the state compared with the target, and the quantity that vanishes at rest
REST = {  # model: (state indices, target length, (signal, indices, rest values))
    'Holonomic': ([0, 1], 2, 'input', [0, 1], [0, 0]),
    'Holonomic1D': ([0], 1, 'input', [0], [0]),
    'Holonomic3D': ([0, 1, 2], 3, 'input', [0, 1, 2], [0, 0, 0]),
    'HolonomicOrient': ([0, 1, 2], 3, 'input', [0, 1, 2], [0, 0, 0]),
    'Dubins': ([0, 1, 2], 3, 'input', [0, 1], [0, 0]),
    'Bicycle': ([0, 1, 2], 3, 'input', [0, 1], [0, 0]),
    'AGV': ([0, 1, 2], 3, 'input', [0, 1], [0, 0]),
    'Quadrotor': ([0, 1], 2, 'velocity', [2, 3], [0, 0]),
    'Quadrotor3D': ([0, 1, 2], 3, 'input', [0, 1, 2], ['g', 0, 0]),
    'SimpleQuadrotor3D': ([0, 1, 2], 3, 'velocity', [3, 4, 5], [0, 0, 0]),
    'Tool': ([0, 1, 2], 3, 'input', [0, 1, 2], [0, 0, 0]),
}
EXTRA = ('splines', 'dinput', 'ddinput', 'v_tot', 'acc', 'a', 'ddspl', 'dddspl', 'delta', 'r1')


def make(name, state, inp, target, tol, n, g=None):
    """vehicle with the given signals (columns: samples)"""
    if name == 'TrailerPark' or name == 'TrailerFree':
        v = models.vehicle('Trailer')
        v.lead_veh.set_terminal_conditions(target[:3])
        v.lead_veh.options['stop_tol'] = tol
        if name == 'TrailerPark':
            v.set_terminal_conditions(target[3])
        model = 'Trailer'
    else:
        v = models.vehicle(name)
        v.set_terminal_conditions(target)
        model = name
    v.options['stop_tol'] = tol
    sig = dict(state=state, input=inp, time=np.array([[0., .1, .2]]))
    sig['pose'] = v._state2pose(state)
    if name in ('Quadrotor', 'SimpleQuadrotor3D'):
        d = REST[name][3]
        sig['dspl'] = state[d, :]
    v.signals = sig
    return v


def expected(name, state, inp, target, tol, gconst):
    if name.startswith('Trailer'):
        e1 = sum((state[3 + k, -1] - target[k])**2 for k in range(3))
        e2 = sum(inp[k, -1]**2 for k in range(2))
        c = [e1 <= tol * tol, e2 <= tol * tol]
        if name == 'TrailerPark':
            c.append((state[2, -1] - target[3])**2 <= tol * tol)
        return c
    ix, nt, kind, rx, rv = REST[name]
    src = inp if kind == 'input' else state
    rv = [gconst if v == 'g' else v for v in rv]
    e1 = sum((state[i, -1] - target[k])**2 for k, i in enumerate(ix))
    e2 = sum((src[i, -1] - r)**2 for i, r in zip(rx, rv))
    return [e1 <= tol * tol, e2 <= tol * tol]


def dims(name):
    if name == 'TrailerPark':
        return 6, 2, 4
    if name == 'TrailerFree':
        return 6, 2, 3
    return models.NSTATE[name], models.NINPUT[name], REST[name][1]


def task_vehicle(t, name):
    ns, ni, nt = dims(name)
    n = 3
    state, inp, target, tol = symarr('s', ns, n), symarr('u', ni, n), symarr('T', nt), R.var('tol')
    # vehicles whose terminal pose is given as a longer vector (roll, pitch) fill it themselves
    with patched(sym_modules(omg_modules())):
        g0 = getattr(models.vehicle(name if not name.startswith('Trailer') else 'Trailer'), 'g', 9.81)
        exp = band(*[liftb(c) for c in expected(name, state, inp, target, tol, g0)])
        cl = {tag: 0 for tag in ('arrived', 'not arrived')}

        def run():
            v = make(name, state.copy(), inp.copy(), target.copy(), tol, n)
            return bool(v.check_terminal_conditions())
        for pc, res, exc in Explorer([tol > 0], timeout=20000).run(run):
            if exc is not None:
                verdict, m = check(pc)
                if verdict == 'sat':
                    t.counterexample('%s:exception' % name, 'the terminal check raises %r' % exc, case_of(name, m))
                continue
            cl['arrived' if res else 'not arrived'] += 1
            verdict, m = prove(pc, exp if res else bnot(exp), 30000)
            what = '%s: %s exactly when |position error| <= tol and at rest' % (name, 'arrived' if res else 'not arrived')
            if verdict == 'proved':
                t.ok(what)
            elif verdict == 'refuted':
                t.counterexample('%s:%s' % (name, 'false arrival' if res else 'missed arrival'), what, case_of(name, m))
            else:
                t.unknown(what)
    t.reach(cl['arrived'] > 0 and cl['not arrived'] > 0, name + ': both answers reachable')


def case_of(name, m):
    return dict(kind='vehicle', name=name, model={k: float(v) for k, v in m.items()})


def replay_vehicle(case):
    name, m = case['name'], case['model']
    ns, ni, nt = dims(name)
    num = lambda a: np.array([m.get(x.args[0], 0.) for x in a.ravel()], dtype=float).reshape(a.shape)
    state, inp, target = num(symarr('s', ns, 3)), num(symarr('u', ni, 3)), num(symarr('T', nt))
    tol = m.get('tol', 1e-3)
    v = make(name, state, inp, target, tol, 3)
    g0 = getattr(v, 'g', 9.81)
    c = expected(name, state, inp, target, tol, g0)
    exp = all(bool(x) for x in c)
    try:
        got = bool(v.check_terminal_conditions())
    except Exception as e:
        return False, 'check_terminal_conditions raised %r with state %s input %s target %s tol %g' % (
            e, state[:, -1], inp[:, -1], target, tol)
    # stay away from the boundary, where rounding decides
    return got == exp, 'last state %s, last input %s, target %s, tol %g: arrived=%s, expected %s' % (
        state[:, -1].tolist(), inp[:, -1].tolist(), target.tolist(), tol, got, exp)


# ------------------------------------------------------------- problems

def p2p(names, freeT):
    from .. import casx
    import omgtools as omg
    vs = []
    for nm in names:
        v = models.vehicle(nm)
        v.set_initial_conditions([0.] * 2)
        v.set_terminal_conditions([1.] * 2)
        vs.append(v)
    e = omg.Environment(room={'shape': omg.Square(10.)})
    with casx.capture():
        pb = omg.Point2point(vs if len(vs) > 1 else vs[0], e, freeT=freeT)
        pb.set_options({'verbose': 0})
        pb.init()
    return pb, vs


def task_stop(t, freeT, nveh):
    pb, vs = p2p(['Holonomic'] * nveh, freeT)
    arrive = [R.var('arr%d' % k) for k in range(nveh)]
    T, upd = R.var('T'), R.var('upd')
    real_get = pb.father.get_variables

    def get(child=None, name=None, **k):
        if child is pb and name == 'T':
            a = np.empty((1, 1), object)
            a[0, 0] = T
            return a
        return real_get(child, name, **k)
    pb.father.get_variables = get
    for v, a in zip(vs, arrive):
        v.check_terminal_conditions = (lambda a=a: bool(a > 0))
    exp = band(*[a > 0 for a in arrive])
    if freeT:
        exp = bor(T < upd, exp)
    seen = set()
    with patched(sym_modules(omg_modules())):
        for pc, res, exc in Explorer([upd > 0, T > 0]).run(lambda: bool(pb.stop_criterium(R.var('now'), upd))):
            if exc is not None:
                v, m = check(pc)
                t.counterexample('stop:exception', 'stop criterion raises %r' % exc,
                                 dict(kind='stop', freeT=freeT, nveh=nveh, model={k: float(x) for k, x in (m or {}).items()}))
                continue
            seen.add(res)
            verdict, m = prove(pc, exp if res else bnot(exp))
            what = 'stop (%s, %d vehicles) exactly when all arrived%s' % ('free T' if freeT else 'fixed T', nveh,
                                                                        ' or horizon below the update time' if freeT else '')
            if verdict == 'proved':
                t.ok(what)
            elif verdict == 'refuted':
                t.counterexample('stop:%s' % freeT, what, dict(kind='stop', freeT=freeT, nveh=nveh, model={k: float(x) for k, x in m.items()}))
            else:
                t.unknown(what)
    t.reach(seen == {True, False}, 'stop criterion: both answers reachable')


def replay_stop(case):
    m, freeT, nveh = case['model'], case['freeT'], case['nveh']
    pb, vs = p2p(['Holonomic'] * nveh, freeT)
    arr = []
    for k, v in enumerate(vs):
        a = m.get('arr%d' % k, 0.) > 0
        arr.append(a)
        pos = [1., 1.] if a else [0.5, 1.]
        v.signals = dict(state=np.array([pos]).T, input=np.zeros((2, 1)), pose=np.array([pos + [0.]]).T)
    exp = all(arr)
    if freeT:
        pb.father.set_variables(m.get('T', 1.), pb, 'T')
        exp = exp or m.get('T', 1.) < m.get('upd', 1.)
    try:
        got = bool(pb.stop_criterium(m.get('now', 0.), m.get('upd', 1.)))
    except Exception as e:
        return False, 'stop_criterium raised %r' % e
    return got == exp, 'vehicles arrived %s, T %s, update time %s: stop=%s, expected %s' % (arr, m.get('T'), m.get('upd'), got, exp)


# ------------------------------------------------------------- the other problems

class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)


class FatherStub:
    """hands out the motion times that the last solution has"""
    def __init__(self, times):
        self.times = times

    def get_variables(self, child=None, name=None, *a, **k):
        out = np.empty((1, 1), object)
        out[0, 0] = self.times[name]
        return out


def yes(val, name):
    return lift(val(name)) > 0


def scene_segments(cls, n):
    """a plan of several segments: multiframe and G-code problem"""
    def f(val):
        pb = cls.__new__(cls)
        times = {'T%d' % k: val('T%d' % k) for k in range(n)}
        pb.father = FatherStub(times)
        pb.n_frames = pb.n_segments = n
        pb.vehicles = [Bag(check_terminal_conditions=lambda: bool(yes(val, 'arr')))]
        tot = sum(times[k] for k in sorted(times))
        return (lambda: pb.stop_criterium(val('now'), val('upd'))), bor(liftb(lift(tot) < val('upd')), yes(val, 'arr')), None
    return f


def scene_fleet(cls, n, dual):
    def f(val):
        pb = cls.__new__(cls)
        pb.options = {'max_iter': False}
        pb.problems = [Bag(stop_criterium=lambda now, upd, k=k: bool(yes(val, 'arr%d' % k))) for k in range(n)]
        return (lambda: pb.stop_criterium(val('now'), val('upd'))), band(*[yes(val, 'arr%d' % k) for k in range(n)]), None
    return f


def scene_frames(n):
    def f(val):
        import omgtools.problems.schedulerproblem as sp
        pb = sp.SchedulerProblem.__new__(sp.SchedulerProblem)
        goal = [val('gx'), val('gy')]
        ends = [[val('e%dx' % k), val('e%dy' % k)] for k in range(n)]
        pb.frames = [Bag(endpoint=e, waypoints=[[0., 0.], e]) for e in ends]
        pb.goal_state = goal + [0.2]
        pb.local_problem = Bag(stop_criterium=lambda now, upd: bool(yes(val, 'loc')))
        exp = band(liftb(lift(ends[-1][0]) == goal[0]), liftb(lift(ends[-1][1]) == goal[1]), yes(val, 'loc'))
        return (lambda: pb.stop_criterium(val('now'), val('upd'))), exp, None
    return f


def scene_program(n, k, ahead):
    """the tool is in block k of n, the blocks follow each other, the program ends in the goal; blocks may visit a point repeatedly"""
    def f(val):
        import omgtools.problems.gcodeschedulerproblem as gs
        pb = gs.GCodeSchedulerProblem.__new__(gs.GCodeSchedulerProblem)
        pts = [[val('p%dx' % i), val('p%dy' % i), val('p%dz' % i)] for i in range(n + 1)]
        rooms = [dict(start=pts[i], end=pts[i + 1], number=i) for i in range(n)]
        pb.environment = Bag(room=rooms)
        pb.segments = rooms[k:k + ahead]
        pb.n_segments, pb.n_current_block, pb.cnt = len(pb.segments), k, n - 1
        pb.next_segment = rooms[k + 1] if k + 1 < n else None
        pb.goal_state = list(pts[-1])
        pb.local_problem = Bag(stop_criterium=lambda now, upd: bool(yes(val, 'loc')))
        same = [liftb(lift(a) == b) for a, b in zip(pts[k] + pts[k + 1], pts[-2] + pts[-1])]
        run = lambda: pb.stop_criterium(val('now'), val('upd'))
        if k == n - 1:
            return run, yes(val, 'loc'), None
        # a block that repeats the last one from start to end may be taken for the last one (check_segments keeps it, too)
        return run, FALSE, bnot(band(*same))
    return f


CONF = {'pair': [[0.2, 0.1], [-0.2, -0.1]], 'three': [[0., 0.3], [-.3, -.1], [.3, -.2]]}


def scene_meeting(conf):
    def f(val):
        import omgtools as omg
        from omgtools.problems.rendezvous import RendezVous
        c = CONF[conf]
        with env.unpatched():
            vs = [omg.Holonomic() for _ in c]
            fl = omg.Fleet(vs)
            fl.set_configuration(c)
        pos = [[val('x%d' % k), val('y%d' % k)] for k in range(len(c))]
        for v, p in zip(vs, pos):
            a = np.empty((2, 2), object)
            a[:, 0] = p
            a[:, 1] = [val('later')] * 2
            v.trajectories = {'splines': a}
        pb = RendezVous.__new__(RendezVous)
        pb.vehicles, pb.fleet = vs, fl
        # stopping means that all neighbours are within 5 cm of their places, and a fleet that is in place stops
        near, tot = [], 0
        for i in range(len(vs)):
            j = (i + 1) % len(vs)
            e = [lift(pos[i][d]) - pos[j][d] - (c[i][d] - c[j][d]) for d in range(2)]
            near.append(liftb(e[0] * e[0] + e[1] * e[1] <= lift(0.0025 + 1e-9)))
            tot = tot + e[0] * e[0] + e[1] * e[1]
        return (lambda: pb.stop_criterium(val('now'), val('upd'))), (band(*near), liftb(tot <= lift(1e-9))), None
    return f


def other_scenes():
    from omgtools.problems.multiframeproblem import MultiFrameProblem
    from omgtools.problems.gcodeproblem import GCodeProblem
    from omgtools.problems.distributedproblem import DistributedProblem
    from omgtools.problems.admm import ADMMProblem
    from omgtools.problems.dualdecomposition import DDProblem
    out = {}
    for n in (1, 2, 3):
        out['multiframe-%d' % n] = scene_segments(MultiFrameProblem, n)
        out['gcode-%d' % n] = scene_segments(GCodeProblem, n)
        out['frames-%d' % n] = scene_frames(n)
        out['distributed-%d' % n] = scene_fleet(DistributedProblem, n, False)
        out['admm-%d' % n] = scene_fleet(ADMMProblem, n, True)
        out['dual-%d' % n] = scene_fleet(DDProblem, n, True)
    for k in range(3):
        for ahead in (1, 2):
            out['program-3-%d-%d' % (k, ahead)] = scene_program(3, k, ahead)
    for c in CONF:
        out['meeting-' + c] = scene_meeting(c)
    return out


def task_other(t, which):
    val = R.var
    sc = other_scenes()[which]
    nm = Norm() if which.startswith('meeting') else None
    S = (lambda x: nm(liftb(x))) if nm else liftb
    seen = set()
    with patched(sym_modules(omg_modules())):
        run, exp, more = sc(val)
        exp = exp if isinstance(exp, tuple) else (exp, exp)
        asm = [val('upd') > 0] + [val('T%d' % k) > 0 for k in range(3)]
        if more is not None:
            asm.append(more)
        for pc, res, exc in Explorer(asm, norm=Norm() if nm else None).run(lambda: bool(run())):
            pcs = [S(p) for p in pc]
            if exc is not None:
                v, m = check(pcs)
                if v == 'sat':
                    t.counterexample('stop:%s:exception' % which, '%s: the stop criterion raises %r' % (which, exc), dict(kind='other', which=which, model={k: float(x) for k, x in m.items()}))
                continue
            seen.add(res)
            v, m = prove(pcs + (nm.side() if nm else []), S(exp[0] if res else bnot(exp[1])))
            what = '%s: stop exactly when everything has arrived' % which
            if v == 'proved':
                t.ok(what)
            elif v == 'refuted':
                t.counterexample('stop:%s:%s' % (which, 'early' if res else 'missed'), what, dict(kind='other', which=which, model={k: float(x) for k, x in m.items()}))
            else:
                t.unknown(what)
    want = {False} if exp[0] is FALSE else {True, False}
    t.reach(seen == want, '%s: both answers reachable' % which)


def replay_other(case):
    m = case['model']
    with env.unpatched():
        run, exp, more = other_scenes()[case['which']](lambda n: m.get(n, 1. if n[0] == 'T' or n == 'upd' else 0.))
        try:
            got = bool(run())
        except Exception as e:
            return False, 'stop_criterium raises %r with %r' % (e, m)
        exp = exp if isinstance(exp, tuple) else (exp, exp)
        want = bool(exp[0] if got else exp[1])
    return got == want, '%s with %r: stop=%s, expected %s' % (case['which'], m, got, want)


def tasks(tier, seed):
    out = [('vehicle ' + n, ('vehicle', n)) for n in list(REST) + ['TrailerPark', 'TrailerFree']]
    for nveh in (1, 2) if tier == 'quick' else (1, 2, 3):
        out += [('stop freeT %d' % nveh, ('stop', True, nveh)), ('stop fixedT %d' % nveh, ('stop', False, nveh))]
    out += [('other ' + w, ('other', w)) for w in other_scenes()]
    return out
