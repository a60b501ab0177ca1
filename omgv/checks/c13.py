"""C13: formation and rendezvous couplings mean the configured relative positions."""
import itertools
import math
from fractions import Fraction as F
import numpy as np
import casadi as cas
from .. import env, expr, claims as C, decl, models, casx, scen, fpoly, rows, kin
from ..rows import FPW, cst
from ..expr import R, lift, band, bnot
from ..env import omg_modules, sym_modules, patched, unpatched, quiet
from ..decide import decide
from ..fpoly import fadd
import omgtools as omg
from omgtools.basics.shape import Rectangle, Cuboid

INFO = dict(
    explanation='set_configuration runs on symbolic relative positions and every derived quantity is compared with its definition; the coupling rows of the real '
                'joint and local problems are shown by z3 to hold only for vehicles in the configured relative positions at every instant, and for all of those',
    bounds=['fleets of 1 to 6 vehicles, circular and full, configurations of 1 to 3 coordinates, 6 orientations', 'joint problems of 2 to 5 vehicles (Holonomic, Holonomic3D, Quadrotor), '
            'local problems of Dubins formations and rendezvous; 3 and 4 knot intervals, spline coefficients within 1000, deviation 1e-6'],
    outside=['configurations of other coordinates than the first ones', 'agreement of the copies between vehicles (C12)'],
    stubs=['nlpsol: captured'],
    assumptions=['Dubins formations keep their shape up to the declared 1e-2'])

ANGLES = [0., math.pi / 2, 0.7, -2.1, math.pi, 5.]


# ------------------------------------------------- fleet data

def make_fleet(n, inter):
    vs = [omg.Holonomic() for _ in range(n)]
    return vs, omg.Fleet(vs, inter)


def ring(n):
    return {frozenset(p) for i in range(n) for p in [(i, (i + 1) % n)] if i != (i + 1) % n}


def fleet_claims(n, inter, dim, form, angle, val):
    """[(what, got, expected)] numbers or terms"""
    vs, fl = make_fleet(n, inter)
    out = []
    nb = {i: [vs.index(v) for v in fl.get_neighbors(vs[i])] for i in range(n)}
    want = ring(n) if inter == 'circular' else {frozenset(p) for p in itertools.combinations(range(n), 2)}
    got = {frozenset((i, j)) for i in nb for j in nb[i] if i != j}
    out.append(('connections', [sorted(map(sorted, got))], [sorted(map(sorted, want))]))
    out.append(('connections are mutual', [all(i in nb[j] for i in nb for j in nb[i])], [True]))
    conf = [[val('c%d_%d' % (i, k)) for k in range(dim)] for i in range(n)]
    c, s = math.cos(angle), math.sin(angle)
    ref = [[x[0] * c + x[1] * s, x[1] * c - x[0] * s] if dim == 2 else list(x) for x in conf]
    arg = [dict(enumerate(x)) if form == 'dict' else list(x) for x in conf]
    fl.set_configuration(arg, angle) if angle else fl.set_configuration(arg)
    for i, v in enumerate(vs):
        out.append(('configuration', [fl.configuration[v][k] for k in range(dim)], ref[i]))
        out.append(('position of the centre seen by a vehicle', list(v.rel_pos_c), [x * -1 for x in ref[i]]))
        rel = fl.get_rel_config(v)
        for j in nb[i]:
            out.append(('relative configuration', list(rel[vs[j]]), [a - b for a, b in zip(ref[i], ref[j])]))
            out.append(('relative configuration is opposite for the other', list(rel[vs[j]]), [x * -1 for x in fl.get_rel_config(vs[j])[v]]))
    return out


def task_fleet(t, n, inter, dim, form, angle):
    case = dict(kind='fleet', extra=[n, inter, dim, form, angle])
    with patched(sym_modules(omg_modules())), quiet():
        out = fleet_claims(n, inter, dim, form, angle, R.var)
    for what, got, want in out:
        key = 'fleet:%s' % what.replace(' ', '-')
        bad = len(got) != len(want)
        for a, b in zip(got, want):
            if bad:
                break
            if not isinstance(a, R) and not isinstance(b, R):
                bad = a != b
                continue
            d = fpoly.clean(fadd(fpoly.to_f(lift(a), {}), fpoly.to_f(lift(b), {}), -1.), 1e-12)
            v = fpoly.zero(d, 1e-9)
            bad = (v[0] if isinstance(v, tuple) else v) != 'proved'
        if bad:
            t.counterexample(key, '%s of %d vehicles (%s, %s, %g)' % (what, n, inter, form, angle), case)
        else:
            t.ok(what)


def replay_fleet(case):
    n, inter, dim, form, angle = case['extra']
    rng = np.random.default_rng(5)
    with quiet():
        out = fleet_claims(n, inter, dim, form, angle, lambda s: float(rng.uniform(-2, 2)))
    for what, got, want in out:
        ok = len(got) == len(want) and all(a == b if not isinstance(b, float) else abs(a - b) < 1e-9 for a, b in zip(got, want))
        if not ok:
            return False, '%s of %d vehicles (%s, %s, orientation %g): %s instead of %s' % (what, n, inter, form, angle, got, want)
    return True, 'fleet data as defined'


# ------------------------------------------------- scenes

CONF = [[0.3, -0.4, 0.1], [-0.5, 0.2, 0.], [0.1, 0.6, -0.3], [0.7, 0.45, 0.2], [-0.2, -0.7, 0.15]]


def fleet_of(model, n, inter, dim, K, angle):
    vs = []
    for i in range(n):
        v = models.vehicle(model)
        v.define_knots(knot_intervals=K)
        v.set_initial_conditions(list(scen.START[model]))
        v.set_terminal_conditions(list(scen.GOAL[model]))
        vs.append(v)
    fl = omg.Fleet(vs, inter)
    fl.set_configuration([c[:dim] for c in CONF[:n]], angle)
    e = omg.Environment(room={'shape': Cuboid(6., 6., 6.) if dim == 3 else Rectangle(6., 6.)})
    return vs, fl, e


def offsets(n, dim, angle):
    c, s = math.cos(angle), math.sin(angle)
    return [[x[0] * c + x[1] * s, x[1] * c - x[0] * s] if dim == 2 else list(x[:dim]) for x in CONF[:n]]


def _build(kind, model, n, inter='circular', dim=2, K=4, angle=0., opts=None):
    with decl.record() as log, casx.capture() as got, quiet():
        vs, fl, e = fleet_of(model, n, inter, dim, K, angle)
        o = dict({'verbose': 0, 'horizon_time': 10.}, **(opts or {}))
        if kind == 'central':
            pb = omg.FormationPoint2pointCentral(fl, e, options=o)
            pb.init()
            b = scen.Built(pb, log, got[-1], vs, [])
            father = pb.father
        else:
            pb = (omg.RendezVous if kind == 'rendezvous' else omg.FormationPoint2point)(fl, e, options=o)
            pb.init()
            u = pb.updaters[0]
            father = u.father_updx
            b = scen.Built(u.problem, log, u.problem_upd_x, [vs[0]], [])
    b.extra = dict(kind=kind, vs=vs, off=offsets(n, dim, angle), dim=dim, top=pb, opts=opts or {}, name=(kind, model, n, inter))
    b.conf = {v: [float(x) for x in np.ravel(cas.DM(father.set_parameters(0.)[v.label, 'rel_pos_c']))] for v in b.vehicles}
    return b


def build(*a, **k):
    return env.real(_build, *a, **k)


SC = {}


def sc(name, *a, **k):
    SC[name] = lambda: build(*a, **k)


for _m, _n, _i in (('Holonomic', 2, 'circular'), ('Holonomic', 3, 'circular'), ('Holonomic', 4, 'circular'), ('Holonomic', 5, 'circular'),
                   ('Holonomic', 2, 'full'), ('Holonomic', 3, 'full'), ('Holonomic', 4, 'full'), ('Quadrotor', 3, 'circular')):
    sc('central:%s:%d:%s' % (_m, _n, _i), 'central', _m, _n, _i, angle=0.7 if _n == 3 else 0.)
sc('central:Holonomic3D:3:circular', 'central', 'Holonomic3D', 3, 'circular', 3)
sc('central:Holonomic3D:2:full', 'central', 'Holonomic3D', 2, 'full', 3, K=3)
sc('soft:Holonomic:3:circular', 'central', 'Holonomic', 3, 'circular', opts={'soft_formation': True, 'max_formation_deviation': 0.1})
sc('soft:Holonomic:2:full', 'central', 'Holonomic', 2, 'full', opts={'soft_formation': True, 'max_formation_deviation': 0.1})
sc('local:Dubins:2', 'formation', 'Dubins', 2)
sc('local:Dubins:3', 'formation', 'Dubins', 3, angle=math.pi / 2, K=3)
sc('meet:Holonomic:3', 'rendezvous', 'Holonomic', 3)
sc('meet:Holonomic:2', 'rendezvous', 'Holonomic', 2, K=3)


def claims(S):
    """(key, what, curve <= 0)"""
    b = S.b
    x = b.extra
    if x['kind'] == 'central':
        n = len(x['vs'])
        dev = float(x['opts'].get('max_formation_deviation', 0.)) * (n - 1)
        pos = [S.P.vehicle_splines(v) for v in x['vs']]
        for i, j in itertools.combinations(range(n), 2):
            for k in range(x['dim']):
                d = (pos[i][k] - x['off'][i][k]) - (pos[j][k] - x['off'][j][k])
                for s in (1., -1.):
                    yield ('keep|%d,%d,%d,%g' % (i, j, k, s), 'vehicles %d and %d keep their relative position (coordinate %d)' % (i, j, k), d * s - dev)
        return
    v = b.vehicles[0]
    off = x['off'][0]
    if x['kind'] == 'formation':
        ps = S.pose(v)
        g = ps.tg
        c = S.P.spline(v, 'formation_center')
        w = g * g + 1.
        rot = [(w * -1. + 2.) * off[0] - g * (2. * off[1]), g * (2. * off[0]) + (w * -1. + 2.) * off[1]]
        for k in range(2):
            d = (ps.pos[k] - c[k]) * w - rot[k]
            for s in (1., -1.):
                yield ('place|%d,%g' % (k, s), 'the vehicle is at its place, turned with its heading, around the shared centre (coordinate %d)' % k, d * s - 1e-2)
        for k in range(2):
            for o in range(1, v.degree + 1):
                e = c[k].der(o).at(1.)
                for s in (1., -1.):
                    yield ('rest|%d,%d,%g' % (k, o, s), 'the shared centre comes to rest', {m: s * a for m, a in e.items()})
        return
    sp = S.P.vehicle_splines(v)
    con = [S.P.f(q) for q in S.M.q[(b.problem, 'conT0')].ravel('F')]
    for k in range(x['dim']):
        g = S.P.spline(b.problem, 'g0_%d' % k)[0]
        for s in (1., -1.):
            yield ('meet|%d,%g' % (k, s), 'the penalised distance bounds the distance to the shared end point at every instant (coordinate %d)' % k,
                   (sp[k] - FPW.const(sp[k].breaks, con[k])) * s - g)


class Setup(C.Setup):
    def __init__(self, built, mode, extra=None):
        def given(M):
            out = {}
            for v, vals in built.conf.items():
                for q, x in zip(M.q[(v, 'rel_pos_c')].ravel('F'), vals):
                    out[q] = x
            return out
        C.Setup.__init__(self, built, mode, given)


def task_scene(t, name):
    built = SC[name]()
    found = set()
    for mode in C.modes(built):
        S = Setup(built, mode)
        eng = S.P.engine(box=1e3, tol=1e-6)
        C.reachable(t, S, '%s[%s]' % (name, mode))
        n = 0
        for key, what, curve in claims(S):
            n += 1
            C.decide(t, S, eng, name, mode, key, '%s[%s]: %s' % (name, mode, what), curve, found)
        t.reach(n > 0, name + ': claims')
        allowed(t, S, name, mode)


def allowed(t, S, name, mode):
    """vehicles in formation satisfy every coupling row: put them there, all coefficients of the shared motion free"""
    b, x = S.b, S.b.extra
    if x['kind'] != 'central':
        return
    M = S.M
    sub = {}
    v0 = x['vs'][0]
    q0 = M.q[(v0, 'splines_seg0')]
    for i, v in enumerate(x['vs'][1:], 1):
        q = M.q[(v, 'splines_seg0')]
        for k in range(x['dim']):
            for a, c in zip(q[:, k], q0[:, k]):
                sub[a] = c + (x['off'][i][k] - x['off'][0][k])
    eps = [q for (c, nm), qs in M.q.items() if nm.startswith('eps_form') for q in qs.ravel()]
    for e in eps:
        sub[e] = lift(0.)
    names = [(b.problem, nm) for nm in b.problem._constraints]
    place = C_places(b, names)
    bad = 0
    for (c, nm), ix in place.items():
        if not touches(b, nm, x['vs']):
            continue
        for i in ix:
            p = fpoly.clean(S.P.f(expr.substitute([S.P.g[i]], sub)[0]), 1e-12)
            ok = True
            for lim, s in ((S.P.ub[i], 1.), (S.P.lb[i], -1.)):
                if not math.isfinite(lim):
                    continue
                d = {m: s * a for m, a in fadd(p, {(): -lim}).items()}
                if set(fpoly.clean(d, 1e-9)) <= {()}:
                    v = 'proved' if d.get((), 0.) <= 1e-7 else 'refuted'
                else:
                    v = above(d)
                ok = ok and v == 'proved'
            if not ok:
                bad += 1
                t.counterexample('%s:allow' % name, '%s[%s]: a coupling row refuses vehicles in formation' % (name, mode), dict(kind='allow', extra=[name, mode]))
                return
            t.ok('%s: coupling row allows the formation' % name)


def above(d):
    """can d > 1e-7 hold for coefficients in the unit box"""
    from ..solver import LinQuery, q
    L = LinQuery(20000)
    for m in d:
        if m:
            L.add(L.var(m) <= q(F(1)))
            L.add(L.var(m) >= q(F(-1)))
    L.add(L.lin({m: F(c) for m, c in d.items() if m}, F(d.get((), 0.))) > q(F(1, 10**7)))
    r = L.check()
    r = str(r[0] if isinstance(r, tuple) else r)
    return {'unsat': 'proved', 'sat': 'refuted'}.get(r, r)


def C_places(b, names):
    """rows of the vector of constraints that belong to a constraint"""
    st = b.problem.father._con_struct
    all_ = st(list(range(st.shape[0])))
    out = {}
    for c, nm in names:
        out[c, nm] = np.array(cas.DM(all_[c._add_label(nm)])).astype(int).ravel()
    return out


def touches(b, nm, vs):
    """a constraint on more than one vehicle"""
    ex = b.problem._constraints[nm][0]
    labs = {v.label for v in vs}
    hit = {l for l in labs for s in cas.symvar(cas.MX(ex)) if b.problem.father.symbol_dict.get(s.name(), [None])[0] is not None
           and getattr(b.problem.father.symbol_dict[s.name()][0], 'label', None) == l}
    return len(hit) > 1


def replay_allow(case):
    name, mode = case['extra']
    b = SC[name]()
    S = Setup(b, mode)
    x = b.extra
    M = S.M
    rng = np.random.default_rng(2)
    X = rng.normal(size=M.nlp.nx)
    c0 = rng.normal(size=M.ix[(x['vs'][0], 'splines_seg0')].shape)
    for i, v in enumerate(x['vs']):
        X[M.ix[(v, 'splines_seg0')]] = c0 + np.array([x['off'][i][k] - x['off'][0][k] for k in range(x['dim'])])
    for key, ix in M.ix.items():
        if key[1].startswith('eps_form'):
            X[ix] = 0.
    st = b.problem.father.set_parameters(0.)
    g = np.array(b.nlp.fun()(X, st.cat)[1]).ravel()
    worst = 0.
    for (c, nm), ix in C_places(b, [(b.problem, nm) for nm in b.problem._constraints]).items():
        if touches(b, nm, x['vs']):
            worst = max([worst] + [max(g[i] - S.P.ub[i], S.P.lb[i] - g[i]) for i in ix])
    return bool(worst < 1e-6), '%s: vehicles exactly in the configured relative positions violate a coupling row by %g' % (name, worst)


def replay_claim(case):
    built = SC[case['scene']]()
    ok, worst = C.feasible(built, case['x'], case['p'])
    if not ok:
        return None, 'rows violated by %.2e' % worst
    S = Setup(built, case['mode'])
    num = C.atoms_of(S, case['x'], case['p'], case['extra'])
    for key, what, curve in claims(S):
        if key == case['key']:
            val = rows.feval(curve if isinstance(curve, dict) else curve.at(case['tau']), num)
            return bool(val <= 1e-4), 'all rows of the problem hold (worst %.1e); %s: excess %.5g' % (worst, what, val)
    return None, 'no claim ' + case['key']


# ------------------------------------------------- rendezvous: when are they together

def task_stop(t, n, inter):
    with quiet():
        b = env.real(_stop_build, n, inter)
    pb, vs = b
    off = offsets(n, 2, 0.)
    pos = [[R.var('p%d' % k) for k in range(2)]]
    for i in range(1, n):
        pos.append([pos[-1][k] + (off[i][k] - off[i - 1][k]) + R.var('d%d_%d' % (i, k)) for k in range(2)])
    for v, p in zip(vs, pos):
        v.trajectories = {'splines': np.array([[p[0]], [p[1]]], object)}
    pairs = sorted(map(sorted, ring(n) if inter == 'circular' else {frozenset(p) for p in itertools.combinations(range(n), 2)}))
    gaps = [(pos[i][k] - off[i][k]) - (pos[j][k] - off[j][k]) for i, j in pairs for k in range(2)]

    def cl(res):
        if res:
            return [('stops only when every pair is within 5e-2 of meeting', [], c) for g in gaps for c in (g <= 0.0501, g >= -0.0501)]
        small = 0.049 / math.sqrt(4 * len(gaps))
        return [('does not go on when all have met', [], bnot(band(*[c for g in gaps for c in (g <= small, g >= -small)])))]
    decide(t, 'stop:%d:%s' % (n, inter), [], lambda: bool(pb.stop_criterium(0., 0.5)), cl, 'stop', [n, inter],
           patches(), want=(True, False), tag=bool, timeout=30000)


class Gap(object):
    """the norm of one number, to be squared"""

    def __init__(self, v):
        self.v = np.ravel(v)

    def __pow__(self, k):
        if k != 2:
            raise expr.Unsupported('power of a norm')
        return sum((lift(x) * x for x in self.v), R.const(0))


def patches():
    class LA(object):
        norm = Gap

    class Np(object):
        linalg = LA

        def __getattr__(self, k):
            return getattr(env.NP, k)
    from omgtools.problems import rendezvous as rv
    return sym_modules(omg_modules()) + [(rv, 'np', Np())]


def _stop_build(n, inter):
    vs, fl, e = fleet_of('Holonomic', n, inter, 2, 4, 0.)
    return omg.RendezVous(fl, e, options={'verbose': 0}), vs


def replay_stop(case):
    n, inter = case['extra']
    with quiet():
        pb, vs = _stop_build(n, inter)
    m = case['model']
    off = offsets(n, 2, 0.)
    pos = [[m.get('p%d' % k, 0.) for k in range(2)]]
    for i in range(1, n):
        pos.append([pos[-1][k] + (off[i][k] - off[i - 1][k]) + m.get('d%d_%d' % (i, k), 0.) for k in range(2)])
    for v, p in zip(vs, pos):
        v.trajectories = {'splines': np.array([[p[0]], [p[1]]])}
    pairs = ring(n) if inter == 'circular' else {frozenset(p) for p in itertools.combinations(range(n), 2)}
    gaps = [abs((pos[i][k] - off[i][k]) - (pos[j][k] - off[j][k])) for i, j in map(sorted, pairs) for k in range(2)]
    r = bool(pb.stop_criterium(0., 0.5))
    ok = (max(gaps) <= 0.0501) if r else not max(gaps) <= 0.049 / math.sqrt(4 * len(gaps))
    return ok, 'vehicles at %s: stop=%s, largest deviation of a pair %g' % (pos, r, max(gaps))


def tasks(tier, seed):
    out = []
    for n in range(1, 7 if tier == 'thorough' else 6):
        for inter in ('circular', 'full'):
            for dim, form in ((2, 'list'), (2, 'dict'), (1, 'list'), (3, 'list'), (3, 'dict')):
                for a in (ANGLES if dim == 2 and (n == 3 or tier == 'thorough') else [0.] if dim != 2 else [0., 0.7]):
                    out.append(('fleet:%d:%s:%d:%s:%.2f' % (n, inter, dim, form, a), ('fleet', n, inter, dim, form, a)))
    out += [('scene:' + k, ('scene', k)) for k in SC]
    out += [('stop:%d:%s' % (n, i), ('stop', n, i)) for n, i in ((2, 'circular'), (3, 'circular'), (3, 'full'))]
    return out
