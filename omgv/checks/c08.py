"""C08: rows of the problem tie the plan to the predicted state at its start and to the target, at rest, at its end."""
import math
import itertools
import numpy as np
from .. import kin, scen, claims, rows, conc, env, expr
from ..expr import R, lift, symarr
from ..rows import FPW, cst
from ..fpoly import fmul, fadd, to_f
from ..scen import p2p, Circle, Square, Rectangle, Sphere, Cuboid
from ..solver import Explorer, prove
from ..env import omg_modules, patched, sym_modules
from .c04 import Setup, modes, box_of, term, vectors, feasible, reachable
from .. import models

INFO = dict(
    explanation='The real set_parameters of every child runs on symbolic predictions and targets; its values replace the parameters of the captured NLP. '
                'Claims, decided by z3 over the rows: at the current time the flat outputs and the derivatives that the model keeps continuous equal the '
                'prediction (physical derivatives: divided by powers of the horizon time), at the end they equal the target and rest; segments of a '
                'multi-segment plan join with equal physical derivatives.  A refuted claim becomes a trajectory satisfying every row, replayed with the '
                'real set_parameters on numbers.',
    bounds=['knot intervals 2-4', 'objective of fixed and free end: every value of the variables', 'every value of decision variables, prediction, target, horizon 8 or free (t symbolic within the first knot interval, or at its '
            'start and middle for models with integrated position)', '1-3 segments, 1-2 vehicles'],
    outside=['fixed horizon without hard_term_con: only the integral of the target error is minimized (claimed: the objective bounds it, the derivatives vanish)',
             'steering rate of bicycle and AGV, angular rates of Quadrotor3D, acceleration of holonomic models (not kept continuous by the model)',
             'bicycle and AGV slower than 1e-4: treated as standing still by the code'],
    stubs=['the NLP solver (recorder)'])

H = 8.
MR = [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}]
MR3 = MR + [lambda: {'shape': Rectangle(2., 5.), 'position': [0.5, 1.]}]
PROG = ['G01 X1 Y0 Z0', 'G01 X1 Y1 Z0', 'G01 X2 Y2 Z0']
TB = dict(vxmin=-0.4, vxmax=0.6, vymin=-0.7, vymax=0.3, vzmin=-0.2, vzmax=0.25)


def fixed(v, knots=2, popts=None, **k):
    return p2p(v, knots=knots, popts=dict({'horizon_time': H}, **(popts or {})), **k)


def free_end(vnames, knots=2, free=None):
    """fixed horizon with free end positions (used by rendez-vous)"""
    return scen.p2p(vnames, knots=knots, popts={'horizon_time': H}, free_ind=free or 'all')


SC = {
    'holo': lambda: fixed('Holonomic', 4),
    'holo_hard': lambda: fixed('Holonomic', 3, {'hard_term_con': True}),
    'holo_noder': lambda: fixed('Holonomic', 2, {'no_term_con_der': True}),
    'holo_freeT': lambda: p2p('Holonomic', freeT=True, knots=3),
    'holo_freeT_noder': lambda: p2p('Holonomic', freeT=True, knots=2, popts={'no_term_con_der': True}),
    'holo1d': lambda: fixed('Holonomic1D', 3, room={'shape': Rectangle(6., 4.)}),
    'holo1d_freeT': lambda: p2p('Holonomic1D', freeT=True, knots=3, room={'shape': Rectangle(6., 4.)}),
    'holo3d': lambda: fixed('Holonomic3D', 3, {'hard_term_con': True}),
    'holo3d_freeT': lambda: p2p('Holonomic3D', freeT=True, knots=2),
    'orient': lambda: fixed('HolonomicOrient', 3),
    'orient_hard': lambda: fixed('HolonomicOrient', 2, {'hard_term_con': True}),
    'orient_freeT': lambda: p2p('HolonomicOrient', freeT=True, knots=2),
    'dubins': lambda: fixed('Dubins', 3, {'hard_term_con': True}),
    'dubins_freeT': lambda: p2p('Dubins', freeT=True, knots=2),
    'dubins_subst': lambda: fixed('Dubins', 2, vopts={'degree': 2, 'substitution': True, 'exact_substitution': True}),
    'bicycle': lambda: p2p('Bicycle', freeT=True, knots=2, vkw=dict(length=0.5)),
    'bicycle_fixed': lambda: fixed('Bicycle', 2, {'hard_term_con': True}, vkw=dict(length=0.5)),
    'agv': lambda: p2p('AGV', freeT=True, knots=2, vkw=dict(length=0.5)),
    'agv_fixed': lambda: fixed('AGV', 2, {'hard_term_con': True}, vkw=dict(length=0.5)),
    'quadrotor': lambda: fixed('Quadrotor', 3),
    'quadrotor_freeT': lambda: p2p('Quadrotor', freeT=True, knots=2),
    'quad3d': lambda: fixed('Quadrotor3D', 2, vopts={'substitution': True, 'exact_substitution': True}),
    'simplequad': lambda: fixed('SimpleQuadrotor3D', 2, {'hard_term_con': True}),
    'simplequad_freeT': lambda: p2p('SimpleQuadrotor3D', freeT=True, knots=2),
    'trailer': lambda: p2p('Trailer', freeT=True, knots=2),
    'two': lambda: fixed(['Holonomic', 'HolonomicOrient'], 2, {'hard_term_con': True}),
    'two_freeT': lambda: p2p(['Holonomic', 'Dubins'], freeT=True, knots=2),
    'multi': lambda: scen.multi('Holonomic', MR, knots=2),
    'multi3': lambda: scen.multi('Holonomic', MR3, knots=2),
    'multi_two': lambda: scen.multi(['Holonomic', 'HolonomicOrient'], MR, knots=2),
    'multi_dubins': lambda: scen.multi('Dubins', MR, knots=2),
    'multi3d': lambda: scen.multi('Holonomic3D', [lambda: {'shape': Cuboid(3., 4., 3.), 'position': [-1., 0., 0.]},
                                                  lambda: {'shape': Cuboid(4., 3., 3.), 'position': [1., 0.5, 0.]}], knots=2),
    'tool': lambda: scen.gcode(PROG, bounds=TB, vopts={'vel_limit': 'axes'}),
    'tool_two': lambda: scen.gcode(PROG, n_segments=2, bounds=TB, vopts={'vel_limit': 'axes'}),
    'freeend': lambda: free_end(['Holonomic']),
    'freeend_two': lambda: free_end(['Holonomic', 'Holonomic3D']),
    'freeend_x': lambda: free_end(['Holonomic'], free=[0]),
}
SC.pop('freeend_two')
QUICK = list(SC)
HEAVY = {'trailer': 2, 'bicycle': 2, 'agv': 2}


def tasks(tier, seed):
    return claims.tasks_of(QUICK if tier == 'quick' else SC, HEAVY)


# ------------------------------------------------------- predictions and targets

def symbols(vs):
    """gives every vehicle symbolic predictions and a symbolic target: {vehicle: dict}"""
    out = {}
    for i, v in enumerate(vs):
        n = type(v).__name__
        s = dict(state=symarr('st%d_' % i, models.NSTATE[n]), input=symarr('in%d_' % i, models.NINPUT[n]),
                 target=symarr('tg%d_' % i, {'Dubins': 3, 'Bicycle': 3, 'AGV': 3, 'HolonomicOrient': 3, 'Quadrotor': 2, 'Quadrotor3D': 5, 'Holonomic': 2,
                                             'Holonomic1D': 1, 'Trailer': 4}.get(n, 3)))
        for k in ('dspl', 'ddspl', 'dinput'):
            s[k] = symarr('%s%d_' % (k, i), 3 if n == 'Tool' else 2)
        out[v] = s
    return out


def impose(vs, sym):
    """hand prediction and target to the vehicles through their own interface"""
    for v in vs:
        s, n = sym[v], type(v).__name__
        v.prediction.update(state=s['state'], input=s['input'])
        for k in ('dspl', 'ddspl', 'dinput'):
            if k in v.prediction:
                v.prediction[k] = s[k]
        if n == 'Trailer':
            v.lead_veh.set_terminal_conditions(s['target'][:3])
            v.set_terminal_conditions(s['target'][3])
        elif n == 'Quadrotor3D':
            v.set_terminal_conditions(s['target'][:3], s['target'][3], s['target'][4])
        else:
            v.set_terminal_conditions(s['target'])


class ParRec(object):
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self

    def __setitem__(self, k, v):
        self.d[k] = v


def parameters(built, sym):
    """paths of the real father.set_parameters on the symbolic predictions: [(facts, {(label, name): value})]"""
    father = built.problem.father
    vs = built.vehicles

    def run():
        impose(vs, sym)
        rec = ParRec()
        keep = father._par_struct, father._par_result
        father._par_struct = rec
        try:
            father.set_parameters(0.)
        finally:
            father._par_struct, father._par_result = keep
        return rec.d
    old = [(v, dict(v.prediction)) for v in vs] + [(v.lead_veh, dict(v.lead_veh.prediction)) for v in vs if hasattr(v, 'lead_veh')]
    res = []
    with patched(sym_modules(omg_modules())):
        for pc, d, exc in Explorer().run(run):
            if exc is not None:
                raise exc
            res.append((pc, d))
    for v, p in old:
        v.prediction.clear()
        v.prediction.update(p)
    return res


def substitution(built, d):
    """{term of the parameter vector: value} for the vehicles' own parameters"""
    own = list(built.vehicles) + [v.lead_veh for v in built.vehicles if hasattr(v, 'lead_veh')]
    lab = {v.label: v for v in own}

    def extra(M):
        out = {}
        for (l, name), val in d.items():
            v = lab.get(l)
            if v is None or (v, name) not in M.pix:
                continue
            ix = M.pix[(v, name)]
            a = np.empty(ix.shape, dtype=object)
            val = np.asarray(val, dtype=object)
            if val.dtype == object and val.shape == ():
                a[:] = val.item()
            else:
                a = val.reshape(ix.shape, order='F')
            for i, x in zip(ix.ravel('F'), a.ravel('F')):
                x = x.item() if hasattr(x, 'item') else x
                out[M.P[i]] = lift(x)
        return out
    return extra


# --------------------------------------------------------------------- claims

def tan2(a):
    return (a / 2).tan()


def start_of(v, s, sp, pose, cur):
    """(name, what, curve, order of the derivative, predicted value)"""
    n = type(v).__name__
    x, u = s['state'], s['input']
    if n in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'Tool'):
        for k, c in enumerate(sp[:len(x)]):
            yield 'pos%d' % k, 'position %d' % k, c, 0, x[k]
            yield 'vel%d' % k, 'velocity %d' % k, c.der(), 1, u[k]
            if n == 'Tool':
                yield 'acc%d' % k, 'acceleration %d' % k, c.der(2), 2, s['dinput'][k]
    elif n == 'HolonomicOrient':
        for k in range(2):
            yield 'pos%d' % k, 'position %d' % k, sp[k], 0, x[k]
            yield 'vel%d' % k, 'velocity %d' % k, sp[k].der(), 1, u[k]
        g = tan2(x[2])
        yield 'heading', 'tan(heading/2)', sp[2], 0, g
        yield 'rate', 'rate of tan(heading/2) of the predicted turn rate', sp[2].der(), 1, u[2] * (1 + g * g) / 2
    elif n in ('Dubins', 'Bicycle', 'AGV', 'Trailer'):
        if n == 'Trailer':
            yield 'trailer', 'tan(trailer heading/2)', sp[0], 0, tan2(x[2])
            sp, x = sp[1:], x[3:]
        for k in range(2):
            yield 'pos%d' % k, 'position %d' % k, pose.true[k], 0, x[k]
        g = tan2(x[2])
        yield 'heading', 'tan(heading/2)', sp[1], 0, g
        if n in ('Dubins', 'Trailer'):
            yield 'speed', 'speed/(1+tan^2)', sp[0], 0, u[0] / (1 + g * g)
            yield 'rate', 'rate of tan(heading/2)', sp[1].der(), 1, u[1] * (1 + g * g) / 2
    elif n == 'Quadrotor':
        for k in range(2):
            yield 'pos%d' % k, 'position %d' % k, sp[k], 0, x[k]
            yield 'vel%d' % k, 'velocity %d' % k, sp[k].der(), 1, s['dspl'][k]
            yield 'acc%d' % k, 'acceleration %d' % k, sp[k].der(2), 2, s['ddspl'][k]
    elif n == 'SimpleQuadrotor3D':
        for k in range(3):
            yield 'pos%d' % k, 'position %d' % k, sp[k], 0, x[k]
            yield 'vel%d' % k, 'velocity %d' % k, sp[k].der(), 1, x[3 + k]
        f, ph, th = u[0], x[6], x[7]
        a = [f * ph.cos() * th.sin(), f * ph.sin() * -1, f * ph.cos() * th.cos() - R.const(981) / 100]
        for k in range(3):
            yield 'acc%d' % k, 'acceleration %d of the predicted thrust and attitude' % k, sp[k].der(2), 2, a[k]
    elif n == 'Quadrotor3D':
        p, q = tan2(x[6]), tan2(x[7])
        yield 'roll', 'tan(roll/2)', sp[1], 0, p
        yield 'pitch', 'tan(pitch/2)', sp[2], 0, q
        yield 'thrust', 'thrust/((1+tan^2)(1+tan^2))', sp[0], 0, u[0] / ((1 + p * p) * (1 + q * q))
    else:
        raise KeyError(n)


def end_of(v, s, sp, pose, free, soft, noder):
    """(name, what, curve, target value or None for rest, position?)"""
    n = type(v).__name__
    g = s['target']
    out = []
    if n in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'Quadrotor', 'SimpleQuadrotor3D', 'Tool'):
        out += [('target%d' % k, 'position %d at the target' % k, sp[k], g[k], True) for k in range(len(g))]
        for d in range(1, v.degree + (0 if n == 'Tool' else 1)):
            out += [('rest%d_%d' % (d, k), 'derivative %d of position %d zero' % (d, k), sp[k].der(d), None, False) for k in range(len(g))]
    elif n == 'HolonomicOrient':
        out += [('target%d' % k, 'position %d at the target' % k, sp[k], g[k], True) for k in range(2)]
        out.append(('heading', 'tan(heading/2) at the target', sp[2], tan2(g[2]), True))
        for d in range(1, v.degree + 1):
            out += [('rest%d_%d' % (d, k), 'derivative %d of output %d zero' % (d, k), sp[k].der(d), None, False) for k in range(3)]
    elif n in ('Dubins', 'Bicycle', 'AGV', 'Trailer'):
        if n == 'Trailer':
            out.append(('trailer', 'tan(trailer heading/2) at the target', sp[0], tan2(g[3]), True))
            sp = sp[1:]
        out += [('target%d' % k, 'position %d at the target' % k, pose.pos[k], g[k], True) for k in range(2)]
        out.append(('heading', 'tan(heading/2) at the target', sp[1], tan2(g[2]), True))
        out.append(('stop', 'speed zero', sp[0], None, False))
        out.append(('turn', 'turn rate zero', sp[1].der(), None, False))
        if n in ('Bicycle', 'AGV'):
            out.append(('acc', 'acceleration zero', sp[0].der(), None, False))
            out.append(('turnacc', 'turn acceleration zero', sp[1].der(2), None, False))
    elif n == 'Quadrotor3D':
        out += [('target%d' % k, 'position %d at the target' % k, pose.pos[k], g[k], True) for k in range(3)]
        out += [('vel%d' % k, 'velocity %d zero' % k, pose.pos[k].der(), None, False) for k in range(3)]
        out.append(('roll', 'tan(roll/2) at the target', sp[1], tan2(g[3]), False))
        out.append(('pitch', 'tan(pitch/2) at the target', sp[2], tan2(g[4]), False))
        out.append(('thrust', 'thrust balances gravity', sp[0], R.const(981) / 100, False))
    for key, what, c, val, pos in out:
        if pos and soft:
            continue
        if not pos and noder:
            continue
        yield key, what, c, val


def modes_of(built):
    """soft terminal conditions: the objective is bounded at two instants too"""
    out = list(modes(built))
    if out == ['sym'] and not built.problem.options.get('hard_term_con') and hasattr(built.problem, 'term_con_len'):
        out += [0., 0.5]
    return out


def setups(built, mode):
    sym = symbols(built.vehicles)
    for n, (facts, d) in enumerate(parameters(built, sym)):
        S = Setup(built, mode, substitution(built, d))
        S.sym, S.path, S.values = sym, n, d
        S.facts = facts
        yield S


def equal(key, what, c, T, order, ref, alts=None):
    """two claims: the value equals T^order * ref"""
    Tn = {(): 1.}
    for _ in range(order):
        Tn = fmul(Tn, T)
    for sg, nm in ((1., '+'), (-1., '-')):
        forms = []
        for r in [ref] + list(alts or ()):
            p = fadd(c, fmul(Tn, to_f(lift(r), {})), -1.)
            forms.append({m: v * sg for m, v in p.items()})
        yield key + '|' + nm, what, forms if len(forms) > 1 else forms[0]


def alternatives(S, ref):
    """values handed to the solver that are provably the same number as the reference"""
    ref = lift(ref)
    if ref.isconst or ref.op == 'v':
        return []
    if ref.id in S.alt:
        return S.alt[ref.id]
    out = []
    for val in S.values.values():
        for x in np.asarray(val, dtype=object).ravel():
            if isinstance(x, R) and not x.isconst and x.op != 'v' and x.id != ref.id:
                r = prove(S.facts, x.eq(ref) if hasattr(x, 'eq') else x == ref, timeout=5000)
                if (r[0] if isinstance(r, tuple) else r) == 'proved':
                    out.append(x)
    S.alt[ref.id] = out
    return out


def scene_claims(S):
    pb = S.b.problem
    S.alt = getattr(S, 'alt', {})
    opt = pb.options
    noder = bool(opt.get('no_term_con_der'))
    soft = not S.free and not opt.get('hard_term_con')
    for i, v in enumerate(S.b.vehicles):
        s = S.sym[v]
        n = type(v).__name__
        who = 'vehicle %d' % i
        sp = S.P.vehicle_splines(v, 0)
        T = S.Ts[0]
        at0 = lambda c: kin.eval0(c, S.u0)
        pose = S.pose(v, 0)
        for key, what, c, order, ref in start_of(v, s, sp, pose, None):
            for x in equal('v%d:start:%s' % (i, key), '%s starts at the predicted %s' % (who, what), at0(c), T, order, ref, alternatives(S, ref)):
                yield x
        if n in ('Bicycle', 'AGV'):
            for x in steering(S, i, v, s, sp, at0, T, who):
                yield x
        last = S.n - 1
        spl = S.P.vehicle_splines(v, last)
        posel = S.pose(v, last)
        if n == 'Dubins' and S.n > 1:
            posel = None        # the position of later segments: listed under C04
        for key, what, c, val in end_of(v, s, spl, posel or pose, S.free, soft or (n == 'Dubins' and S.n > 1 and False), noder):
            if posel is None and key.startswith('target'):
                continue
            ref = R.const(0) if val is None else val
            for x in equal('v%d:end:%s' % (i, key), '%s ends with %s' % (who, what), c.at(1.), {(): 1.}, 0, ref, alternatives(S, ref)):
                yield x
        for k in range(S.n - 1):
            a, b = S.P.vehicle_splines(v, k), S.P.vehicle_splines(v, k + 1)
            for j, (c1, c2) in enumerate(zip(a, b)):
                for d in range(v.degree):
                    e = c1.der(d).at(1.) if d else c1.at(1.)
                    f = c2.der(d).at(0.) if d else c2.at(0.)
                    for _ in range(d):
                        e, f = fmul(e, S.Ts[k + 1]), fmul(f, S.Ts[k])
                    for sg, nm in ((1., '+'), (-1., '-')):
                        yield 'v%d:join%d:%d_%d|%s' % (i, k, j, d, nm), '%s segments %d and %d join in derivative %d of output %d' % (who, k, k + 1, d, j), \
                            {m: x * sg for m, x in fadd(e, f, -1.).items()}
    if soft and not isinstance(S.u0, dict):
        for x in soft_claims(S):
            yield x


def steering(S, i, v, s, sp, at0, T, who):
    """tan(delta) = L thetadot / v (AGV: rear wheel); a standing vehicle: by l'Hopital"""
    x, u = s['state'], s['input']
    g = tan2(x[2])
    L = v.length if type(v).__name__ == 'Bicycle' else -v.length
    td = x[3].tan()
    moving = bool(S.moving)
    if moving:
        vt = u[0] / (1 + g * g)
        for y in equal('v%d:start:speed' % i, who + ' starts at the predicted speed', at0(sp[0]), T, 0, vt, alternatives(S, vt)):
            yield y
        ref = td * vt * (1 + g * g) * (1 + g * g) / (2 * L)
        for y in equal('v%d:start:steer' % i, who + ' starts at the predicted steering angle', at0(sp[1].der()), T, 1, ref, alternatives(S, ref)):
            yield y
    else:
        for y in equal('v%d:start:stand' % i, who + ' starts standing still', at0(sp[0]), T, 0, R.const(0)):
            yield y
        for y in equal('v%d:start:noturn' % i, who + ' starts without turning', at0(sp[1].der()), T, 0, R.const(0)):
            yield y
        # 2 L ddtg = tan(delta) (1+tg^2)^2 dv T
        w = to_f(td, {})
        gg = to_f(lift(1 + g * g), {})
        e = fmul(fmul(fmul(at0(sp[0].der()), w), fmul(gg, gg)), T)
        f = {m: c * 2 * L for m, c in at0(sp[1].der(2)).items()}
        for sg, nm in ((1., '+'), (-1., '-')):
            yield 'v%d:start:steer0|%s' % (i, nm), who + ' leaves standstill at the predicted steering angle', {m: c * sg for m, c in fadd(e, f, -1.).items()}


def soft_claims(S):
    """the objective is at least the integral of the absolute target errors over the remaining horizon (a free end: the distance from the end that is planned)"""
    free = getattr(S.b.problem, 'free_ind', None) or {}
    f = S.P.f(expr.substitute([S.M.rows()[0]], S.P.sub)[0])
    errs = []
    for i, v in enumerate(S.b.vehicles):
        for key, what, c, val in end_of(v, S.sym[v], S.P.vehicle_splines(v, 0), S.pose(v, 0), False, False, True):
            if type(v).__name__ == 'Quadrotor3D' and not key.startswith('target'):
                continue
            if key.startswith('target') and int(key[6:]) in free.get(v, ()):
                val = np.ravel(S.M.q[(S.b.problem, 'conT%d' % i)])[sorted(free[v]).index(int(key[6:]))]
                e = c - S.P.f(val)
            else:
                e = c - to_f(lift(val), {})
            I = e.integ()
            errs.append(fadd(I.at(1.), kin.eval0(I, S.u0), -1.))
    for n, sg in enumerate(itertools.product((1., -1.), repeat=len(errs))):
        if n >= 8 and n % 5:
            continue
        p = {}
        for s, e in zip(sg, errs):
            p = fadd(p, e, s)
        yield 'objective|%d' % n, 'the objective bounds the integral of the target error', fadd(p, f, -1.)


# ------------------------------------------------------------------- decisions

def all_claims(S):
    """the same claims for both cases of a standing or moving bicycle"""
    S.moving = True
    for v in S.b.vehicles:
        if type(v).__name__ in ('Bicycle', 'AGV'):
            lab = v.label
            hop = S.values[(lab, 'hop0')] if (lab, 'hop0') in S.values else None
            S.moving = S.path == 0 if hop is None else not bool(np.ravel(np.asarray(hop, dtype=object))[0])
    return scene_claims(S)


def task_scene(t, name, part=0, parts=1):
    built = SC[name]()
    found = set()
    ok = False
    for mode in modes_of(built):
        for S in setups(built, mode):
            S.moving = S.path == 0
            if part == 0 and not ok:
                ok = reachable(None, S, name, small(S))
            eng = S.P.engine(box=1e3, tol=1e-6)
            n = -1
            for key, what, c in all_claims(S):
                n += 1
                if n % parts == part:
                    key = '%s|p%d' % (key, S.path) if '|' in key else key
                    decide(t, S, eng, name, mode, key, '%s[%s]: %s' % (name, mode, what), c, found)
            if n < 0:
                t.unknown(name + ': no claims')
    if part == 0:
        t.reach(ok, name + ': rows of the problem satisfiable')


def small(S, more=()):
    """predictions and targets near zero (a quadrotor hovers)"""
    box = box_of(S)
    for n in expr.topo([lift(x) for x in list(S.P.g) + list(more)]):
        if n.op == 'v' and n.args[0][:2] in ('st', 'in', 'tg', 'ds', 'dd', 'di'):
            box[n.args[0]] = (-0.5, 0.5)
    for i, s in enumerate(S.b.vehicles):
        if type(s).__name__ in ('Bicycle', 'AGV'):
            box['in%d_[0]' % i] = (0.05, 0.5) if S.moving else (-0.5, 0.)
        if type(s).__name__ == 'Tool':
            for n in [n for n in box if n[:2] in ('st', 'tg')]:
                box[n] = (-3., 3.)
        if type(s).__name__ in ('Quadrotor3D', 'SimpleQuadrotor3D'):
            box['in%d_[0]' % i] = (9., 10.5)
            for k in (6, 7):
                box['st%d_[%d]' % (i, k)] = (-0.1, 0.1)
    return box


def decide(t, S, eng, name, mode, key, what, c, found):
    forms = c if isinstance(c, list) else [c]
    for f in forms:
        if eng.claim(f) == 'proved':
            t.ok(what)
            return
    k = '%s:%s' % (name, key.split('|')[0])
    if k in found:
        return
    f = forms[0]
    goal = term(f)
    sc = max([abs(x) for x in f.values()] + [1e-9])
    good = 2e-3 * min(sc, 1.)
    box = small(S, [goal])
    for starts, iters in ((2, 150), (4, 300)):
        v, pt = conc.search(list(S.P.g), S.P.lb, S.P.ub, goal, box, starts=starts, good=good, iters=iters)
        if v is not None and v > good:
            found.add(k)
            x, ps = vectors(S, pt)
            return t.counterexample(k, what, dict(kind='claim', scene=name, mode=mode, key=key, x=x, p=ps, value=v, path=S.path,
                                                  extra={n: a for n, a in pt.items() if n[0] not in 'xp'}))
    t.unknown('%s: not implied by the rows, and no violating trajectory found' % what)


def replay_claim(case):
    """numbers through the real set_parameters, then the rows of the real problem and the claim"""
    built = SC[case['scene']]()
    ex = case['extra']
    vs = built.vehicles
    sym = symbols(vs)
    num = {v: {k: np.array([ex.get(str(x.args[0]), 0.) for x in a]) for k, a in s.items()} for v, s in sym.items()}
    impose(vs, num)
    built.problem.father.set_parameters(0.)
    p = np.array(built.problem.father._par_result.cat).ravel()
    S = next(s for s in setups(built, case['mode']) if s.path == case['path'])
    given = np.array(case['p'])
    own = [i for k, ix in S.M.pix.items() for i in ix.ravel() if k[0] is built.problem]      # time and horizon
    given_own = given.copy()
    mism = [i for i in range(len(p)) if i not in own and abs(p[i] - given[i]) > 1e-6]
    veh = {i for k, ix in S.M.pix.items() for i in ix.ravel() if k[0] in vs or any(k[0] is getattr(v, 'lead_veh', None) for v in vs)}
    for i in veh:
        given_own[i] = p[i]
    ok, worst = feasible(built, case['x'], given_own)
    if not ok:
        return None, 'rows violated by %.2e (parameters differ at %s)' % (worst, mism[:4])
    env_ = {n: v for n, v in ex.items()}
    for v, a in zip(S.M.X, case['x']):
        env_[v.args[0]] = a
    for v, a in zip(S.M.P, given_own):
        env_[v.args[0]] = a
    for key, what, c in all_claims(S):
        key = '%s|p%d' % (key, S.path) if '|' in key else key
        if key != case['key']:
            continue
        f = c[0] if isinstance(c, list) else c
        atoms = {a for m in f for a in m}
        vals = {a: float(expr.evaluate([expr.Poly.atoms.get(a)], env_)[0]) if a in expr.Poly.atoms else None for a in atoms}
        byid = {x.id: x for x in list(S.M.X) + list(S.M.P)}
        for a in atoms:
            if vals[a] is None:
                vals[a] = env_[byid[a].args[0]]
        val = rows.feval(f, vals)
        if val > 1e-4:
            return False, 'all rows of the problem hold (worst %.1e), yet "%s" is off by %.5g' % (worst, what, val)
        return True, 'value %.3g' % val
    return None, 'no claim ' + case['key']
