"""C06: rows of the problem imply the configured limits of the vehicle, for the physical motion at every instant."""
import math
import numpy as np
from .. import kin, scen, claims, rows
from ..expr import R
from ..rows import FPW, cst
from ..fpoly import fmul, fadd
from ..scen import p2p, Circle, Square, Rectangle, Sphere, Cuboid
from ..solver import check

INFO = dict(
    explanation='The NLP that reaches the solver is captured and turned into polynomial rows.  Claim per configured limit (given to the vehicle '
                'by the check, asymmetric numbers): the physical quantity of the model (derivative with respect to time: divided by powers of the horizon '
                'time), written from the model equations, is within the limit at every instant.  Each Bernstein coefficient is decided by z3 over the rows; '
                'a refuted claim becomes a trajectory that satisfies every row of the real problem and breaks the limit.',
    bounds=['knot intervals 2-4', 'every value of decision variables and parameters, horizon 8 or free', 'one set of asymmetric limits per scenario', '1-2 segments, 1-2 vehicles'],
    outside=['SimpleQuadrotor3D is a small-angle model: its roll and pitch rates are the rates of the tangents (a lemma ties them to the true rates for the '
             'default limits)', 'G-code tool: a single velocity limit applies to x and y (as the code documents)', 'G-code tool: end coefficients that the code leaves free on purpose (first coefficient of the first, last of the last segment)'],
    stubs=['the NLP solver (recorder)'])

H = 8.
HB = dict(vxmin=-0.4, vxmax=0.6, vymin=-0.7, vymax=0.3, axmin=-1.1, axmax=0.8, aymin=-0.9, aymax=1.3)
B1 = dict(vmin=-0.4, vmax=0.6, amin=-0.9, amax=0.7)
OB = dict(B1, wmin=-0.4, wmax=0.7)
DB = dict(vmax=0.6, wmin=-0.4, wmax=0.7)
CB = dict(vmax=0.6, amax=0.7, dmin=-0.4, dmax=0.5, ddmin=-0.6, ddmax=0.8)
QB = dict(u1min=3., u1max=14., u2min=-5., u2max=6.)
Q3 = dict(u1min=3., u1max=14., u2min=-1.5, u2max=1.8, u3min=-1.7, u3max=1.4, phimin=-0.4, phimax=0.5, thetamin=-0.3, thetamax=0.45)
TB = dict(vxmin=-0.4, vxmax=0.6, vymin=-0.7, vymax=0.3, vzmin=-0.2, vzmax=0.25, axmin=-1.1, axmax=0.8, aymin=-0.9, aymax=1.3, azmin=-0.5, azmax=0.6,
          jxmin=-2.1, jxmax=1.8, jymin=-1.9, jymax=2.3, jzmin=-1.5, jzmax=1.6)
TM = dict(vmin=-0.4, vmax=0.5, amin=-1.2, amax=1., jmin=-30., jmax=28.)
PROG = ['G01 X1 Y0 Z0', 'G01 X1 Y1 Z0', 'G01 X2 Y2 Z0']

SC = {
    'holo': (lambda: p2p('Holonomic', knots=4, popts={'horizon_time': H}, vkw=dict(bounds=HB)), HB),
    'holo_single': (lambda: p2p('Holonomic', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=B1)), B1),
    'holo_freeT': (lambda: p2p('Holonomic', freeT=True, knots=3, vkw=dict(bounds=HB)), HB),
    'holo_norm2': (lambda: p2p('Holonomic', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=B1), vopts={'syslimit': 'norm_2'}), dict(vn=0.6, an=0.7)),
    'holo_norm2_freeT': (lambda: p2p('Holonomic', freeT=True, knots=2, vkw=dict(bounds=B1), vopts={'syslimit': 'norm_2'}), dict(vn=0.6, an=0.7)),
    'holo_default': (lambda: p2p('Holonomic', knots=2, popts={'horizon_time': H}), dict(vmin=-0.5, vmax=0.5, amin=-1., amax=1.)),
    'holo1d': (lambda: p2p('Holonomic1D', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=B1), room={'shape': Rectangle(6., 4.)}), B1),
    'holo1d_freeT': (lambda: p2p('Holonomic1D', freeT=True, knots=3, vkw=dict(bounds=B1), room={'shape': Rectangle(6., 4.)}), B1),
    'holo3d': (lambda: p2p('Holonomic3D', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=B1)), B1),
    'holo3d_freeT': (lambda: p2p('Holonomic3D', freeT=True, knots=2, vkw=dict(bounds=B1)), B1),
    'holo3d_norm2': (lambda: p2p('Holonomic3D', freeT=True, knots=2, vkw=dict(bounds=B1), vopts={'syslimit': 'norm_2'}), dict(vn=0.6, an=0.7)),
    'orient': (lambda: p2p('HolonomicOrient', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=OB)), OB),
    'orient_freeT': (lambda: p2p('HolonomicOrient', freeT=True, knots=2, vkw=dict(bounds=OB)), OB),
    'orient_norm2': (lambda: p2p('HolonomicOrient', freeT=True, knots=2, vkw=dict(bounds=OB), vopts={'syslimit': 'norm_2'}), dict(vn=0.6, an=0.7, wmin=-0.4, wmax=0.7)),
    'orient_reg': (lambda: p2p('HolonomicOrient', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=OB), vopts={'reg_type': 'norm_1', 'reg_weight': 2.}), OB),
    'dubins': (lambda: p2p('Dubins', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=DB)), DB),
    'dubins_freeT': (lambda: p2p('Dubins', freeT=True, knots=2, vkw=dict(bounds=DB)), DB),
    'dubins_subst': (lambda: p2p('Dubins', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=DB), vopts={'degree': 2, 'substitution': True, 'exact_substitution': True}), DB),
    'dubins_acc': (lambda: p2p('Dubins', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=dict(amax=0.2))), dict(amax=0.2)),
    'bicycle': (lambda: p2p('Bicycle', freeT=True, knots=2, vkw=dict(bounds=CB, length=0.5)), CB),
    'bicycle_fixed': (lambda: p2p('Bicycle', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=CB, length=0.5)), CB),
    'agv': (lambda: p2p('AGV', freeT=True, knots=2, vkw=dict(bounds=CB, length=0.5)), CB),
    'agv_fixed': (lambda: p2p('AGV', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=CB, length=0.5)), CB),
    'quadrotor': (lambda: p2p('Quadrotor', knots=3, popts={'horizon_time': H}, vkw=dict(bounds=QB)), QB),
    'quadrotor_freeT': (lambda: p2p('Quadrotor', freeT=True, knots=2, vkw=dict(bounds=QB)), QB),
    'quad3d': (lambda: p2p('Quadrotor3D', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=Q3), vopts={'substitution': True, 'exact_substitution': True}), Q3),
    'simplequad': (lambda: p2p('SimpleQuadrotor3D', knots=2, popts={'horizon_time': H}, vkw=dict(bounds=Q3)), Q3),
    'simplequad_freeT': (lambda: p2p('SimpleQuadrotor3D', freeT=True, knots=2, vkw=dict(bounds=Q3)), Q3),
    'trailer': (lambda: p2p('Trailer', freeT=True, knots=2, vkw=dict(bounds=dict(tmin=-0.6, tmax=0.9))), dict(tmin=-0.6, tmax=0.9, vmax=0.5, wmin=-math.pi / 6, wmax=math.pi / 6)),
    'two': (lambda: p2p(['Holonomic', 'Holonomic'], knots=2, popts={'horizon_time': H}, vkw=[dict(bounds=HB), dict(bounds=B1)]), [HB, B1]),
    'multi': (lambda: scen.multi('Holonomic', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                 knots=2, vkw=dict(bounds=HB)), HB),
    'multi_orient': (lambda: scen.multi('HolonomicOrient', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                        knots=2, vkw=dict(bounds=OB)), OB),
    'multi_dubins': (lambda: scen.multi('Dubins', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                        knots=2, vkw=dict(bounds=DB)), DB),
    'tool_axes': (lambda: scen.gcode(PROG, bounds=TB, vopts={'vel_limit': 'axes'}), TB),
    'tool_machining': (lambda: scen.gcode(PROG, bounds=TB), dict(TB, machining=1)),
    'tool_single': (lambda: scen.gcode(PROG, bounds=TM, vopts={'vel_limit': 'axes'}), dict(TM, vzmin=None, vzmax=None)),
    'tool_z': (lambda: scen.gcode(['G01 X0 Y0 Z-1', 'G01 X0 Y0 Z-2'], bounds=dict(TB, vxmax=0.)), dict(TB, machining=1, vxmax=0.)),
    'tool_one': (lambda: scen.gcode(PROG, bounds=TB, vopts={'vel_limit': 'axes'}, n_segments=1), TB),
}
QUICK = list(SC)
HEAVY = {'agv': 3, 'bicycle': 3, 'agv_fixed': 3, 'bicycle_fixed': 3, 'simplequad_freeT': 2}


def tasks(tier, seed):
    ts = claims.tasks_of(QUICK if tier == 'quick' else SC, HEAVY)
    return ts + [('smallangle', ('smallangle',))]


def pw(T, n):
    r = {(): 1.}
    for _ in range(n):
        r = fmul(r, T)
    return r


def sc(p, c):
    return {m: v * c for m, v in p.items()}


def axis(s, T, nm, b, order, lo, hi):
    """physical derivative of the given order of one coordinate within [lo, hi]"""
    d = s.der(order)
    Tn = pw(T, order)
    what = {1: 'velocity', 2: 'acceleration', 3: 'jerk'}[order]
    if hi is not None:
        yield '%s%dmax' % (nm, order), '%s %s <= %g' % (nm, what, hi), d - sc(Tn, hi)
    if lo is not None:
        yield '%s%dmin' % (nm, order), '%s %s >= %g' % (nm, what, lo), -d + sc(Tn, lo)


def limits(v, S, b, T, seg):
    """(key, what, curve<=0) of one vehicle; S: its splines; b: the limits this check configured"""
    n = type(v).__name__
    g = b.get
    if n in ('Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient', 'Tool'):
        names = 'x' if n == 'Holonomic1D' else 'xyz' if n in ('Holonomic3D', 'Tool') else 'xy'
        if 'vn' in b:
            for o, lim, what in ((1, b['vn'], 'speed'), (2, b['an'], 'total acceleration')):
                c = sum([S[k].der(o) ** 2 for k in range(1, len(names))], S[0].der(o) ** 2)
                yield 'norm%d' % o, '%s <= %g' % (what, lim), c - sc(pw(T, 2 * o), lim * lim)
        else:
            for k, nm in enumerate(names):
                for o, q in ((1, 'v'), (2, 'a'), (3, 'j')):
                    if o == 3 and n != 'Tool':
                        continue
                    if o == 1 and g('machining'):
                        continue
                    lo = b[q + nm + 'min'] if q + nm + 'min' in b else g(q + 'min')
                    hi = b[q + nm + 'max'] if q + nm + 'max' in b else g(q + 'max')
                    for x in axis(S[k], T, nm, b, o, lo, hi):
                        yield x
            if g('machining'):
                if b['vxmax']:
                    yield 'feed', 'speed in the xy plane <= %g' % b['vxmax'], S[0].der() ** 2 + S[1].der() ** 2 - sc(pw(T, 2), b['vxmax'] ** 2)
                else:
                    yield 'feed', 'speed along z <= %g' % b['vzmax'], S[2].der() ** 2 - sc(pw(T, 2), b['vzmax'] ** 2)
        if n == 'HolonomicOrient':
            for x in turn(S[2], T, b):
                yield x
    elif n in ('Dubins', 'Bicycle', 'AGV', 'Trailer'):
        if n == 'Trailer':
            tt, vt, tg = S
            # tan((thv-tht)/2) = (tg-tt)/(1+tg*tt); the hinge angle is less than pi/2 while 1+tg*tt > 0
            for s, lim, nm in ((1., b['tmax'], 'max'), (-1., b['tmin'], 'min')):
                yield 'hinge' + nm, 'hinge angle %s %g' % ('<=' if s > 0 else '>=', lim), (tg - tt) * s - (tg * tt + 1.) * (s * math.tan(lim / 2))
        else:
            vt, tg = S
        w = tg * tg + 1.
        if 'vmax' in b:
            yield 'vmax', 'speed <= %g' % b['vmax'], vt * w - b['vmax']
            yield 'vmin', 'speed >= 0', -vt
        if 'amax' in b:
            yield 'amax', 'acceleration <= %g' % b['amax'], (vt * w).der() - sc(T, b['amax'])
        if 'wmax' in b:
            for x in turn(tg, T, b):
                yield x
        if 'dmax' in b:
            # tan(delta) = L * thetadot / v (bicycle: front wheel, AGV: rear wheel steers the other way)
            s = 1. if n == 'Bicycle' else -1.
            N = tg.der() * (2. * v.length * s)
            D = vt * w * w
            yield 'steermax', 'steering angle <= %g' % b['dmax'], N - D * sc(T, math.tan(b['dmax']))
            yield 'steermin', 'steering angle >= %g' % b['dmin'], -N + D * sc(T, math.tan(b['dmin']))
            rate = N.der() * D - N * D.der()
            den = N * N + D * D * pw(T, 2)
            yield 'ratemax', 'steering rate <= %g' % b['ddmax'], rate - den * b['ddmax']
            yield 'ratemin', 'steering rate >= %g' % b['ddmin'], -rate + den * b['ddmin']
    elif n == 'Quadrotor':
        gT = sc(pw(T, 2), 9.81)
        ax, ay = S[0].der(2), S[1].der(2) + gT
        u1 = ax * ax + ay * ay
        yield 'u1max', 'thrust <= %g' % b['u1max'], u1 - sc(pw(T, 4), b['u1max'] ** 2)
        yield 'u1min', 'thrust >= %g' % b['u1min'], -u1 + sc(pw(T, 4), b['u1min'] ** 2)
        rate = ax.der() * ay - ax * ay.der()
        yield 'u2max', 'pitch rate <= %g' % b['u2max'], rate - u1 * sc(T, b['u2max'])
        yield 'u2min', 'pitch rate >= %g' % b['u2min'], -rate + u1 * sc(T, b['u2min'])
    elif n == 'Quadrotor3D':
        f, p, q = S
        th = f * (p * p + 1.) * (q * q + 1.)
        yield 'u1max', 'thrust <= %g' % b['u1max'], th - b['u1max']
        yield 'u1min', 'thrust >= %g' % b['u1min'], -th + b['u1min']
        for a, nm, ang, lo, hi, rl, rh in ((p, 'roll', 'phi', b['phimin'], b['phimax'], b['u2min'], b['u2max']),
                                           (q, 'pitch', 'theta', b['thetamin'], b['thetamax'], b['u3min'], b['u3max'])):
            yield nm + 'max', '%s <= %g' % (nm, hi), a - math.tan(hi / 2)
            yield nm + 'min', '%s >= %g' % (nm, lo), -a + math.tan(lo / 2)
            for x in turn(a, T, dict(wmin=rl, wmax=rh), nm):
                yield x
    elif n == 'SimpleQuadrotor3D':
        gT = sc(pw(T, 2), 9.81)
        ax, ay, az = S[0].der(2), S[1].der(2), S[2].der(2) + gT
        u1 = ax * ax + ay * ay + az * az
        yield 'u1max', 'thrust <= %g' % b['u1max'], u1 - sc(pw(T, 4), b['u1max'] ** 2)
        yield 'u1min', 'thrust >= %g' % b['u1min'], -u1 + sc(pw(T, 4), b['u1min'] ** 2)
        yield 'up', 'thrust points up', -az
        for s, nm, lo, hi, rl, rh in ((-ay, 'roll', b['phimin'], b['phimax'], b['u2min'], b['u2max']),
                                      (ax, 'pitch', b['thetamin'], b['thetamax'], b['u3min'], b['u3max'])):
            # tan(pitch) = ax/az; tan(roll) = -ay/sqrt(ax^2+az^2), so -ay <= tan(hi)*az suffices and is exact for ax=0
            yield nm + 'max', '%s <= %g' % (nm, hi), s - az * math.tan(hi)
            yield nm + 'min', '%s >= %g' % (nm, lo), -s + az * math.tan(lo)
            rate = s.der() * az - s * az.der()
            yield nm + 'ratemax', 'rate of tan(%s) <= %g (small-angle model)' % (nm, rh), rate - az * az * sc(T, rh)
            yield nm + 'ratemin', 'rate of tan(%s) >= %g (small-angle model)' % (nm, rl), -rate + az * az * sc(T, rl)
    else:
        raise KeyError(n)


def turn(tg, T, b, nm='turn'):
    """theta = 2 atan(tg)"""
    w = tg * tg + 1.
    yield nm + 'ratemax', '%s rate <= %g' % (nm, b['wmax']), tg.der() * 2. - w * sc(T, b['wmax'])
    yield nm + 'ratemin', '%s rate >= %g' % (nm, b['wmin']), tg.der() * -2. + w * sc(T, b['wmin'])


def scene_claims(S):
    lim = S.limits
    for k in range(S.n):
        T = S.Ts[k]
        for iv, v in enumerate(S.b.vehicles):
            b = lim[iv] if isinstance(lim, list) else lim
            sp = S.P.vehicle_splines(v, k)
            for key, what, c in limits(v, sp, b, T, k):
                if type(v).__name__ == 'Tool':
                    c = ends(c, key, k, S.n)
                yield 'v%d:%s@seg%d' % (iv, key, k), 'vehicle %d%s: %s' % (iv, ' segment %d' % k if S.n > 1 else '', what), c


def ends(c, key, k, n):
    """velocity and acceleration of the tool: the bound is not imposed at the very start of the first segment and the very end
    of the last one, where the motion is fixed by the initial and terminal conditions; outside the first and last piece"""
    if key[1:2] == '3':
        return c
    ps = list(c.p)
    if k == 0:
        ps = ps[1:]
    elif k == n - 1:
        ps = ps[:-1]
    return FPW(ps)


class Bound(object):
    pass


def _sc(name):
    def build():
        b = SC[name][0]()
        b.limits = SC[name][1]
        return b
    return build


SCENES = {n: _sc(n) for n in SC}


def _claims(S):
    S.limits = S.b.limits
    return scene_claims(S)


REL = {n: 1e-7 for n in HEAVY}      # steering: products of degree 20
task_scene = claims.scene_task(SCENES, _claims, rel=REL)
replay_claim = claims.replayer(SCENES, _claims)


def task_smallangle(t):
    """default limits: bounds on p=-ddy/az, q=ddx/az and their rates imply the bound on the true roll and pitch rates
    (roll = atan(p/sqrt(1+q^2)), pitch = atan(q)); z3 over all values"""
    p, q, pd, qd, s = (R.var(x) for x in ('p', 'q', 'pd', 'qd', 's'))
    a, u = math.pi / 6, 2.
    facts = [p <= a, p >= -a, q <= a, q >= -a, pd <= u, pd >= -u, qd <= u, qd >= -u, s >= 1, s * s - 1 - q * q <= 0, s * s - 1 - q * q >= 0]
    # rolldot = (pd*s^2 - p*q*qd) / (s*(s^2+p^2))
    for sg, nm in ((1, '<='), (-1, '>=')):
        r, _ = check(facts + [sg * (pd * s * s - p * q * qd) > u * s * (s * s + p * p)], 60000)
        if r == 'unsat':
            t.ok('default limits: true roll rate %s %g' % (nm, sg * u))
        else:
            t.unknown('small-angle lemma for roll: ' + r)
        r, _ = check(facts + [sg * qd > u * (1 + q * q)], 60000)
        if r == 'unsat':
            t.ok('default limits: true pitch rate %s %g' % (nm, sg * u))
        else:
            t.unknown('small-angle lemma for pitch: ' + r)
