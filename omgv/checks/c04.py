"""C04: rows of the problem imply that bodies stay clear of obstacles and of each other over the whole horizon."""
import numpy as np
import casadi as cas
from .. import env, expr, casx, decl, scen, rows, kin, conc, fpoly
from ..expr import R, lift
from ..rows import Prob, FPW, cst, fadd, fmul, feval
from ..fpoly import to_f
from ..scen import p2p, Circle, Square, Rectangle, Sphere, Cuboid, Polyhedron, RegularPolyhedron, Obstacle
from ..solver import prove, check, STATS
from omgtools.basics.shape import Beam, RegularPrisma, Plate

INFO = dict(
    explanation='The NLP that reaches the solver is captured and turned into polynomial rows.  Claims: with the separating line (a,b) that the '
                'environment declares, |a|<=1, every point of the moving body is on one side and every point of the obstacle (at the place '
                'its position, velocity and acceleration predict) on the other, at every instant of the horizon.  Each claim is a Bernstein '
                'coefficient of a polynomial in decision variables, parameters, time and obstacle motion; z3 decides that the rows imply it. '
                'If no declared line works, a colliding trajectory that satisfies every row is searched and shown.',
    bounds=['knot intervals 2-4', 'every value of decision variables, obstacle position/velocity/acceleration, time within the first knot interval '
            '(holonomic, quadrotor) or at its start and middle (models with integrated position)', '1-3 obstacles, 1-3 vehicles, 1-3 segments',
            'fixed horizon 8, free end time: any T'],
    outside=['Quadrotor3D (position is a double integral of degree 8: the claims take over 800 s)', 'rotating obstacles (the code approximates the rotation; see C10)', 'the lead vehicle of a trailer', 'IPOPT feasibility tolerance: claims are '
             'decided for rows satisfied to 1e-6'],
    stubs=['the NLP solver (recorder)'])

H = 8.


def wall(x=0.):
    return Polyhedron(np.array([[-0.3, 0.4, 0.1], [-0.2, -0.3, 0.5]]))


SC = {
    'holo_circle': lambda: p2p('Holonomic', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4)),
                                                       lambda: Obstacle({'position': [2., 0.5]}, shape=Rectangle(0.6, 0.3))], knots=3, popts={'horizon_time': H}),
    'holo_square': lambda: p2p('Holonomic', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=wall())], knots=3, popts={'horizon_time': H},
                               shapes=[lambda: Rectangle(0.4, 0.2)], vopts={'safety_distance': 0.1}),
    'holo_beam': lambda: p2p('Holonomic', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Beam(1.2, 0.2, 0.4))], knots=2,
                             popts={'horizon_time': H}, shapes=[lambda: RegularPolyhedron(0.3, 5)]),
    'holo_freeT': lambda: p2p('Holonomic', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Square(0.4))], knots=3),
    'holo_traj': lambda: p2p('Holonomic', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4),
                             options={'spline_traj': True, 'spline_params': {'knots': [0, 0, 0, 0.5, 1, 1, 1], 'degree': 2,
                                                                             'coeffs': np.array([[0., .5], [.3, .5], [.4, .2], [.1, .1]])}})], knots=2, popts={'horizon_time': H}),
    'orient': lambda: p2p('HolonomicOrient', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Rectangle(0.5, 0.3))], knots=2, popts={'horizon_time': H}),
    'orient_freeT': lambda: p2p('HolonomicOrient', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.3))], knots=2),
    'dubins': lambda: p2p('Dubins', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.3))], knots=2, popts={'horizon_time': H}, vopts={'degree': 2}),
    'dubins_rect': lambda: p2p('Dubins', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Square(0.3))], knots=2, vopts={'degree': 2},
                               shapes=[lambda: Rectangle(0.4, 0.2)]),
    'bicycle': lambda: p2p('Bicycle', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Square(0.3))], knots=2),
    'agv': lambda: p2p('AGV', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Square(0.3))], knots=2),
    'quadrotor': lambda: p2p('Quadrotor', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Rectangle(0.8, 0.2))], knots=2, popts={'horizon_time': H}),
    'trailer': lambda: p2p('Trailer', freeT=True, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Square(0.3))], knots=2,
                           shapes=[lambda: Rectangle(0.3, 0.2)]),
    'holo3d': lambda: p2p('Holonomic3D', obstacles=[lambda: Obstacle({'position': [0., 0.5, 0.]}, shape=Sphere(0.3)),
                                                    lambda: Obstacle({'position': [1., 0.5, 0.]}, shape=Cuboid(0.6, 0.5, 0.4)),
                                                    lambda: Obstacle({'position': [1., 0.5]}, shape=Circle(0.2))], knots=2, popts={'horizon_time': H}),
    'holo3d_box': lambda: p2p('Holonomic3D', freeT=True, obstacles=[lambda: Obstacle({'position': [1., 0.5]}, shape=Rectangle(0.6, 0.5))], knots=2,
                              shapes=[lambda: Cuboid(0.3, 0.2, 0.1)]),
    'simplequad': lambda: p2p('SimpleQuadrotor3D', obstacles=[lambda: Obstacle({'position': [0., 0.5, 0.]}, shape=Cuboid(0.6, 0.5, 0.4))], knots=2, popts={'horizon_time': H}),
    'two': lambda: p2p(['Holonomic', 'Holonomic'], obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4))], knots=2,
                       popts={'horizon_time': H, 'inter_vehicle_avoidance': True}, shapes=[lambda: Circle(0.15), lambda: Rectangle(0.3, 0.2)]),
    'three': lambda: p2p(['Holonomic', 'Holonomic', 'Holonomic'], knots=2, popts={'horizon_time': H, 'inter_vehicle_avoidance': True},
                         shapes=[lambda: Circle(0.15), lambda: Circle(0.25), lambda: Rectangle(0.3, 0.2)], vopts={'safety_distance': 0.05}),
    'dubins_subst': lambda: p2p('Dubins', obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.3))], knots=2, popts={'horizon_time': H},
                                vopts={'degree': 2, 'substitution': True, 'exact_substitution': True}),
    'turned': lambda: p2p('Holonomic', obstacles=[lambda: Obstacle({'position': [0., 0.5], 'orientation': [0.6]}, shape=Rectangle(0.8, 0.2)),
                                                  lambda: Obstacle({'position': [1., 0.5]}, shape=RegularPolyhedron(0.3, 5, 0.4))], knots=2, popts={'horizon_time': H}),
    'prisma': lambda: p2p('Holonomic3D', obstacles=[lambda: Obstacle({'position': [0., 0.5, 0.]}, shape=RegularPrisma(0.3, 0.6, 5))], knots=2,
                          popts={'horizon_time': H}, shapes=[lambda: Plate(Rectangle(0.3, 0.2), 0.1)]),
    # Quadrotor3D is left out: its position is a double integral of degree 8 and the claims take more than 800 s
    'multi': lambda: scen.multi('Holonomic', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                knots=2, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4)), lambda: Obstacle({'position': [0., -0.5]}, shape=Square(0.4))]),
    'multi_fill': lambda: scen.multi('Holonomic', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                     knots=2, per_room={0: [0], 1: [1]}, shapes=[lambda: Rectangle(0.3, 0.2)],
                                     obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4)), lambda: Obstacle({'position': [0., -0.5]}, shape=Square(0.4))]),
    'multi_two': lambda: scen.multi(['Holonomic', 'Holonomic'], [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                    knots=2, popts={'inter_vehicle_avoidance': True}),
    'multi_dubins': lambda: scen.multi('Dubins', [lambda: {'shape': Rectangle(3., 4.), 'position': [-1., 0.]}, lambda: {'shape': Rectangle(4., 3.), 'position': [1., 0.5]}],
                                       knots=2, obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4))]),
    'two_orient': lambda: p2p(['HolonomicOrient', 'Holonomic'], freeT=True, knots=2, popts={'inter_vehicle_avoidance': True}),
}
QUICK = ['holo_circle', 'holo_square', 'holo_freeT', 'holo_traj', 'orient', 'dubins', 'quadrotor', 'holo3d', 'two', 'three', 'holo_beam', 'dubins_rect',
         'bicycle', 'agv', 'trailer', 'holo3d_box', 'simplequad', 'two_orient', 'orient_freeT', 'turned', 'prisma', 'multi', 'multi_fill', 'multi_two',
         'dubins_subst', 'multi_dubins']


def tasks(tier, seed):
    ts = [('separation', ('lemma',))]
    ts += [('scene:' + n, ('scene', n)) for n in (QUICK if tier == 'quick' else SC)]
    return ts


# ------------------------------------------------------------------ set-up shared with C05

class Setup(object):
    def __init__(self, built, mode, extra=None):
        """extra(M): further {term: value} of the parameter vector; mode 'sym': time symbolic within the first knot interval (fixed horizon); number: fraction of the knot interval;
        'free': free end time, one or more segments"""
        pb = built.problem
        self.b = built
        M = built.model()
        self.M = M
        fix, facts = {}, []
        names = ['T'] if (pb, 'T') in M.ix else ['T%d' % k for k in range(50) if (pb, 'T%d' % k) in M.ix]
        self.Tv = [M.q[(pb, n)].ravel()[0] for n in names]
        self.free = bool(names)
        t = M.q[(pb, 't')].ravel()[0]
        if self.free:
            fix[t] = 0.
            u0 = 0.
            facts = [T >= 0.001 for T in self.Tv]
        else:
            T = M.q[(pb, 'T')].ravel()[0]
            Tn = pb.options['horizon_time']
            fix[T] = Tn
            kt = pb.knot_time
            if mode == 'sym':
                facts = [t >= 0, t < kt]
                self.tn = t
                u0 = {m: c / Tn for m, c in to_f(t, {}).items()}
                self.trange = (0., kt * 0.999)
            else:
                fix[t] = mode * kt
                u0 = mode * kt / Tn
        if extra:
            fix.update({k: v for k, v in extra(M).items() if k not in fix})
        self.P = Prob(built, fix, facts)
        self.Ts = [self.P.f(T) for T in self.Tv] if self.free else [cst(Tn)]
        self.n = len(self.Ts)
        self.u0 = u0
        self._pose = {}

    def seg(self, k):
        """(length, first parameter value) of segment k, and the time before it"""
        pre = {}
        for T in self.Ts[:k]:
            pre = fadd(pre, T)
        return self.Ts[k], (self.u0 if k == 0 else 0.), pre

    def pose(self, veh, k=0):
        if (veh, k) not in self._pose:
            T, u0, _ = self.seg(k)
            start = None
            if k and type(veh).__name__ in ('Dubins', 'Bicycle', 'AGV'):
                start = [c.at(1.) for c in self.pose(veh, k - 1).pos]
            self._pose[(veh, k)] = kin.pose(self.P, veh, T, u0, seg=k, start=start)
        return self._pose[(veh, k)]


def modes(built):
    pb = built.problem
    if type(pb).__name__.startswith('FreeT'):
        return ['free']
    if any(type(v).__name__ in ('Dubins', 'Bicycle', 'AGV', 'Trailer', 'Quadrotor3D') for v in built.vehicles):
        return [0., 0.5]
    return ['sym']


def obs_path(S, i, o, k=0):
    if o.options.get('spline_traj'):
        sp = o.options['spline_params']
        return [FPW.spline(sp['knots'], sp['degree'], [cst(float(c)) for c in np.asarray(sp['coeffs'])[:, k]]) for k in range(o.n_dim)]
    T, u0, pre = S.seg(k)
    return kin.obstacle_path(i, o.n_dim, T, u0, pre=pre)


def obs_shape(o):
    """hull points and radius, turned by the obstacle's (fixed) orientation"""
    pts, r = kin.shape(o.shape)
    th = float(np.ravel(o.signals['orientation'])[-1]) if o.n_dim == 2 and 'orientation' in o.signals else 0.
    if th:
        c, d = np.cos(th), np.sin(th)
        pts = [(c * x - d * y, d * x + c * y) for x, y in pts]
    return pts, r


def lines(S):
    """declared candidates for separating lines: (a curves, b curve)"""
    M = S.M
    sp = [k for k in M.log.order if k in M.log.basis and k in M.ix and k[0] not in S.b.vehicles]
    As = [k for k in sp if M.q[k].shape[1] in (2, 3)]
    Bs = [k for k in sp if M.q[k].shape[1] == 1]
    used = set()
    for i, a in enumerate(As):
        ba = M.log.basis[a]
        later = [b for b in Bs if M.log.basis[b].degree == ba.degree and len(M.log.basis[b]) == len(ba)]
        later.sort(key=lambda b: abs(M.log.order.index(b) - M.log.order.index(a) - 0.5))
        for b in later[:2]:
            yield a, b


def sides(S, ps, pts, rad, a, b, sign):
    """curves that must be <= 0: sign*(a.p - b) + rad, p every point of the body"""
    out = []
    for pt in pts:
        X, w = kin.body(ps, pt)
        e = sum([ai * x for ai, x in zip(a, X)][1:], a[0] * X[0])
        c = (e - (b if w is None else b * w)) * sign
        r = rad + ps.margin
        out.append(c + r if w is None else c + w * r)
    return out


def clear(t, S, eng, name, what, P1, sh1, P2, sh2, memo):
    """try the declared lines; P1/P2: Pose"""
    pts1, r1 = sh1
    pts2, r2 = sh2
    cands = list(lines(S))
    first = None
    for key in cands:
        for sign in (1., -1.):
            if key not in memo:
                a = S.P.spline(*key[0])
                b = S.P.spline(*key[1])[0]
                n2 = sum([x * x for x in a][1:], a[0] * a[0])
                memo[key] = (a, b, eng.all(n2 - 1.)[0])
            a, b, unit = memo[key]
            if len(a) < len(P2.pos) and len(a) < len(P1.pos):
                continue
            if unit != 'proved':
                continue
            ok = True
            for ps, pts, r, s in ((P1, pts1, r1, sign), (P2, pts2, r2, -sign)):
                if not ok:
                    break
                if len(ps.pos) > len(a):
                    ps = kin.Pose(ps.pos[:len(a)], ps.tg, ps.off, ps.margin)
                    pts = [p[:len(a)] for p in pts]
                for c in sides(S, ps, pts, r, a, b, s):
                    v, w = eng.all(c)
                    if v != 'proved':
                        ok = False
                        if first is None:
                            first = w
                        break
            if ok:
                t.ok('%s: %s separated by the line of %s at every instant' % (name, what, key[0][1]))
                return True, None
    return False, first


def task_scene(t, name):
    built = SC[name]()
    for mode in modes(built):
        S = Setup(built, mode)
        eng = S.P.engine()
        memo = {}
        reachable(t, S, '%s[%s]' % (name, mode))
        for k in range(S.n):
            pairs(t, S, eng, memo, name, mode, k)


def pairs(t, S, eng, memo, name, mode, k):
    built = S.b
    nm = '%s[%s]' % (name, mode) + (' segment %d' % k if S.n > 1 else '')
    per = (built.extra or {}).get('per_room') or {}
    for iv, v in enumerate(built.vehicles):
        ps = S.pose(v, k)
        if ps.links:
            bad = [w for v_, w in (eng.all(c) for c in ps.links) if v_ != 'proved']
            if bad:
                t.unknown('%s: position used for avoidance is not tied to the motion of vehicle %d' % (nm, iv))
            else:
                t.ok('%s: position used for avoidance within 1e-3 of the motion of vehicle %d' % (nm, iv))
        for js, shp in enumerate(v.shapes):
            for io, o in enumerate(built.obstacles):
                if k in per and io not in per[k]:
                    continue
                op = kin.Pose(obs_path(S, io, o, k))
                what = 'vehicle %d and obstacle %d' % (iv, io)
                ok, w = clear(t, S, eng, nm, what, ps, kin.shape(shp), op, obs_shape(o), memo)
                if not ok:
                    collide(t, S, name, mode, ('v', iv), ('o', io), what, k)
            if S.b.problem.options.get('inter_vehicle_avoidance'):
                for jv in range(iv + 1, len(built.vehicles)):
                    v2 = built.vehicles[jv]
                    what = 'vehicles %d and %d' % (iv, jv)
                    ok, w = clear(t, S, eng, nm, what, ps, kin.shape(shp), S.pose(v2, k), kin.shape(v2.shapes[0]), memo)
                    if not ok:
                        collide(t, S, name, mode, ('v', iv), ('v', jv), what, k)


def reachable(t, S, nm, box=None):
    """the rows are satisfiable (otherwise every claim would be vacuous): an actual feasible point of the real problem"""
    v, pt = conc.search(S.P.g, S.P.lb, S.P.ub, R.const(1), box or box_of(S), starts=3, iters=400)
    if v is None:
        v, pt = conc.search(S.P.g, S.P.lb, S.P.ub, R.const(1), dict({x.args[0]: (-15., 15.) for x in S.M.X}, **(box or box_of(S))), starts=8, iters=800)
    if t is not None:
        t.reach(v is not None, nm + ': rows of the problem satisfiable')
    return v is not None


def box_of(S):
    box = {}
    for T in S.Tv if S.free else ():
        box[T.args[0]] = (1., 30.)
    for n in expr.topo([lift(x) for x in S.P.g]):
        if n.op == 'v' and n.args[0].startswith('p'):
            box.setdefault(n.args[0], (-3., 3.))
    if getattr(S, 'tn', None) is not None:
        box[S.tn.args[0]] = S.trange
    return box


def collide(t, S, name, mode, A, B, what, k=0):
    """search a trajectory on which the two bodies share a point although every row holds"""
    P = S.P
    lo = (S.u0 if not isinstance(S.u0, dict) else S.trange[1] / P.b.problem.options['horizon_time']) if k == 0 else 0.
    best = None
    for u in (0.5, 0.9, 0.25, 0.7, 0.4):
        if u < lo:
            continue
        g = goal_terms(place(S, A, k), place(S, B, k), u)
        if g is None:
            continue
        goal, extra_rows, extra_lb, extra_ub, box, good = g
        bx = box_of(S)
        bx.update(box)
        v, pt = conc.search(list(P.g) + extra_rows, np.r_[P.lb, extra_lb], np.r_[P.ub, extra_ub], goal, bx, starts=4, good=good, iters=300)
        if v is not None and v > good:
            best = (v, pt, u)
            break
    if best is None:
        t.unknown('%s: %s: no declared line separates them, and no collision found either' % (name, what))
        return
    v, pt, u = best
    x, p = vectors(S, pt)
    t.counterexample('%s:%s%d-%s%d%s' % (name, A[0], A[1], B[0], B[1], ':seg%d' % k if k else ''), '%s: %s share a point at tau=%.2f although every row holds' % (name, what, u),
                     dict(kind='collision', scene=name, mode=mode, a=list(A), b=list(B), tau=u, seg=k, x=x, p=p, extra={k: w for k, w in pt.items() if k[0] not in 'xp'}))


def place(S, which, k):
    kind, i = which
    if kind == 'v':
        v = S.b.vehicles[i]
        ps = S.pose(v, k)
        if ps.true is not ps.pos:
            ps = kin.Pose(ps.true, ps.tg, ps.off)
        return ps, kin.shape(v.shapes[0])
    o = S.b.obstacles[i]
    return kin.Pose(obs_path(S, i, o, k)), obs_shape(o)


def goal_terms(a, b, u):
    """penetration of the two bodies at parameter u, with points of both as convex combinations"""
    rows_, lb, ub, box = [], [], [], {}
    pts = []
    rad = 0.
    for tag, (ps, (P, r)) in (('la', a), ('lb', b)):
        lam = [R.var('%s%d' % (tag, k)) for k in range(len(P))]
        n = len(P)
        c = [sum((lam[k] * P[k][d] for k in range(n)), R.const(0)) for d in range(len(P[0]))]
        for k in range(n):
            box['%s%d' % (tag, k)] = (0.1 / n if n > 1 else 1., 1.)
        rows_.append(sum(lam, R.const(0)))
        lb.append(1.)
        ub.append(1.)
        pos = [term(x.at(u)) for x in ps.pos]
        if ps.tg is None:
            pts.append([x + (c[d] if d < len(c) else 0) for d, x in enumerate(pos)])
        else:
            g = term(ps.tg.at(u))
            w = 1 + g * g
            co, si = (1 - g * g) / w, 2 * g / w
            px, py = c[0] + ps.off, c[1]
            pts.append([pos[0] + co * px - si * py, pos[1] + si * px + co * py])
        rad += r
    d2 = sum(((x - y) * (x - y) for x, y in zip(*pts)), R.const(0))
    eff = rad if rad > 0.02 else 0.02
    return eff * eff - d2, rows_, lb, ub, box, eff * eff * (0.02 if rad > 0.02 else 0.99)


def term(p):
    r = R.const(0)
    for m, c in p.items():
        x = R.const(c)
        for aid in m:
            x = x * expr.Poly.atoms[aid]
        r = r + x
    return r


def vectors(S, pt):
    env_ = {}
    vals = {**{n: v for n, v in pt.items()}}
    xs = [vals.get(v.args[0], 0.) for v in S.M.X]
    ps = []
    for v in S.M.P:
        s = S.P.sub.get(v)
        if s is None:
            ps.append(vals.get(v.args[0], 0.))
        elif s.op == 'c':
            ps.append(float(s.args[0]))
        else:
            ps.append(float(expr.evaluate([s], {n.args[0]: vals.get(n.args[0], 0.) for n in expr.topo([s]) if n.op == 'v'})[0]))
    return xs, ps


def feasible(built, x, p, tol=1e-5):
    """do the rows of the problem, as it reaches the solver, hold at (x, p)?"""
    f, g = built.nlp.fun()(x, p)
    g = np.array(g).ravel()
    lb, ub = built.problem.father.update_bounds(0.)
    lb, ub = np.array(cas.DM(lb.cat)).ravel(), np.array(cas.DM(ub.cat)).ravel()
    return float(max(np.max(lb - g), np.max(g - ub), 0.)) <= tol, float(max(np.max(lb - g), np.max(g - ub), 0.))


def num_poses(S, which, num, u, k=0):
    ps, (P, r) = place(S, which, k)
    out = []
    for pt in P:
        X, w = kin.body(ps, pt)
        wv = 1. if w is None else w.ev(num, u)
        out.append([c.ev(num, u) / wv for c in X])
    return out, r


def atoms_of(S, x, p, extra):
    num = {}
    for v, val in zip(S.M.X, x):
        num[v.id] = val
    for v, val in zip(S.M.P, p):
        num[v.id] = val
    for k, val in extra.items():
        num[R.var(k).id] = val
    return num


def replay_collision(case):
    built = SC[case['scene']]()
    ok, worst = feasible(built, case['x'], case['p'])
    if not ok:
        return None, 'rows violated by %.2e' % worst
    S = Setup(built, case['mode'])
    num = atoms_of(S, case['x'], case['p'], case['extra'])
    (A, ra), (B, rb) = (num_poses(S, tuple(case[k]), num, case['tau'], case.get('seg', 0)) for k in ('a', 'b'))
    from scipy.optimize import minimize
    A, B = np.array(A), np.array(B)
    n = min(A.shape[1], B.shape[1])
    A, B = A[:, :n], B[:, :n]
    la = np.array([case['extra'].get('la%d' % k, 1.) for k in range(len(A))])
    mu = np.array([case['extra'].get('lb%d' % k, 1.) for k in range(len(B))])
    la, mu = la / la.sum(), mu / mu.sum()
    d = np.linalg.norm(la @ A - mu @ B)
    if d < ra + rb - 1e-4 or (ra + rb == 0 and d < 0.005):
        return False, 'all rows of the problem hold (worst %.1e), yet the bodies overlap at tau=%.2f: distance of inner points %.4f, radii %.3f' % (worst, case['tau'], d, ra + rb)
    return True, 'distance %.4f against radii %.3f' % (d, ra + rb)


# ------------------------------------------------------------------ the last step of the argument

def task_lemma(t):
    """a line with |a|<=1, body points at least r1 inside one side and obstacle points at least r2 inside the other: no common point"""
    for dim in (2, 3):
        a, v, w, u1, u2 = ([R.var('%s%d' % (n, k)) for k in range(dim)] for n in ('a', 'v', 'w', 'p', 'q'))
        b, r1, r2 = R.var('b'), R.var('r1'), R.var('r2')
        dot = lambda x, y: sum((i * j for i, j in zip(x, y)), R.const(0))
        # p = v+p1 inside the ball of v; same point = w+q2 strictly inside the ball of w.  Cauchy-Schwarz: a.p <= |p|
        facts = [dot(a, v) + r1 - b <= 0, b + r2 - dot(a, w) <= 0, r1 >= 0, r2 > 0]
        c1, c2 = R.var('c1'), R.var('c2')
        facts += [c1 <= r1, c1 >= -r1, c2 < r2, c2 > -r2, dot(a, v) + c1 - dot(a, w) - c2 >= 0, dot(a, v) + c1 - dot(a, w) - c2 <= 0]
        r, _ = check(facts, 30000)
        if r == 'unsat':
            t.ok('dimension %d: the two sides of a declared line share no point (a.x of a ball point within its radius)' % dim)
        else:
            t.unknown('separation lemma in dimension %d: %s' % (dim, r))
    # |a|<=1, |u|<=r  =>  a.u <= r   (2D)
    a0, a1, x, y, r = (R.var(n) for n in ('ca', 'cb', 'cx', 'cy', 'cr'))
    res, _ = check([a0 * a0 + a1 * a1 <= 1, x * x + y * y <= r * r, r >= 0, a0 * x + a1 * y > r], 30000)
    if res == 'unsat':
        t.ok('a.u <= r for |a|<=1, |u|<=r')
    else:
        t.unknown('Cauchy-Schwarz lemma: %s' % res)
