"""C05: rows of the problem imply that every vehicle body stays inside its room."""
import math
import numpy as np
from .. import kin, scen, claims, rows
from ..scen import p2p, Circle, Square, Rectangle, Sphere, Cuboid, Polyhedron, RegularPolyhedron, Obstacle
from omgtools.basics.shape import Beam, Plate, RegularPrisma

INFO = dict(
    explanation='The NLP that reaches the solver is captured and turned into polynomial rows.  Claim per half-plane of the room (written from '
                'the room\'s shape and position), body point and segment: the point, grown by the body radius, is inside at every instant.  '
                'Each Bernstein coefficient of the claim is decided by z3 over the rows.  A refuted claim is turned into a trajectory that '
                'satisfies every row of the real problem and leaves the room.',
    bounds=['knot intervals 2-4', 'every value of decision variables and parameters; time within the first knot interval (or at its start and middle for '
            'models with integrated position)', 'rooms: rectangles (axis-parallel and turned), clockwise convex polygons, boxes; shifted', '1-2 rooms, 1-2 vehicles'],
    outside=['circular rooms (no half-planes: the library has none)', 'counter-clockwise polygon rooms', 'turned 3D rooms', 'Quadrotor3D (position of degree 8)'],
    stubs=['the NLP solver (recorder)'])

H = 8.
SHIFT = [0.7, -0.4]


def sroom(w=5., h=6., pos=SHIFT):
    return lambda: {'shape': Rectangle(w, h), 'position': list(pos)}


def poly():
    return Polyhedron(np.array([[-3., -2.5, 2., 3.5, 1.], [-2., 3., 3.5, 0., -3.]]))


def box3(pos=(0.5, -0.3, 0.2)):
    return lambda: {'shape': Cuboid(6., 5., 7.), 'position': list(pos)}


SC = {
    'holo': lambda: p2p('Holonomic', room=sroom(), knots=4, popts={'horizon_time': H}),
    'holo_rect': lambda: p2p('Holonomic', room=sroom(), knots=3, freeT=True, shapes=[lambda: Rectangle(0.6, 0.3)]),
    'holo_turned': lambda: p2p('Holonomic', room=sroom(), knots=3, popts={'horizon_time': H}, shapes=[lambda: Rectangle(0.6, 0.3, 0.5)]),
    'holo_poly': lambda: p2p('Holonomic', room=lambda: {'shape': poly(), 'position': SHIFT}, knots=3, popts={'horizon_time': H},
                             shapes=[lambda: RegularPolyhedron(0.3, 5)]),
    'holo_hexroom': lambda: p2p('Holonomic', room=lambda: {'shape': RegularPolyhedron(4., 6), 'position': SHIFT}, knots=2, freeT=True),
    'holo_turnedroom': lambda: p2p('Holonomic', room=lambda: {'shape': Rectangle(6., 5., 0.6), 'position': SHIFT}, knots=3, popts={'horizon_time': H}),
    'holo_beam': lambda: p2p('Holonomic', room=sroom(), knots=2, popts={'horizon_time': H}, shapes=[lambda: Beam(0.6, 0.2, 0.4)]),
    'holo_obs': lambda: p2p('Holonomic', room=sroom(), knots=2, popts={'horizon_time': H}, vopts={'safety_distance': 0.1},
                            obstacles=[lambda: Obstacle({'position': [0., 0.5]}, shape=Circle(0.4))]),
    'orient': lambda: p2p('HolonomicOrient', room=sroom(), knots=2, popts={'horizon_time': H}, shapes=[lambda: Rectangle(0.6, 0.3)]),
    'orient_circle': lambda: p2p('HolonomicOrient', room=sroom(), knots=2, freeT=True, shapes=[lambda: Circle(0.2)]),
    'orient_poly': lambda: p2p('HolonomicOrient', room=lambda: {'shape': poly(), 'position': SHIFT}, knots=2, freeT=True, shapes=[lambda: RegularPolyhedron(0.3, 3)]),
    'dubins': lambda: p2p('Dubins', room=sroom(), knots=2, popts={'horizon_time': H}, vopts={'degree': 2}),
    'dubins_rect': lambda: p2p('Dubins', room=sroom(), knots=2, freeT=True, vopts={'degree': 2}, shapes=[lambda: Rectangle(0.5, 0.2)]),
    'dubins_subst': lambda: p2p('Dubins', room=sroom(), knots=2, popts={'horizon_time': H}, vopts={'degree': 2, 'substitution': True, 'exact_substitution': True}),
    'bicycle': lambda: p2p('Bicycle', room=sroom(), knots=2, freeT=True),
    'agv': lambda: p2p('AGV', room=sroom(), knots=2, freeT=True),
    'quadrotor': lambda: p2p('Quadrotor', room=sroom(), knots=3, popts={'horizon_time': H}),
    'quadrotor_freeT': lambda: p2p('Quadrotor', room=sroom(), knots=2, freeT=True),
    'trailer': lambda: p2p('Trailer', room=sroom(), knots=2, freeT=True, shapes=[lambda: Rectangle(0.3, 0.2)]),
    'holo3d': lambda: p2p('Holonomic3D', room=box3(), knots=3, popts={'horizon_time': H}),
    'holo3d_box': lambda: p2p('Holonomic3D', room=box3(), knots=2, freeT=True, shapes=[lambda: Cuboid(0.6, 0.4, 0.2)]),
    'holo3d_plate': lambda: p2p('Holonomic3D', room=box3(), knots=2, popts={'horizon_time': H}, shapes=[lambda: RegularPrisma(0.3, 0.4, 5)]),
    'simplequad': lambda: p2p('SimpleQuadrotor3D', room=box3(), knots=2, popts={'horizon_time': H}),
    'two': lambda: p2p(['Holonomic', 'Holonomic'], room=sroom(), knots=2, popts={'horizon_time': H, 'inter_vehicle_avoidance': True},
                       shapes=[lambda: Circle(0.15), lambda: Rectangle(0.3, 0.2)]),
    'multi': lambda: scen.multi('Holonomic', [sroom(3., 4., (-1., 0.)), sroom(4., 3., (1., 0.5))], knots=2),
    'multi_rect': lambda: scen.multi('Holonomic', [sroom(3., 4., (-1., 0.)), lambda: {'shape': poly(), 'position': [1., 0.5]}], knots=2, shapes=[lambda: Rectangle(0.3, 0.2)]),
    'multi_orient': lambda: scen.multi('HolonomicOrient', [sroom(3., 4., (-1., 0.)), sroom(4., 3., (1., 0.5))], knots=2),
    'multi_two': lambda: scen.multi(['Holonomic', 'Holonomic'], [sroom(3., 4., (-1., 0.)), sroom(4., 3., (1., 0.5))], knots=2),
    'orientkey': lambda: p2p('Holonomic', room=lambda: {'shape': Rectangle(6., 4.), 'position': SHIFT, 'orientation': 0.5}, knots=2, popts={'horizon_time': H}),
}
QUICK = list(SC)


def tasks(tier, seed):
    return claims.tasks_of(QUICK if tier == 'quick' else SC, {'trailer': 4, 'agv': 2, 'dubins_rect': 2})


def halfplanes(room):
    """(name, a, b): the room is {x: a.x <= b for all}; written from the meaning of the room's fields"""
    s, pos = room['shape'], room['position']
    if s.n_dim == 3:
        assert type(s).__name__ in ('Cuboid', 'Cube')
        half = (s.width / 2., s.depth / 2., s.height / 2.)
        out = []
        for k in range(3):
            for sg in (1., -1.):
                a = [0.] * 3
                a[k] = sg
                out.append(('xyz'[k] + ('max' if sg > 0 else 'min'), a, half[k] + sg * pos[k]))
        return out
    pts, r = kin.shape(s)
    assert r == 0.
    th = room.get('orientation', 0.)
    th = float(np.ravel(th)[0])
    c, d = math.cos(th), math.sin(th)
    pts = [(c * x - d * y, d * x + c * y) for x, y in pts]
    cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
    pts.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
    out = []
    for i, p in enumerate(pts):
        q = pts[(i + 1) % len(pts)]
        nx, ny = q[1] - p[1], p[0] - q[0]
        L = math.hypot(nx, ny)
        nx, ny = nx / L, ny / L
        out.append(('side%d' % i, [nx, ny], nx * (p[0] + pos[0]) + ny * (p[1] + pos[1])))
    return out


def bodies(S, v, k):
    ps = S.pose(v, k)
    out = [('', ps, v.shapes[0])]
    if type(v).__name__ == 'Trailer':
        tg = None if type(v.lead_veh.shapes[0]).__name__ == 'Circle' else S.P.vehicle_splines(v, k)[2]
        out.append(('lead', kin.Pose(ps.pos, tg), v.lead_veh.shapes[0]))
    return out


def scene_claims(S):
    env_ = S.b.problem.environment
    for k in range(S.n):
        room = env_.room[k]
        hp = halfplanes(room)
        for iv, v in enumerate(S.b.vehicles):
            for nm, ps, shp in bodies(S, v, k):
                pts, r = kin.shape(shp)
                for j, pt in enumerate(pts):
                    X, w = kin.body(ps, pt)
                    for side, a, b in hp:
                        e = sum([x * ai for ai, x in list(zip(a, X))[1:]], X[0] * a[0])
                        c = (e - b) if w is None else (e - w * b)
                        who = 'vehicle %d%s' % (iv, ' (%s)' % nm if nm else '')
                        key = 'v%d%s:p%d:%s@seg%d' % (iv, nm, j, side, k)
                        if room.get('orientation') and v.n_dim == 2:
                            key = 'v%d%s:room-turned|%s' % (iv, nm, key)
                        if v.n_dim == 3 and r:
                            yield 'centre:' + key, '%s: centre inside %s of room %d' % (who, side, k), c
                            key = 'v%d%s:radius|%s' % (iv, nm, key)
                        grow = r + 0. if w is None else w * r
                        if r:
                            c = c + grow
                        if w is None and ps.tg is not None:
                            c = [c, c * (ps.tg * ps.tg + 1.)]
                        yield key, '%s: point %d grown by %.3g inside %s of room %d' % (who, j, r, side, k), c


task_scene = claims.scene_task(SC, scene_claims)
replay_claim = claims.replayer(SC, scene_claims)
