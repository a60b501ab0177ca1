"""C15: frames contain their path and every obstacle that matters."""
import math
import numpy as np
from fractions import Fraction as F
from .. import env, expr, sched
from ..expr import R, lift, liftb, band, bor, bnot
from ..env import quiet
from .c16 import patches as exact_geometry
from ..decide import decide
import omgtools as omg
import omgtools.basics.shape as shp
from omgtools.environment.obstacle import Obstacle
from omgtools.environment.environment import Environment
from omgtools.environment import frame as fr

INFO = dict(
    explanation='the real frame classes run on symbolic obstacles (position, size, velocity), symbolic frame borders and, in some tasks, symbolic way-points; on every path z3 '
                'compares the listed obstacles with the overlap condition, and shows that corridors hold no stationary obstacle, stay in the room and keep their start and end point clear of the border',
    bounds=['room 6 x 5 m (shifted), vehicle size 0.3 m, margin 1.1; paths of 2 to 6 way-points; one obstacle of any size and position (circle or axis-parallel rectangle) and up to two fixed ones',
            'start 0.33 m clear of obstacles, way-points clear of obstacles by the vehicle size', 'moving obstacles: velocity within 2 m/s, motion times of 1 to 2.6 s, sample times 0.5 and 0.8',
            'way-point adjustment: any frame of at least 1.5 m and any two or three way-points', 'L-shape: any two overlapping frames along given way-points',
            'scheduler: 1-3 frames ahead, shift, corridor and L-shape, free and fixed end, 1-3 updates (thorough: 4), every answer of the frames (vehicle inside, obstacle inside) and every motion time'],
    outside=['obstacle shapes other than circles and rectangles (refused by the code)', 'touching contact within 1e-6', 'start positions closer than the vehicle size to an obstacle or the room border',
             'an obstacle that crosses the frame between two checked instants'],
    stubs=['scheduler: the frames, the global planner, the guess of the trajectory and the local problem (its environment is real)'], assumptions=['the vehicle starts clear of obstacles and way-points are clear of obstacles (the planner: C14)'])

VEH, MARGIN = 0.3, 1.1
CLEAR = VEH * MARGIN
ROOM = ((6., 5.), (0.5, -0.3))
LIM = [ROOM[1][0] - 3., ROOM[1][1] - 2.5, ROOM[1][0] + 3., ROOM[1][1] + 2.5]
EPS = F(1, 10**6)


def patches():
    return exact_geometry()


def world(obs, size=ROOM):
    e = Environment(room={'shape': shp.Rectangle(*size[0]), 'position': list(size[1])})
    e.obstacles = list(obs)
    return e


def column(xs):
    sym = any(isinstance(x, R) for x in xs)
    out = np.empty((len(xs), 1), dtype=object if sym else float)
    for k, x in enumerate(xs):
        out[k, 0] = x
    return out


def obstacle(shape, pos, vel=(0., 0.), sim=None):
    ob = Obstacle({'position': [0., 0.]}, shape, {'trajectories': sim} if sim is not None else {})
    ob.signals['position'] = column(pos)
    ob.signals['velocity'] = column(vel)
    return ob


def half(x):
    return x * F(1, 2) if isinstance(x, R) else 0.5 * x


def body(kind, k, val):
    """shape and its half sizes"""
    if kind == 'circle':
        r = val('w%d' % k)
        return shp.Circle(r), [r, r]
    if kind == 'square':
        w = val('w%d' % k)
        return shp.Square(w), [half(w)] * 2
    w, h = val('w%d' % k), val('h%d' % k)
    return shp.Rectangle(w, h), [half(w), half(h)]


def hits(lim, pos, hs, grow=0):
    """the box around pos overlaps the rectangle lim = [xmin, ymin, xmax, ymax]"""
    return band(*[c for k in (0, 1) for c in (lift(pos[k]) - hs[k] <= lim[k + 2] + grow, lift(pos[k]) + hs[k] >= lim[k] - grow)])


def within(p, lim, d=0):
    return band(*[c for k in (0, 1) for c in (lift(p[k]) >= lift(lim[k]) + d, lift(p[k]) <= lift(lim[k + 2]) - d)])


def sizes(names):
    out = []
    for s in names:
        v = R.var(s)
        out += [v >= F(1, 100), v <= 3] if s[0] in 'wh' else [v >= -9, v <= 9]
    return out


def limits(p='b'):
    return [R.var(p + s) for s in ('xl', 'yl', 'xu', 'yu')]


def bare(cls, e, lim, **k):
    """a frame with a given border"""
    f = cls.__new__(cls)
    fr.Frame.__init__(f, e, [0., 0.], [], VEH, MARGIN, dict(verbose=0, **k))
    f.border = f.make_border(*lim)
    return f


def check_limits(f, lim):
    return band(*[lift(a) == b for a, b in zip(f.border['limits'], lim)])


def valuer(case):
    m = case['model']
    return lambda s: m.get(s, 0.5 if s[0] in 'wh' else 0.)


# ------------------------------------------------- which stationary obstacles a frame lists

STILL = {'velocity': {'time': [0., 2.], 'values': [[0., 0.], [0., 0.]]}}
LATER = {'velocity': {'time': [0., 2.], 'values': [[0., 0.], [0.3, 0.]]}}


def listed(kind, val, lim):
    sh, hs = body('rect' if kind in ('moves', 'still') else kind, 0, val)
    pos = [val('x0'), val('y0')]
    ob = obstacle(sh, pos, sim={'still': STILL, 'moves': LATER}.get(kind))
    other = obstacle(shp.Circle(0.4), [1., 0.5], sim={'position': {'time': [1.], 'values': [[0., 1.]]}})
    f = bare(fr.CorridorFrame, world([ob, other]), lim)
    res = f.get_stationary_obstacles()
    g = bare(fr.CorridorFrame, f.environment, [0., 0., 1., 1.])
    return f, [ob in res, other in res, len(res)], [ob in q for q in (g.get_stationary_obstacles(frame=f),)], pos, hs


def task_listed(t, kind):
    lim = limits()
    asm = sizes(['x0', 'y0', 'w0', 'h0']) + [c for a, b in ((0, 2), (1, 3)) for c in (lim[a] >= -5, lim[b] <= 5, lim[a] + F(1, 10) <= lim[b])]

    def run():
        return listed(kind, R.var, lim)

    def claims(res):
        f, (first, second, n), (again,), pos, hs = res
        out = [('border is kept', [], check_limits(f, lim)), ('nothing twice', [], liftb(n == first + second)), ('the frame asked about', [], liftb(again == first))]
        near = bnot(bor(hits(lim, pos, hs, EPS))) if not first else hits(lim, pos, hs, EPS)
        if kind == 'moves':
            return out + [('a moving obstacle is not stationary', [], liftb(not first))]
        far = bnot(hits(lim, pos, hs, -EPS)) if not first else hits(lim, pos, hs, EPS)
        o2 = bnot(hits(lim, [1., 0.5], [0.4, 0.4], -EPS)) if not second else hits(lim, [1., 0.5], [0.4, 0.4], EPS)
        return out + [('obstacle listed exactly when it overlaps', [], far), ('second obstacle listed exactly when it overlaps', [], o2)]
    seen = decide(t, 'listed:%s' % kind, asm, run, claims, 'listed', extra=[kind], patches=patches(), tag=lambda r: (r[1][0], r[1][1]))
    t.reach((False, True) in seen and (False, False) in seen and (kind == 'moves' or (True, True) in seen), 'listed: both ways')


def replay_listed(case):
    kind = case['extra'][0]
    val = valuer(case)
    lim = [val('b' + s) for s in ('xl', 'yl', 'xu', 'yu')]
    with env.unpatched(), quiet():
        try:
            f, (first, second, n), (again,), pos, hs = listed(kind, val, lim)
        except Exception as e:
            return False, repr(e)
    ok = n == first + second and again == first and max(abs(a - b) for a, b in zip(f.border['limits'], lim)) < 1e-9
    if kind == 'moves':
        ok = ok and not first
    elif first:
        ok = ok and bool(hits(lim, pos, hs, 1e-7))
    else:
        ok = ok and not bool(hits(lim, pos, hs, -1e-7))
    other = bool(hits(lim, [1., 0.5], [0.4, 0.4], 1e-7 if second else -1e-7))
    return ok and other == second, 'frame %r, obstacle at %r half sizes %r: listed %r; fixed circle at (1, 0.5): listed %r' % (lim, pos, hs, first, second)


# ------------------------------------------------- which moving obstacles a frame lists

MOVE = {'a': (1., 0.5), 'b': (2.6, 0.8), 'c': (2., 0.5)}


def corners(kind, hs, turn):
    if kind == 'circle':
        out = [(0, 0)]
    else:
        out = []
    out += [(a * hs[0], b * hs[1]) for a in (-1, 1) for b in (-1, 1)]
    c, s = math.cos(turn), math.sin(turn)
    return [(x * c - y * s, x * s + y * c) for x, y in out] if turn else out


def moving(kind, val, lim, when, turn):
    T, ts = MOVE[when]
    if kind == 'circle':
        r = val('w0')
        sh, hs = shp.Circle(r), [r, r]
    elif turn:
        sh, hs = shp.Rectangle(1., 0.4, orientation=turn), [0.5, 0.2]
    else:
        sh, hs = body(kind, 0, val)
    pos, vel = [val('x0'), val('y0')], [val('u0'), val('v0')]
    ob = obstacle(sh, pos, vel)
    ob.options['avoid'] = False
    rest = obstacle(shp.Rectangle(0.5, 0.5), [half(lift(lim[0]) + lim[2]) if isinstance(lim[0], R) else half(lim[0] + lim[2]), half(lift(lim[1]) + lim[3]) if isinstance(lim[0], R) else half(lim[1] + lim[3])])
    f = bare(fr.CorridorFrame, world([rest, ob]), lim, check_moving_obs_ts=ts)
    res = f.get_moving_obstacles(T)
    return ob in res, rest in res, len(res), bool(ob.options['avoid']), corners(kind, hs, turn), pos, vel


def inside_at(lim, cs, pos, vel, t, grow):
    return bor(*[band(*[c for k in (0, 1) for c in (lift(q[k]) + pos[k] + lift(vel[k]) * lift(t) >= lim[k] - grow, lift(q[k]) + pos[k] + lift(vel[k]) * lift(t) <= lift(lim[k + 2]) + grow)]) for q in cs])


def instants(when, extra):
    T, ts = MOVE[when]
    return [F(ts).limit_denominator(100) * k for k in range(int(math.floor(T / ts + 1e-9)) + 1 + extra)]


FREE = {  # the values that stay symbolic; the others are fixed
    'place': ('x0', 'y0'), 'speed': ('u0', 'v0'), 'line': ('x0', 'u0'), 'size': ('w0', 'h0'), 'column': ('y0', 'v0'), 'frame': ('bxl', 'byu'),
}
FIX = dict(x0=-1.7, y0=0.3, u0=0.6, v0=-0.4, w0=1.2, h0=0.4, bxl=-0.6, byl=-0.9, bxu=1.1, byu=0.8)


def mixed(free, val):
    return lambda s: val(s) if s in FREE[free] else FIX[s]


def task_moving(t, kind, when, turn, free):
    val = mixed(free, R.var)
    lim = [val('b' + s) for s in ('xl', 'yl', 'xu', 'yu')]
    asm = [c for s in FREE[free] for c in ((R.var(s) >= F(1, 100), R.var(s) <= 3) if s[0] in 'wh' else (R.var(s) >= -2, R.var(s) <= 2) if s[0] in 'uv' else (R.var(s) >= -6, R.var(s) <= 6))]
    if free == 'frame':
        asm += [R.var('bxl') <= 1, R.var('byu') >= F(-8, 10)]
    u, v = lift(val('u0')), lift(val('v0'))

    def run():
        return moving(kind, val, lim, when, turn)

    def claims(res):
        first, second, n, avoid, cs, pos, vel = res
        out = [('an obstacle at rest is not moving', [], liftb(not second)), ('nothing twice', [], liftb(n == first + second)), ('listed obstacles are avoided', [], liftb(avoid or not first))]
        if first:
            out.append(('listed: it moves', [], bor(u > 0, u < 0, v > 0, v < 0)))
            out.append(('listed: inside at some instant', [], bor(*[inside_at(lim, cs, pos, vel, q, EPS) for q in instants(when, 2)])))
        else:
            out.append(('not listed: it rests or is outside at every instant', [], bor(band(u <= 0, u >= 0, v <= 0, v >= 0), bnot(bor(*[inside_at(lim, cs, pos, vel, q, -EPS) for q in instants(when, 0)])))))
        return out
    seen = decide(t, 'moving:%s:%s:%g:%s' % (kind, when, turn, free), asm, run, claims, 'moving', extra=[kind, when, turn, free], patches=patches(), tag=lambda r: r[0])
    t.reach(True in seen and False in seen, 'moving: both ways')


def replay_moving(case):
    kind, when, turn, free = case['extra']
    val = mixed(free, valuer(case))
    lim = [val('b' + s) for s in ('xl', 'yl', 'xu', 'yu')]
    with env.unpatched(), quiet():
        try:
            first, second, n, avoid, cs, pos, vel = moving(kind, val, lim, when, turn)
        except Exception as e:
            return False, repr(e)
    inn = any(bool(inside_at(lim, cs, pos, vel, q, -1e-7)) for q in instants(when, 0))
    may = any(bool(inside_at(lim, cs, pos, vel, q, 1e-7)) for q in instants(when, 2))
    move = any(x != 0 for x in vel)
    ok = not second and n == first and (avoid or not first) and (first or not (inn and move)) and (not first or (may and move))
    return ok, 'frame %r, obstacle at %r velocity %r corners %r, times %r: listed %r (inside at a checked instant: %r)' % (lim, pos, vel, [tuple(map(float, map(lambda x: lift(x).value, q))) for q in cs], MOVE[when], first, inn)


# ------------------------------------------------- last way-point at the required distance

def adjusted(method, pts, lim):
    f = bare(fr.CorridorFrame, world([]), lim)
    f.waypoints = [list(p) for p in pts]
    f.make_last_waypoint_reachable(method=method)
    return f.waypoints, f.border['limits']


def on_line(a, b, q, tol):
    """q lies on the line through a and b"""
    d = (lift(q[0]) - a[0]) * (lift(b[1]) - a[1]) - (lift(q[1]) - a[1]) * (lift(b[0]) - a[0])
    return band(d <= tol, -d <= tol)


ADJ = [[-1., -0.8, 1.2, 0.9], [0.3, -2., 1.8, 2.5]]


AT = [[-0.2, 0.3], [1.1, -1.2]]


def adj_points(which, n, val):
    """the last way-point is free; with n = 3 the one before it is too close to the border"""
    out = [list(AT[which])] + [[val('p%d%s' % (k, s)) for s in 'xy'] for k in range(1, n)]
    if n == 3:
        out[1] = [ADJ[which][2] - 0.2, AT[which][1] + 0.3]
    return out


def task_adjust(t, method, n, which):
    lim = ADJ[which]
    pts = adj_points(which, n, R.var)
    asm = [c for p in pts[1:] for q in p for c in (lift(q) >= -4, lift(q) <= 4)]
    if method == 'move_frame':
        asm.append(within(pts[-1], lim))

    def run():
        return adjusted(method, pts, lim)

    def claims(res):
        w, l = res
        out = [('last way-point has the required distance', [], within(w[-1], l, VEH - 1e-6))]
        if method == 'move_point':
            out.append(('border is kept', [], band(*[lift(a) == b for a, b in zip(l, lim)])))
            k = len(w)
            out.append(('earlier way-points are kept', [], liftb(1 <= k <= n and all(p[0] is q[0] and p[1] is q[1] for p, q in zip(w[:-1], pts)))))
            if n == 2:
                out.append(('the new way-point is on the path', [], on_line(pts[0], pts[1], w[-1], F(1, 10**6))))
        else:
            out.append(('way-points are kept', [], liftb(len(w) == n and all(p[0] is q[0] and p[1] is q[1] for p, q in zip(w, pts)))))
            out.append(('the frame only grows', [], band(*[lift(l[k]) <= lift(lim[k]) + F(1, 10**9) for k in (0, 1)] + [lift(l[k]) >= lift(lim[k]) - F(1, 10**9) for k in (2, 3)])))
        return out
    seen = decide(t, 'adjust:%s:%d:%d' % (method, n, which), asm, run, claims, 'adjust', extra=[method, n, which], patches=patches(), normal=True, tag=lambda r: 'kept' if r[0][-1][0] is pts[-1][0] and r[0][-1][1] is pts[-1][1] else 'moved')
    t.reach('kept' in seen and ('moved' in seen or method == 'move_frame'), 'adjust: kept and moved')


def replay_adjust(case):
    method, n, which = case['extra']
    val = valuer(case)
    lim = ADJ[which]
    pts = adj_points(which, n, val)
    with env.unpatched(), quiet():
        try:
            w, l = adjusted(method, pts, lim)
        except Exception as e:
            return False, repr(e)
    ok = bool(within(w[-1], l, VEH - 1e-5))
    if method == 'move_point':
        ok = ok and list(l) == lim and 1 <= len(w) <= n and w[:-1] == pts[:len(w) - 1] and (n > 2 or bool(on_line(pts[0], pts[1], w[-1], 1e-5)))
    else:
        ok = ok and w == pts and all(l[k] <= lim[k] + 1e-9 for k in (0, 1)) and all(l[k] >= lim[k] - 1e-9 for k in (2, 3))
    return ok, 'frame %r, way-points %r: way-points %r in %r' % (lim, pts, w, list(l))


# ------------------------------------------------- corridors

PATHS = {  # start, way-points (inside the room 6 x 5 around (0.5, -0.3))
    'straight': ([-1.9, -1.5], [[-1.5, -1.5], [-0.5, -1.5], [0.5, -1.5], [1.9, -1.5]]),
    'up': ([2.5, -2.1], [[2.5, -1.5], [2.5, -0.5], [2.5, 0.7], [2.5, 1.6]]),
    'diag': ([-1.9, -2.2], [[-1.5, -1.8], [-0.5, -0.8], [0.5, 0.2], [1.5, 1.2]]),
    'corner': ([-1.8, 1.4], [[-1.5, 1.5], [-0.5, 1.5], [0.5, 0.5], [0.5, -0.5], [0.5, -1.9]]),
    'zigzag': ([-1.5, -1.9], [[-1.5, -1.5], [-0.5, -0.8], [0.5, -0.1], [-0.5, 0.6], [0.2, 1.3], [2.4, 1.6]]),
    'back': ([2.4, 1.5], [[2., 1.2], [1., 0.4], [0., -0.4], [-1., -1.2], [-1.9, -2.1]]),
    'near': ([0.1, 0.2], [[0.2, 0.3], [0.25, 0.1]]),
}
FIXED = {'none': [], 'wall': [((0.3, 0.2), (0.9, 0.15))], 'two': [((-1.2, 0.4), (0.3, 0.2)), ((1.6, -0.4), (0.25, 0.3))], 'floor': [((0.5, -2.78), (0.9, 0.05))], 'ledge': [((-0.5, 1.4), (0.2, 0.3))]}


def corridor(path, kind, fixed, fine, val, scale=1.):
    start, pts = PATHS[path]
    obs = []
    boxes = []
    for (x, y), (a, b) in FIXED[fixed]:
        obs.append(obstacle(shp.Rectangle(2 * a, 2 * b), [x, y]))
        boxes.append(([x, y], [a, b]))
    if kind != 'fixed':
        sh, hs = body(kind, 0, val)
        pos = [val('x0'), val('y0')]
        obs.append(obstacle(sh, pos))
        boxes.append((pos, hs))
    try:
        f = fr.CorridorFrame(world(obs), list(start), [list(p) for p in pts], VEH, MARGIN, {'scale_up_fine': fine, 'verbose': 0})
    except RuntimeError:
        f = None  # refused: no way-point can be reached
    return f, boxes


def isgoal(p, q):
    return not any(isinstance(x, R) for x in p) and list(p) == list(q)


def box(p, d):
    return [p[0] - d, p[1] - d, p[0] + d, p[1] + d]


def corridor_assumptions(path, kind):
    start, pts = PATHS[path]
    if kind == 'fixed':
        return []
    hs = {'circle': [R.var('w0')] * 2, 'square': [R.var('w0') * F(1, 2)] * 2}.get(kind, [R.var('w0') * F(1, 2), R.var('h0') * F(1, 2)])
    pos = [R.var('x0'), R.var('y0')]
    return sizes(['x0', 'y0', 'w0', 'h0']) + [bnot(hits(box(p, d), pos, hs, F(1, 10**4))) for p, d in [(start, CLEAR)] + [(q, VEH) for q in pts]]


def corridor_claims(f, boxes, path, tol=1e-6):
    start, pts = PATHS[path]
    if f is None:
        first = min(pts, key=lambda q: math.hypot(q[0] - start[0], q[1] - start[1]))
        lim = [min(start[k], first[k]) - CLEAR for k in (0, 1)] + [max(start[k], first[k]) + CLEAR for k in (0, 1)]
        return [('refuses only when an obstacle lies between the start and the first way-point', bor(*[hits(lim, p, h, tol) for p, h in boxes]))]
    lim = f.border['limits']
    room = LIM
    out = [('no stationary obstacle in the corridor', bnot(bor(*[hits(lim, p, h, -tol) for p, h in boxes])) if boxes else liftb(True)),
           ('the corridor stays in the room', band(*[lift(lim[k]) >= room[k] - tol for k in (0, 1)] + [lift(lim[k]) <= room[k] + tol for k in (2, 3)])),
           ('the start has the required distance', within(start, lim, VEH - tol)),
           ('the last way-point has the required distance', within(f.waypoints[-1], lim, VEH - tol)),
           ('end point', liftb(f.endpoint is f.waypoints[-1] or isgoal(f.waypoints[-1], f.endpoint))),
           ('lists no obstacle', liftb(len(f.stationary_obstacles) == 0))]
    w = [list(p) for p in f.waypoints]
    kept = w[:-1]
    ks = [k for p in kept for k, q in enumerate(pts) if isgoal(p, q)]
    out.append(('way-points of the path in order', liftb(len(ks) == len(kept) and ks == sorted(set(ks)) and ks == list(range(ks[0], ks[0] + len(ks))) if kept else True)))
    out.append(('way-points lie inside', band(*[within(p, lim, -tol) for p in w])))
    c = f.border['position']
    s = f.border['shape']
    out.append(('border shape and limits agree', band(*[q for k, d in ((0, s.width), (1, s.height)) for q in (lift(c[k]) - half(lift(d)) - lim[k] <= tol, lim[k] - (lift(c[k]) - half(lift(d))) <= tol,
                                                                                                          lift(c[k]) + half(lift(d)) - lim[k + 2] <= tol, lim[k + 2] - (lift(c[k]) + half(lift(d))) <= tol)])))
    return out


def task_corridor(t, path, kind, fixed, fine):
    asm = corridor_assumptions(path, kind)

    def run():
        with quiet():
            return corridor(path, kind, fixed, fine, R.var)

    def claims(res):
        f, boxes = res
        return [(w, [], g) for w, g in corridor_claims(f, boxes, path)]
    seen = decide(t, 'corridor:%s:%s:%s' % (path, kind, fixed), asm, run, claims, 'corridor', extra=[path, kind, fixed, fine], patches=patches(), max_paths=30000,
                  tag=lambda r: 'refused' if r[0] is None else 'goal' if isgoal(r[0].waypoints[-1], PATHS[path][1][-1]) else 'part')
    t.reach(kind == 'fixed' or fixed != 'none' or 'goal' in seen, 'corridor: to the goal')
    t.reach(kind == 'fixed' or path == 'near' or 'part' in seen, 'corridor: part of the way')


def replay_corridor(case):
    path, kind, fixed, fine = case['extra']
    val = valuer(case)
    with env.unpatched(), quiet():
        try:
            f, boxes = corridor(path, kind, fixed, fine, val)
        except Exception as e:
            return False, repr(e)
        bad = [w for w, g in corridor_claims(f, boxes, path, 1e-5) if not bool(g)]
    return not bad, 'start %r, path %r, obstacles %r: border %r, way-points %r: %s' % (PATHS[path] + (boxes, f and f.border['limits'], f and f.waypoints, '; '.join(bad) or 'as claimed'))


# ------------------------------------------------- two frames in an L

LS = {  # way-points of the first and of the second frame
    'right-up': ([[-1.5, -1.5], [0., -1.4], [1.5, -1.3]], [[1.5, -1.3], [1.6, 0.], [1.7, 1.5]]),
    'up-left': ([[1.5, -1.5], [1.4, 1.5]], [[1.4, 1.5], [-1.5, 1.6]]),
    'left-down': ([[1.5, 1.5], [-1., 1.4]], [[-1., 1.4], [-1.1, -1.5]]),
    'down-right': ([[-1.2, 1.5], [-1.1, -1.4]], [[-1.1, -1.4], [1.5, -1.5]]),
    'diag': ([[-1.5, -1.5], [0.2, 0.3]], [[0.2, 0.3], [1.6, 1.5]]),
}


def lshape(name, val, la, lb, kind):
    sh, hs = body(kind, 0, val)
    pos = [val('x0'), val('y0')]
    e = world([obstacle(sh, pos)])
    a, b = bare(fr.CorridorFrame, e, la), bare(fr.CorridorFrame, e, lb)
    wa, wb = LS[name]
    a.start_pos, b.start_pos = list(wa[0]), list(wb[0])
    a.waypoints, b.waypoints = [list(p) for p in wa], [list(p) for p in wb]
    a.endpoint, b.endpoint = a.waypoints[-1], b.waypoints[-1]
    r = a.create_l_shape(b)
    return r[0], r[1], pos, hs


def lshape_claims(a, b, pos, hs, name, tol=1e-6):
    wa, wb = LS[name]
    out = []
    for f, w, s in ((a, wa, 'first'), (b, wb, 'second')):
        lim = f.border['limits']
        out.append(('no stationary obstacle in the %s frame' % s, bnot(hits(lim, pos, hs, -tol))))
        out.append(('the %s frame stays in the room' % s, band(*[lift(lim[k]) >= LIM[k] - tol for k in (0, 1)] + [lift(lim[k]) <= LIM[k + 2] + tol for k in (0, 1)][:0] + [lift(lim[k]) <= LIM[k] + tol for k in (2, 3)])))
        out.append(('start and end lie in the %s frame' % s, band(within(w[0], lim, -tol), within(w[-1], lim, -tol))))
        out.append(('way-points of the %s frame are kept' % s, liftb([list(p) for p in f.waypoints] == w)))
    return out


def task_lshape(t, name, kind):
    la, lb = limits('a'), limits('b')
    wa, wb = LS[name]
    hs = {'circle': [R.var('w0')] * 2}.get(kind, [R.var('w0') * F(1, 2), R.var('h0') * F(1, 2)])
    pos = [R.var('x0'), R.var('y0')]
    asm = sizes(['x0', 'y0', 'w0', 'h0'])
    for lim, w in ((la, wa), (lb, wb)):
        asm += [lim[k] >= LIM[k] for k in (0, 1)] + [lim[k] <= LIM[k] for k in (2, 3)]
        asm += [within(p, lim, F(CLEAR).limit_denominator(1000) if p == w[0] else F(3, 10)) for p in w] + [bnot(hits(lim, pos, hs, F(1, 10**4)))]

    def run():
        return lshape(name, R.var, la, lb, kind)

    def claims(res):
        return [(w, [], g) for w, g in lshape_claims(*(res + (name,)))]

    def changed(r):
        return tuple(any(x is not y for x, y in zip(f.border['limits'], lim)) for f, lim in ((r[0], la), (r[1], lb)))
    seen = decide(t, 'lshape:%s:%s' % (name, kind), asm, run, claims, 'lshape', extra=[name, kind], patches=patches(), tag=changed, max_paths=20000)
    t.reach((False, False) in seen and any(True in k for k in seen), 'lshape: kept and changed')


def replay_lshape(case):
    name, kind = case['extra']
    val = valuer(case)
    la, lb = [[val(p + s) for s in ('xl', 'yl', 'xu', 'yu')] for p in 'ab']
    with env.unpatched(), quiet():
        try:
            a, b, pos, hs = lshape(name, val, la, lb, kind)
        except Exception as e:
            return False, repr(e)
        bad = [w for w, g in lshape_claims(a, b, pos, hs, name, 1e-5) if not bool(g)]
    return not bad, 'frames %r and %r, obstacle %r half sizes %r: %r and %r: %s' % (la, lb, pos, hs, a.border['limits'], b.border['limits'], '; '.join(bad) or 'as claimed')


# ------------------------------------------------- frames of fixed size

SIZE = 2.
SHIFT = {  # way-points relative to nothing: start free
    'far': [[0.4, 0.2], [1.5, 0.9], [2.9, 1.6]],
    'side': [[0.3, -0.2], [0.2, -1.4], [0.1, -2.4]],
    'in': [[0.4, 0.2], [0.8, 0.5]],
    'reach': [[0.4, 0.2], [1.3, 0.4]],
    'back': [[-0.4, 0.2], [-1.5, 0.9], [-2.9, 1.4]],
    'turn': [[-0.3, -0.1], [-1.25, -1.2]],
}


def shifted(name, val):
    start = [val('sx'), val('sy')]
    sh, hs = body('rect', 0, val)
    pos = [val('x0'), val('y0')]
    f = fr.ShiftFrame(world([obstacle(sh, pos)]), start, SIZE, 0.5, [list(p) for p in SHIFT[name]], VEH, MARGIN, {'verbose': 0})
    return f, start, pos, hs


def shift_claims(f, start, pos, hs, name, tol=1e-6):
    lim = f.border['limits']
    w = [list(p) for p in f.waypoints]
    seen = any(o is f.environment.obstacles[0] for o in f.stationary_obstacles)
    pts = SHIFT[name]
    known = [k for p in w for k, q in enumerate(pts) if isgoal(p, q)]
    goal = isgoal(w[-1], pts[-1])
    out = [('lists the obstacle exactly when it overlaps', hits(lim, pos, hs, tol) if seen else bnot(hits(lim, pos, hs, -tol))),
           ('the start lies inside', within(start, lim, -tol)),
           ('the frame does not exceed its size', band(*[lift(lim[k + 2] - lim[k]) <= SIZE + (MARGIN * VEH if goal else 0) + tol for k in (0, 1)])),
           ('end point', liftb(f.endpoint is f.waypoints[-1] or isgoal(f.waypoints[-1], f.endpoint))),
           ('way-points in order', liftb(len(known) >= len(w) - 1 and known == sorted(set(known))))]
    if not goal:
        out.append(('the last way-point has the required distance', within(w[-1], lim, VEH - tol)))
    else:
        out.append(('the goal lies inside', within(w[-1], lim, -tol)))
    return out


def task_shift(t, name):
    sx, sy = R.var('sx'), R.var('sy')
    asm = sizes(['x0', 'y0', 'w0', 'h0']) + [sx >= F(-1, 10), sx <= F(1, 10), sy >= F(-1, 10), sy <= F(1, 10)]

    def run():
        with quiet():
            return shifted(name, R.var)

    def claims(res):
        return [(w, [], g) for w, g in shift_claims(*(res + (name,)))]
    decide(t, 'shift:%s' % name, asm, run, claims, 'shift', extra=[name], patches=patches(), max_paths=20000)


def replay_shift(case):
    name = case['extra'][0]
    with env.unpatched(), quiet():
        try:
            f, start, pos, hs = shifted(name, valuer(case))
            bad = [w for w, g in shift_claims(f, start, pos, hs, name, 1e-5) if not bool(g)]
        except Exception as e:
            return False, repr(e)
    return not bad, 'start %r, path %r, obstacle %r: border %r, way-points %r: %s' % (start, SHIFT[name], (pos, hs), f.border['limits'], f.waypoints, '; '.join(bad) or 'as claimed')


SCHED = [(1, 'shift', False, True, 3, 3), (1, 'shift', False, False, 3, 3), (1, 'corridor', True, True, 3, 3), (2, 'shift', False, True, 3, 2), (2, 'corridor', True, True, 3, 2),
         (1, 'corridor', True, True, 1, 1), (3, 'corridor', False, True, 3, 1)]


# ------------------------------------------------------------- the scheduler that works with the frames

def task_sched(t, n, kind, lshape, free, frames, updates):
    a = (n, kind, lshape, free, frames, updates)

    def run():
        return sched.claims(sched.history(R.var, *a), updates)

    def claims(res):
        bad = [(w, [], False) for w, g in res if not g]
        return bad or [('the local problem avoids what its frames list, frames follow each other and are handed over when entered (%d claims)' % len(res), [], True)]
    decide(t, 'sched:%d-%s%s-%s' % (n, kind, '-L' if lshape else '', 'freeT' if free else 'fixedT'), [], run, claims, 'sched', extra=list(a), max_paths=20000)


def replay_sched(case):
    a = case['extra']
    try:
        with env.unpatched():
            res = sched.claims(sched.history(sched.numbers(case['model']), *a), a[-1])
    except Exception as e:
        return False, 'the scheduler raises %r with %r' % (e, case['model'])
    bad = [w for w, g in res if not g]
    return not bad, 'answers of the frames %r: %s' % (case['model'], '; '.join(bad) or 'as claimed')


def tasks(tier, seed):
    out = []
    for n, kind, l, free, frames, up in SCHED + ([(2, 'shift', False, True, 4, 3), (3, 'shift', False, True, 4, 2), (1, 'corridor', True, True, 4, 4)] if tier == 'thorough' else []):
        out.append(('sched-%d-%s%s-%s-%d-%d' % (n, kind, '-L' if l else '', 'free' if free else 'fixed', frames, up), ('sched', n, kind, l, free, frames, up)))
    for k in ('rect', 'square', 'circle', 'still', 'moves'):
        out.append(('listed-%s' % k, ('listed', k)))
    for k, w, turn in (('rect', 'a', 0.), ('circle', 'a', 0.), ('rect', 'b', 0.), ('rect', 'a', 0.6)) + ((('circle', 'c', 0.), ('rect', 'c', -1.1)) if tier == 'thorough' else ()):
        for free in FREE:
            if free != 'size' or not turn:
                out.append(('moving-%s-%s-%g-%s' % (k, w, turn, free), ('moving', k, w, turn, free)))
    for m, n in (('move_point', 2), ('move_frame', 2), ('move_point', 3)):
        for which in (0, 1):
            out.append(('adjust-%s-%d-%d' % (m, n, which), ('adjust', m, n, which)))
    cor = [('straight', 'rect', 'none'), ('up', 'circle', 'none'), ('diag', 'rect', 'none'), ('corner', 'rect', 'wall'), ('zigzag', 'circle', 'ledge'), ('zigzag', 'rect', 'none'), ('back', 'square', 'two'), ('near', 'rect', 'none'),
           ('straight', 'fixed', 'floor'), ('back', 'fixed', 'wall'), ('diag', 'circle', 'floor')]
    for p, k, x in cor:
        for fine in ((False, True) if k == 'fixed' or tier == 'thorough' else (False,)):
            out.append(('corridor-%s-%s-%s%s' % (p, k, x, '-fine' if fine else ''), ('corridor', p, k, x, fine)))
    for n in LS:
        out.append(('lshape-%s' % n, ('lshape', n, 'rect')))
    for n in SHIFT:
        out.append(('shift-%s' % n, ('shift', n)))
    return out
