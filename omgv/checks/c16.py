"""C16: geometry predicates and shape data agree with plane geometry."""
import math
import numpy as np
from .. import env, expr
from ..expr import R, lift, band, bor, bnot, liftb, fun, substitute, symvec
from ..solver import Explorer, prove, check
from ..norm import Norm
from ..env import omg_modules, patched, sym_modules, NumpyProxy
import omgtools as omg
import omgtools.basics.geometry as geo
import omgtools.basics.shape as shp
from omgtools.environment.obstacle import Obstacle, Obstacle2D

INFO = dict(
    explanation='the predicates of basics.geometry and the shape classes run on symbolic points, positions, sizes and orientations; on every '
                'path the answer is compared by z3 with the definition (existence of a common point, signed distance, convex combination)',
    bounds=['coordinates and sizes in [-10, 10], sizes above 0.01', 'polygons: triangle with free vertices, rectangle with free size and '
            'orientation, regular polygons with 3-8 sides and free radius', 'circle against polygon: rectangles with free size and circle radius, '
            'a turned rectangle (any orientation) and three polygons with slanted sides against circles of radius one', 'moving point: horizon up to 2 s (quick) / 5 s',
            'overlaps_with: two circles, two axis-parallel rectangles of any size and place, a circle of any size and place and one rectangle; is_outside_of: any body, any room'],
    outside=['configurations within 1e-5 of a boundary contact', 'floating-point rounding',
             'distance_to_rectangle (nothing calls it and no shape or obstacle has the attributes it reads)',
             'polygons given counter-clockwise (the library convention is clockwise)', 'drawing accuracy between the sampled points'],
    stubs=['sine and cosine of multiples of a quarter turn are exact; those of symbolic angles are any pair on the unit circle'],
    assumptions=['polygon vertices are given clockwise and strictly convex'])

LIM = 10


class Exact(NumpyProxy):
    """sine and cosine at multiples of a quarter turn are exact"""

    @staticmethod
    def _q(x):
        k = x / (0.5 * np.pi)
        return int(round(k)) % 4 if abs(k - round(k)) < 1e-12 else None

    def sin(self, x, *a):
        if isinstance(x, (int, float)):
            q = self._q(x)
            return np.sin(x) if q is None else float([0, 1, 0, -1][q])
        return x.sin() if isinstance(x, R) else np.sin(x)

    def cos(self, x, *a):
        if isinstance(x, (int, float)):
            q = self._q(x)
            return np.cos(x) if q is None else float([1, 0, -1, 0][q])
        return x.cos() if isinstance(x, R) else np.cos(x)

    def _ext(self, x, axis, up):
        a = np.asarray(x)
        if a.dtype != object:
            return (np.amax if up else np.amin)(a, axis=axis)
        if axis is None:
            a, axis = a.ravel(), 0
        rows = list(np.moveaxis(a, axis, 0))
        if len(rows) > 50:
            rows = self._thin(rows, up)
        best = rows[0]
        pick = np.frompyfunc(lambda u, v: expr.ite((u > v) if up else (u < v), lift(u), lift(v)) if u is not v else u, 2, 1)
        for r in rows[1:]:
            best = pick(best, r)
        return best

    @staticmethod
    def _thin(rows, up):
        """multiples c*v of one positive symbol v: only the extreme c can be the extreme value"""
        cols = []
        for col in zip(*rows):
            best = {}
            for v in col:
                v = lift(v)
                if v.isconst:
                    k, c = None, v.value
                elif v.op == 'v':
                    k, c = v.id, 1
                elif v.op == '*' and len(v.args) == 2 and v.args[0].isconst and v.args[1].op == 'v':
                    k, c = v.args[1].id, v.args[0].value
                else:
                    raise expr.Unsupported('extreme of %s' % expr.show(v))
                if k not in best or (c > best[k][0]) == up:
                    best[k] = (c, v)
            cols.append([v for c, v in best.values()])
        n = max(len(c) for c in cols)
        return [np.array([c[min(k, len(c) - 1)] for c in cols], dtype=object) for k in range(n)]

    def amax(self, x, axis=None, **k):
        return self._ext(x, axis, True)
    max = amax

    def amin(self, x, axis=None, **k):
        return self._ext(x, axis, False)
    min = amin


EX = Exact()


def patches():
    return [(m, n, EX if v is env.NP else v) for m, n, v in sym_modules(omg_modules())]


class Turn(object):
    """a symbolic angle: its sine and cosine are free numbers on the unit circle"""

    def __init__(self, name):
        self.th = R.var(name)
        self.c, self.s = R.var('cos_' + name), R.var('sin_' + name)
        self.sub = {fun('cos', self.th): self.c, fun('sin', self.th): self.s}
        self.on = self.c * self.c + self.s * self.s == 1


def angle_of(m, name):
    return math.atan2(m.get('sin_' + name, 0.), m.get('cos_' + name, 1.))


def box(*vs):
    return [c for v in vs for x in np.ravel(v) for c in (x >= -LIM, x <= LIM)]


def size(*vs):
    return [c for x in vs for c in (x >= 0.01, x <= LIM)]


def decide(t, key, assum, fn, claims, kind, extra=None, turns=(), want=(), timeout=30000, max_paths=4000, tactic=None,
           windows=0):
    """every path of fn(): each claim (what, assumptions, goal) of claims(result) must follow; want: results that must occur"""
    sub = {k: v for tr in turns for k, v in tr.sub.items()}
    side = [tr.on for tr in turns]
    seen = set()
    nm = Norm([(tr.c, tr.s) for tr in turns])

    def S(xs):
        xs = [liftb(x) for x in xs]
        xs = [nm(x) for x in (substitute(xs, sub) if sub else xs)]
        return xs

    def case(m):
        return dict(kind=kind, extra=extra, model={k: float(v) for k, v in m.items()})
    with patched(patches()):
        for pc, res, exc in Explorer(list(assum), timeout=20000, max_paths=max_paths, norm=Norm(), tactic=tactic).run(fn):
            pcs = S(pc) + side
            if exc is not None:
                v, m = check(pcs, 20000)
                if v == 'sat':
                    t.counterexample(key + ':exception', '%s raises %r' % (key, exc), case(m))
                elif v == 'unknown':
                    t.unknown('%s raises %r on a path' % (key, exc))
                continue
            if isinstance(res, (bool, type(None), str)):
                seen.add(res)
            for what, more, goal in claims(res):
                a = S(more)
                if windows and len(pcs) > windows:
                    # a few neighbouring conditions of the path often suffice
                    g = S([bor(*goal) if isinstance(goal, tuple) else goal])[0]
                    k = len(pcs)
                    if any(check(pcs[max(0, e - windows):e] + a + nm.side() + [bnot(g)], 400, tactic='qfnra-nlsat')[0] == 'unsat'
                           for e in range(k, 0, -max(1, windows // 2))):
                        t.ok('%s: %s' % (key, what))
                        continue
                if isinstance(goal, tuple):     # one of several alternatives: easier one by one
                    gs = S(goal)
                    h = pcs + a + nm.side()
                    verdict, m = 'unknown', None
                    for ms, tac in ((200, None), (500, 'qfnra-nlsat'), (3000, None)):
                        if any(check(h + [bnot(g)], ms, tactic=tac)[0] == 'unsat' for g in gs):
                            verdict = 'proved'
                            break
                    if verdict != 'proved':
                        verdict, m = prove(h, bor(*gs), timeout)
                else:
                    g = S([goal])[0]
                    verdict, m = prove(pcs + a + nm.side(), g, timeout)
                if verdict == 'proved':
                    t.ok('%s: %s' % (key, what))
                elif verdict == 'refuted':
                    t.counterexample('%s:%s' % (key, what.replace(' ', '-')), '%s: %s' % (key, what), case(m))
                else:
                    t.unknown('%s: %s' % (key, what))
    for w in want:
        t.reach(w in seen, '%s answers %s' % (key, w))


def pts(name, n):
    return [[R.var('%s%d_%d' % (name, k, j)) for j in range(2)] for k in range(n)]


def num_pts(m, name, n):
    return [[m.get('%s%d_%d' % (name, k, j), 0.) for j in range(2)] for k in range(n)]


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


# ----------------------------------------------------------- lines and segments

def task_lines(t, what):
    p = pts('p', 4)
    asm = box(p)
    if what == 'ccw':
        decide(t, 'order_is_ccw', asm, lambda: bool(geo.order_is_ccw(*p[:3])),
               lambda r: [('counterclockwise exactly when the cross product is positive', [], (cross(*p[:3]) > 0) if r else (cross(*p[:3]) <= 0))],
               'ccw', want=(True, False))
    elif what == 'segments':
        # without loss of generality for the proof of absence: the four orientations are not degenerate
        gen = [bor(cross(a, b, c) > 0, cross(a, b, c) < 0) for a, b, c in
               ((p[0], p[2], p[3]), (p[1], p[2], p[3]), (p[0], p[1], p[2]), (p[0], p[1], p[3]))]
        l, u = R.var('l'), R.var('u')
        meet = band(*[p[0][k] + l * (p[1][k] - p[0][k]) == p[2][k] + u * (p[3][k] - p[2][k]) for k in range(2)])

        def claims(r):
            if r:
                # witness by Cramer's rule: both parameters in [0, 1]
                d = (p[1][0] - p[0][0]) * (p[3][1] - p[2][1]) - (p[1][1] - p[0][1]) * (p[3][0] - p[2][0])
                n1 = (p[2][0] - p[0][0]) * (p[3][1] - p[2][1]) - (p[2][1] - p[0][1]) * (p[3][0] - p[2][0])
                n2 = (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]) - (p[2][1] - p[0][1]) * (p[1][0] - p[0][0])
                return [('segments that are said to intersect have a common point', [],
                         bor(band(d > 0, n1 >= 0, n1 <= d, n2 >= 0, n2 <= d), band(d < 0, n1 <= 0, n1 >= d, n2 <= 0, n2 >= d)))]
            return [('segments that are said not to intersect have no common point', [l >= 0, l <= 1, u >= 0, u <= 1], bnot(meet))]
        decide(t, 'intersect_line_segments', asm + gen, lambda: bool(geo.intersect_line_segments([p[0], p[1]], [p[2], p[3]])), claims,
               'segments', want=(True, False), timeout=60000)
    elif what == 'lines':
        d = (p[0][0] - p[1][0]) * (p[2][1] - p[3][1]) - (p[0][1] - p[1][1]) * (p[2][0] - p[3][0])
        q = [R.var('q0'), R.var('q1')]

        def claims(r):
            if r is None:
                return [('no intersection only for parallel lines', [], d == 0)]
            c = [('the intersection point lies on line %d' % i, [], (cross(a, b, r) == 0))
                 for i, (a, b) in enumerate(((p[0], p[1]), (p[2], p[3])))]
            return c + [('lines that are not parallel', [], bor(d < 0, d > 0))]
        decide(t, 'intersect_lines', asm, lambda: geo.intersect_lines([p[0], p[1]], [p[2], p[3]]), claims, 'lines', want=(None,), timeout=60000)
    elif what == 'distance':
        a, b, c = p[0], p[1], p[2]
        L = (b[0] - a[0])**2 + (b[1] - a[1])**2
        decide(t, 'distance_to_line', asm + [L > 0.0001], lambda: geo.distance_to_line(c, [a, b]),
               lambda r: [('square of the distance', [], r * r * L == cross(a, b, c)**2), ('not negative', [], r >= 0)], 'distance')
        for n in (2, 3):
            v, w = symvec('v', n), symvec('w', n)
            decide(t, 'distance_between_points %dD' % n, box(v, w), lambda: geo.distance_between_points(v, w),
                   lambda r: [('square of the distance', [], r * r == sum((x - y)**2 for x, y in zip(v, w))), ('not negative', [], r >= 0)],
                   'between', n)


def replay_ccw(case):
    p = num_pts(case['model'], 'p', 4)
    got, exp = bool(geo.order_is_ccw(*p[:3])), cross(*p[:3]) > 0
    return got == exp, 'points %s: counterclockwise=%s, cross product %g' % (p[:3], got, cross(*p[:3]))


def replay_segments(case):
    from fractions import Fraction as F
    p = [[F(x) for x in q] for q in num_pts(case['model'], 'p', 4)]
    s = lambda x: (x > 0) - (x < 0)
    o = [s(cross(p[0], p[2], p[3])), s(cross(p[1], p[2], p[3])), s(cross(p[0], p[1], p[2])), s(cross(p[0], p[1], p[3]))]
    if 0 in o:
        return None, 'degenerate after rounding'
    exp = o[0] != o[1] and o[2] != o[3]
    got = bool(geo.intersect_line_segments([p[0], p[1]], [p[2], p[3]]))
    return got == exp, 'segments %s: intersect=%s, expected %s' % ([[float(x) for x in q] for q in p], got, exp)


def replay_lines(case):
    p = num_pts(case['model'], 'p', 4)
    d = (p[0][0] - p[1][0]) * (p[2][1] - p[3][1]) - (p[0][1] - p[1][1]) * (p[2][0] - p[3][0])
    r = geo.intersect_lines([p[0], p[1]], [p[2], p[3]])
    if r is None:
        return abs(d) < 1e-9, 'lines %s: no intersection, determinant %g' % (p, d)
    if abs(d) < 1e-6:
        return None, 'nearly parallel'
    e = [cross(p[0], p[1], r), cross(p[2], p[3], r)]
    return max(abs(x) for x in e) < 1e-6 * (1 + max(abs(x) for x in r)), 'lines %s: intersection %s, off the lines by %s' % (p, r, e)


def replay_distance(case):
    a, b, c = num_pts(case['model'], 'p', 4)[:3]
    r = geo.distance_to_line(c, [a, b])
    exp = abs(cross(a, b, c)) / math.hypot(b[0] - a[0], b[1] - a[1])
    return abs(r - exp) < 1e-7 * (1 + exp), 'distance of %s to line %s: %g, expected %g' % (c, [a, b], r, exp)


def replay_between(case):
    m, n = case['model'], case['extra']
    v, w = [[m.get(str(s), 0.) for s in (x.args[0] for x in symvec(k, n))] for k in 'vw']
    r = geo.distance_between_points(v, w)
    exp = math.sqrt(sum((x - y)**2 for x, y in zip(v, w)))
    return abs(r - exp) < 1e-7 * (1 + exp), 'distance between %s and %s: %g, expected %g' % (v, w, r, exp)


# ------------------------------------------------------------------ polygons

class Poly(object):
    """a polygon shape built by the real code from symbolic data, and its vertices by definition"""

    def __init__(self, kind, radius=None, dims=None):
        self.kind = kind
        self.turns, self.asm = [], []
        if kind in FIXED:
            self.p = [[lift(x) for x in q] for q in FIXED[kind]]
        if kind == 'segment':
            self.p = [[lift(0), lift(0)], [R.var('t1_0'), R.var('t1_1')]]
            self.asm = box(self.p[1]) + [self.p[1][0]**2 + self.p[1][1]**2 >= 0.1]
        if kind == 'corner':
            # a triangle with one free vertex
            self.p = [[lift(0), lift(0)], [lift(1), lift(2)], [R.var('t2_0'), R.var('t2_1')]]
            self.asm = box(self.p[2]) + [cross(*self.p) <= -0.1]
        if kind == 'triangle':
            self.p = pts('t', 3)
            # clockwise, not flat
            self.asm = box(self.p) + [cross(*self.p) <= -0.1]
        elif kind in ('rectangle', 'turned'):
            self.w, self.h = (R.var('w'), R.var('h')) if dims is None else map(lift, dims)
            self.asm = size(self.w, self.h)
            if kind == 'turned':
                self.turns = [Turn('th')]
        elif kind.startswith('regular'):
            self.r = R.var('r') if radius is None else lift(radius)
            self.asm = size(self.r)
        self.X = [R.var('X'), R.var('Y')]
        self.asm += box(self.X)

    def build(self):
        if hasattr(self, 'p'):
            v = np.empty((2, len(self.p)), object)
            for k in range(len(self.p)):
                v[0, k], v[1, k] = self.p[k]
            return shp.Polyhedron(v)
        if self.kind == 'rectangle':
            return shp.Rectangle(self.w, self.h)
        if self.kind == 'turned':
            return shp.Rectangle(self.w, self.h, self.turns[0].th)
        return shp.RegularPolyhedron(self.r, int(self.kind[7:]))

    def vertices(self):
        if hasattr(self, 'p'):
            return self.p
        if self.kind in ('rectangle', 'turned'):
            c, s = (self.turns[0].c, self.turns[0].s) if self.turns else (1, 0)
            w, h = self.w * 0.5, self.h * 0.5
            return [[c * x - s * y, s * x + c * y] for x, y in ((w, h), (w, -h), (-w, -h), (-w, h))]
        n = int(self.kind[7:])
        # sides normal to the directions l*2*pi/n (0: up), so that vertices sit half a step further
        a = [(l + 0.5) * 2 * math.pi / n for l in range(n)]
        return [[self.r * math.sin(x), self.r * math.cos(x)] for x in a]


def build_num(kind, m):
    if kind == 'triangle':
        return shp.Polyhedron(np.array(num_pts(m, 't', 3)).T), np.array(num_pts(m, 't', 3)).T
    if kind in FIXED:
        v = np.array(FIXED[kind], float).T
        return shp.Polyhedron(v), v
    if kind == 'segment':
        v = np.array([[0., 0.], num_pts(m, 't', 2)[1]]).T
        return shp.Polyhedron(v), v
    if kind == 'corner':
        v = np.array([[0., 0.], [1., 2.], num_pts(m, 't', 3)[2]]).T
        return shp.Polyhedron(v), v
    if kind in ('rectangle', 'turned'):
        w, h = m.get('w', 1.), m.get('h', 1.)
        th = angle_of(m, 'th') if kind == 'turned' else 0.
        v = np.array([[w, w, -w, -w], [h, -h, -h, h]]) * 0.5
        c, s = math.cos(th), math.sin(th)
        return (shp.Rectangle(w, h, th) if kind == 'turned' else shp.Rectangle(w, h)), np.array([[c, -s], [s, c]]).dot(v)
    n, r = int(kind[7:]), m.get('r', 1.)
    a = (np.arange(n) + 0.5) * 2 * math.pi / n
    return shp.RegularPolyhedron(r, n), r * np.vstack([np.sin(a), np.cos(a)])


FIXED = dict(pentagon=[(0, 2), (2, 1), (1, -2), (-1, -1.5), (-2, 0)], tri=[(0, 0), (1, 2), (3, -1)], box=[(1.5, 1), (1.5, -1), (-1.5, -1), (-1.5, 1)],
             kite=[(0, 2), (2, 0), (0, -1.5), (-1, 0)])
KINDS = ('triangle', 'rectangle', 'turned', 'regular3', 'regular4', 'regular5', 'regular6', 'regular8')
EPS = 1e-5
AT = (1.5, -2.25)


def task_inside(t, kind):
    P = Poly(kind, 1.5)
    q = [R.var('q0'), R.var('q1')]
    mg = R.var('margin') if kind not in ('triangle', 'corner', 'pentagon') else lift(0)
    if kind in ('rectangle', 'turned'):
        # the point is described in the frame of the rectangle
        c, s = (P.turns[0].c, P.turns[0].s) if P.turns else (1, 0)
        point = [P.X[0] + c * q[0] - s * q[1], P.X[1] + s * q[0] + c * q[1]]
        ext = (P.w * 0.5, P.h * 0.5)
        inside = lambda tol: band(*[z for k in range(2) for z in (q[k] <= ext[k] + mg + tol, q[k] >= -ext[k] - mg - tol)])
    else:
        v = P.vertices()
        point = [P.X[0] + q[0], P.X[1] + q[1]]
        # on the inner side of each side, by the (signed) distance: cross <= margin*length
        n = len(v)

        def inside(tol):
            out = []
            for k in range(n):
                a, b = v[k], v[(k + 1) % n]
                if hasattr(P, 'p'):
                    # positive: outside (clockwise order)
                    out.append(cross(a, b, q) <= 0 if tol >= 0 else cross(a, b, q) < 0)
                else:
                    L = 2 * math.sin(math.pi / n)
                    out.append(cross(a, b, q) <= (mg + tol) * (P.r * L))
            return band(*out)
    asm = P.asm + box(q) + [mg >= 0, mg <= 2]

    def run():
        return bool(geo.point_in_polyhedron(point, P.build(), P.X, mg))

    def sub(xs):
        return xs

    def claims(r):
        if r:
            return [('points reported inside are inside', [], inside(EPS))]
        return [('points reported outside are outside', [], bnot(inside(-EPS)))]
    # the terms for cos/sin of the turn stand in for themselves in the point: run on the angle, compare on the pair
    if P.turns:
        tr = P.turns[0]
        back = {tr.c: fun('cos', tr.th), tr.s: fun('sin', tr.th)}
        point = substitute([lift(x) for x in point], back)
    decide(t, 'point_in_polyhedron(%s)' % kind, asm, run, claims, 'inside', kind, P.turns, want=(True, False), timeout=60000)


def signed_out(v, q):
    """largest distance of q beyond a side (clockwise convex polygon)"""
    n = v.shape[1]
    return max(cross(v[:, k], v[:, (k + 1) % n], q) / np.linalg.norm(v[:, (k + 1) % n] - v[:, k]) for k in range(n))


def replay_inside(case):
    m, kind = dict(case['model']), case['extra']
    m.setdefault('r', 1.5)
    if kind == 'turned' and 'rad' in m:
        m.update(w=2., h=1.)
    S, v = build_num(kind, m)
    q = np.array([m.get('q0', 0.), m.get('q1', 0.)])
    if kind == 'turned':
        th = angle_of(m, 'th')
        q = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]]).dot(q)
    X = np.array([m.get('X', 0.), m.get('Y', 0.)])
    mg = m.get('margin', 0.)
    d = signed_out(v, q) - mg
    if abs(d) < 1e-7:
        return None, 'on the boundary'
    got = bool(geo.point_in_polyhedron(X + q, S, X, mg))
    return got == (d < 0), 'point %s, polygon %s at %s, margin %g: inside=%s, distance beyond the sides %g' % (X + q, v.tolist(), X, mg, got, d)


class FakeObstacle(object):
    def __init__(self, shape, pos):
        self.shape = shape
        p = np.empty((len(pos), 1), object)
        for k in range(len(pos)):
            p[k, 0] = pos[k]
        self.signals = {'position': p}


def task_circle(t, kind):
    """circle_polyhedron_intersection: within reach of the boundary"""
    P = Poly(kind, 1.5, (2, 1) if kind == 'turned' else None)
    q, r = [R.var('q0'), R.var('q1')], R.var('rad')
    if kind != 'box':
        # the position is free for the box; elsewhere it is a number
        P.X = [lift(x) for x in AT]
    asm = P.asm + box(q) + size(r)
    if kind not in ('box', 'rectangle'):
        # slanted sides: radius one
        r = lift(1)
    if hasattr(P, 'p'):
        v = P.p
        center = [P.X[0] + q[0], P.X[1] + q[1]]
    elif kind in ('rectangle', 'turned'):
        w, h = P.w * 0.5, P.h * 0.5
        v = [[w, h], [w, -h], [-w, -h], [-w, h]]
        c, s = (fun('cos', P.turns[0].th), fun('sin', P.turns[0].th)) if P.turns else (1, 0)
        center = [P.X[0] + c * q[0] - s * q[1], P.X[1] + s * q[0] + c * q[1]]
    else:
        v = P.vertices()
        center = [P.X[0] + q[0], P.X[1] + q[1]]
    n = len(v)

    def dist2(x):
        return (x[0] - q[0])**2 + (x[1] - q[1])**2

    def near(tol):
        """some point of the boundary is within r+tol: by cases, a vertex or the foot of the perpendicular on a side"""
        out = []
        for k in range(n):
            a, b = v[k], v[(k + 1) % n]
            out.append(dist2(a) <= (r + tol)**2)
            L2 = (b[0] - a[0])**2 + (b[1] - a[1])**2
            dot = (q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])
            out.append(band(dot >= 0, dot <= L2, cross(a, b, q)**2 <= (r + tol)**2 * L2))
        return out

    def run():
        return bool(geo.circle_polyhedron_intersection(mk(center), P.build(), P.X))

    def mk(center):
        c = shp.Circle(1.)
        c.radius = r
        return FakeObstacle(c, center)

    def claims(res):
        if res:
            return [('circles reported to touch the boundary reach it', [], tuple(near(1e-4)))]
        # near(): a vertex, or the foot of the perpendicular on a side, is within reach
        return [('circles reported clear of the boundary do not reach it (%s %d)' % (('corner', 'side')[k % 2], k // 2), [lift(r) >= 2 * EPS], bnot(c))
                for k, c in enumerate(near(-EPS))]
    decide(t, 'circle_polyhedron_intersection(%s)' % kind, asm, run, claims, 'circle', kind, P.turns, want=(True, False), timeout=20000, windows=6)


def boundary_distance(v, q):
    n = v.shape[1]
    best = np.inf
    for k in range(n):
        a, b = v[:, k], v[:, (k + 1) % n]
        u = np.clip(np.dot(q - a, b - a) / np.dot(b - a, b - a), 0, 1)
        best = min(best, np.linalg.norm(a + u * (b - a) - q))
    return best


def replay_circle(case):
    m, kind = dict(case['model']), case['extra']
    m.setdefault('r', 1.5)
    if kind == 'turned' and 'rad' in m:
        m.update(w=2., h=1.)
    S, v = build_num(kind, m)
    q = np.array([m.get('q0', 0.), m.get('q1', 0.)])
    if kind == 'turned':
        th = angle_of(m, 'th')
        q = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]]).dot(q)
    X = np.array([m.get('X', 0.), m.get('Y', 0.)] if kind == 'box' else AT)
    r = m.get('rad', 1.)
    o = Obstacle({'position': list(X + q)}, shp.Circle(r))
    got = bool(geo.circle_polyhedron_intersection(o, S, X))
    d = boundary_distance(v, q) - r
    if abs(d) < (1e-5 if got else 1e-7):
        return None, 'in contact'
    return got == (d < 0), 'circle of radius %g at %s, polygon %s: touches=%s, gap to the boundary %g' % (r, q, v.tolist(), got, d)


# ---------------------------------------------------------------- obstacles that meet

def meet_bodies(kinds, val):
    """two obstacles: (shape, centre, half sizes or radius)"""
    out = []
    for j, k in enumerate(kinds):
        pos = [val('m%d%s' % (j, c)) for c in 'xy']
        if k == 'r' and 'c' in kinds:
            # beside a circle: a rectangle of one size at one place (other sizes: circle_polyhedron_intersection)
            out.append((shp.Rectangle(2., 1.2), [0.3, -0.7], (1., 0.6)))
        elif k == 'c':
            r = val('mr%d' % j)
            s = shp.Circle(1.)
            s.radius = r
            out.append((s, pos, r))
        else:
            w, h = val('mw%d' % j), val('mh%d' % j)
            out.append((shp.Rectangle(w, h), pos, (w * 0.5, h * 0.5)))
    return out


def meets(kinds, bodies, tol):
    """the closed sets, blown up by tol, have a common point: any of these cases"""
    (_, p, e), (_, q, f) = bodies
    d = [lift(q[k]) - p[k] for k in range(2)]
    if kinds == 'cc':
        return [d[0] * d[0] + d[1] * d[1] <= (lift(e) + f + tol)**2]
    if kinds == 'rr':
        return [band(*[z for k in range(2) for z in (d[k] <= lift(e[k]) + f[k] + tol, -d[k] <= lift(e[k]) + f[k] + tol)])]
    if kinds == 'cr':
        e, f = f, e
    # the rectangle with half sizes e, the disc with radius f: the centre is in one of the two slabs or near a corner
    ax = [bor_abs(d[k]) for k in range(2)]
    out = []
    for k in range(2):
        out.append(band(*(ax[k](lift(e[k]) + f + tol) + ax[1 - k](lift(e[1 - k])))))
    for sx in (1, -1):
        for sy in (1, -1):
            out.append(((d[0] - sx * lift(e[0]))**2 + (d[1] - sy * lift(e[1]))**2) <= (lift(f) + tol)**2)
    return out


def bor_abs(x):
    return lambda lim: [x <= lim, -x <= lim]


def task_meet(t, kinds):
    val = R.var
    with env.patched(patches()):
        bodies = meet_bodies(kinds, val)
    asm = [z for _, p, e in bodies if isinstance(p[0], R) for z in box(p) + size(*(e if isinstance(e, tuple) else (e,)))]

    def run():
        o = [FakeObstacle(s, p) for s, p, _ in bodies]
        return bool(Obstacle2D.overlaps_with(o[0], o[1]))

    def claims(r):
        if r:
            return [('obstacles reported to overlap do', [], tuple(meets(kinds, bodies, 1e-4)))]
        return [('obstacles reported apart are (%d)' % k, [], bnot(c)) for k, c in enumerate(meets(kinds, bodies, -EPS))]
    decide(t, 'overlaps_with(%s)' % kinds, asm, run, claims, 'meet', kinds, want=(True, False), timeout=20000, windows=0)


def replay_meet(case):
    m, kinds = case['model'], case['extra']
    bodies = meet_bodies(kinds, lambda n: float(m.get(n, 0. if n[-1] in 'xy' else 1.)))
    o = [Obstacle({'position': list(p)}, shp.Circle(e) if k == 'c' else shp.Rectangle(2 * e[0], 2 * e[1])) for k, (_, p, e) in zip(kinds, bodies)]
    got = bool(o[0].overlaps_with(o[1]))
    wide, tight = [any(bool(c) for c in meets(kinds, bodies, x)) for x in (1e-5, -1e-7)]
    if wide != tight:
        return None, 'in contact'
    return got == wide, 'obstacles %r: overlaps_with says %s, they %s' % ([(k, p, e) for k, (_, p, e) in zip(kinds, bodies)], got, 'overlap' if wide else 'are apart')


def task_room(t, kind):
    """is_outside_of: a body that reaches beyond a wall of a rectangular room (position free)"""
    val = R.var
    with env.patched(patches()):
        s, p, e = meet_bodies(kind, val)[0]
        room = {'shape': shp.Rectangle(val('rw'), val('rh')), 'position': [val('rx'), val('ry')]}
    half = [val('rw') * 0.5, val('rh') * 0.5]
    ext = [e, e] if kind == 'c' else e
    asm = box(p) + box(room['position']) + size(val('rw'), val('rh')) + size(*(e if isinstance(e, tuple) else (e,)))
    out = lambda tol: bor(*[z for k in range(2) for z in (p[k] + ext[k] > room['position'][k] + half[k] + tol, p[k] - ext[k] < room['position'][k] - half[k] - tol)])

    def run():
        return bool(Obstacle2D.is_outside_of(FakeObstacle(s, p), room))

    def claims(r):
        return [('obstacles reported outside reach beyond a wall', [], out(-EPS))] if r else [('obstacles reported inside stay within the walls', [], bnot(out(EPS)))]
    decide(t, 'is_outside_of(%s)' % kind, asm, run, claims, 'room', kind, want=(True, False), timeout=20000)


def replay_room(case):
    m, kind = case['model'], case['extra']
    g = lambda n: float(m.get(n, 0. if n[-1] in 'xy' else 1.))
    _, p, e = meet_bodies(kind, g)[0]
    room = {'shape': shp.Rectangle(g('rw'), g('rh')), 'position': [g('rx'), g('ry')]}
    o = Obstacle({'position': list(p)}, shp.Circle(e) if kind == 'c' else shp.Rectangle(2 * e[0], 2 * e[1]))
    ext = [e, e] if kind == 'c' else e
    d = max(abs(p[k] - room['position'][k]) + ext[k] - g(('rw', 'rh')[k]) / 2 for k in range(2))
    if abs(d) < 1e-7:
        return None, 'at the wall'
    got = bool(o.is_outside_of(room))
    return got == (d > 0), '%s %r at %r, room %g x %g at %r: outside=%s, %g beyond a wall' % (kind, e, p, g('rw'), g('rh'), room['position'], got, d)


# ---------------------------------------------------------------- rectangles

def task_pointrect(t, mode, hor=2.):
    lims = [R.var(n) for n in ('xmin', 'ymin', 'xmax', 'ymax')]
    p, d = [R.var('p0'), R.var('p1')], R.var('dist')
    asm = box(lims, p) + [lims[2] - lims[0] >= 0.01, lims[3] - lims[1] >= 0.01, d >= 0, d <= 5]
    ins = lambda q, dd: [band(q[k] >= lims[k] + dd, q[k] <= lims[k + 2] - dd) for k in range(2)]
    if mode == 'fixed':
        decide(t, 'point_in_rectangle', asm, lambda: bool(geo.point_in_rectangle(p, lims, distance=d)),
               lambda r: [('inside exactly when both coordinates are', [], band(*ins(p, d)) if r else bnot(band(*ins(p, d))))], 'pointrect', mode,
               want=(True, False))
    elif mode == 'xy':
        def run():
            r = geo.point_in_rectangle(p, lims, distance=d, xy_check=True)
            return [bool(x) for x in r]
        decide(t, 'point_in_rectangle(xy)', asm, run,
               lambda r: [('answer per direction %d' % k, [], ins(p, d)[k] if r[k] else bnot(ins(p, d)[k])) for k in range(2)], 'pointrect', mode)
    else:
        T, v = R.var('T'), [R.var('v0'), R.var('v1')]
        s, s2 = R.var('s'), R.var('s2')
        asm = asm + box(v) + [T >= 0, T <= hor]
        at = lambda x: [p[k] + x * v[k] for k in range(2)]

        def claims(r):
            if r:
                return []
            sub = [s >= 0, s2 <= T, s2 - s >= 0.5]
            return [('a point inside at the start is seen', [], bnot(band(*ins(p, 0)))),
                    ('a point inside at the end is seen', [], bnot(band(*ins(at(T), 1e-6)))),
                    ('a point inside for half a second is seen', sub + ins(at(s), 1e-6), bnot(band(*ins(at(s2), 1e-6))))]

        def run():
            return bool(geo.point_in_rectangle(p, lims, T, v))
        decide(t, 'point_in_rectangle(moving)', asm, run, claims, 'pointrect', mode, want=(True, False), timeout=60000)
        # and a positive answer needs an instant inside
        k = R.var('k')

        def claims2(r):
            return [] if r is None else [('reported inside only if inside at some instant of the horizon', [], r)]

        def run2():
            # the path condition of a positive answer contains the instant at which the point was found inside
            if not geo.point_in_rectangle(p, lims, T, v):
                return None
            # inside the slab for x during [a, b], for y during [c, d]: overlap within [0, T]
            return overlap(p, v, lims, T)
        decide(t, 'point_in_rectangle(moving, inside)', asm, run2, claims2, 'pointrect', mode, timeout=60000)


def overlap(p, v, lims, T):
    """the segment p + [0,T] v meets the rectangle: separating axis test for a segment and a box"""
    c = []
    for k in range(2):
        c += [bor(p[k] >= lims[k] - 1e-9, p[k] + T * v[k] >= lims[k] - 1e-9), bor(p[k] <= lims[k + 2] + 1e-9, p[k] + T * v[k] <= lims[k + 2] + 1e-9)]
    side = [v[0] * (y - p[1]) - v[1] * (x - p[0]) for x in (lims[0], lims[2]) for y in (lims[1], lims[3])]
    return band(*(c + [bor(*[x >= -1e-9 for x in side]), bor(*[x <= 1e-9 for x in side])]))


def replay_pointrect(case):
    m, mode = case['model'], case['extra']
    lims = [m.get(n, 0.) for n in ('xmin', 'ymin', 'xmax', 'ymax')]
    p, d = [m.get('p0', 0.), m.get('p1', 0.)], m.get('dist', 0.)
    if mode in ('fixed', 'xy'):
        exp = [lims[k] + d <= p[k] <= lims[k + 2] - d for k in range(2)]
        if mode == 'fixed':
            got, exp = bool(geo.point_in_rectangle(p, lims, distance=d)), all(exp)
        else:
            got = [bool(x) for x in geo.point_in_rectangle(p, lims, distance=d, xy_check=True)]
        return got == exp, 'point %s, rectangle %s, distance %g: %s, expected %s' % (p, lims, d, got, exp)
    T, v = m.get('T', 0.), [m.get('v0', 0.), m.get('v1', 0.)]
    got = bool(geo.point_in_rectangle(p, lims, T, v))
    lo, hi = 0., T
    for k in range(2):
        if abs(v[k]) < 1e-12:
            if not lims[k] <= p[k] <= lims[k + 2]:
                lo, hi = 1., 0.
        else:
            a, b = sorted([(lims[k] - p[k]) / v[k], (lims[k + 2] - p[k]) / v[k]])
            lo, hi = max(lo, a), min(hi, b)
    desc = 'point %s moving at %s for %g s, rectangle %s: inside=%s; really inside during [%g, %g]' % (p, v, T, lims, got, lo, hi)
    if got:
        return lo <= hi + 1e-7, desc
    must = lo <= hi and (hi - lo >= 0.5 or lo <= 0. or hi >= T)
    return not must, desc


def task_overlap(t):
    w1, h1, w2, h2 = [R.var(n) for n in ('w1', 'h1', 'w2', 'h2')]
    a, b = symvec('a', 2), symvec('b', 2)
    asm = size(w1, h1, w2, h2) + box(a, b)
    q = [R.var('q0'), R.var('q1')]
    half = ((w1 * 0.5, h1 * 0.5), (w2 * 0.5, h2 * 0.5))
    inr = lambda x, pos, e, tol=0: band(*[z for k in range(2) for z in (x[k] - pos[k] <= e[k] + tol, x[k] - pos[k] >= -e[k] - tol)])

    def pair():
        return shp.Rectangle(w1, h1), shp.Rectangle(w2, h2)

    def run():
        s1, s2 = pair()
        return bool(geo.rectangles_overlap(s1, a, s2, b))

    def claims(r):
        if r:
            return [('overlapping rectangles: along %s the distance of the centres is at most the sum of the half sizes' % 'xy'[k], [],
                     band(a[k] - b[k] <= half[0][k] + half[1][k], b[k] - a[k] <= half[0][k] + half[1][k])) for k in range(2)]
        return [('rectangles reported apart have no common point', [inr(q, a, half[0], -1e-6)], bnot(inr(q, b, half[1], -1e-6)))]
    decide(t, 'rectangles_overlap', asm, run, claims, 'overlap', None, want=(True, False))

    def run2():
        s1, s2 = pair()
        try:
            return geo.compute_rectangle_overlap_center(s1, a, s2, b)
        except RuntimeError:
            return 'apart'

    def claims2(r):
        if isinstance(r, str):
            return [('refused only when the rectangles have no common point', [inr(q, a, half[0], -1e-6)], bnot(inr(q, b, half[1], -1e-6)))]
        # centre of the common region: every common point has its mirror image in the common region
        mir = [2 * r[k] - q[k] for k in range(2)]
        return [('the centre is in both rectangles', [], band(inr(r, a, half[0], 1e-9), inr(r, b, half[1], 1e-9))),
                ('the centre is the centre of the common region', [inr(q, a, half[0]), inr(q, b, half[1])],
                 band(inr(mir, a, half[0], 1e-9), inr(mir, b, half[1], 1e-9)))]
    decide(t, 'compute_rectangle_overlap_center', asm, run2, claims2, 'overlap', 'center', want=('apart',))


def replay_overlap(case):
    m = case['model']
    w1, h1, w2, h2 = [m.get(n, 1.) for n in ('w1', 'h1', 'w2', 'h2')]
    a, b = [np.array([m.get(x.args[0], 0.) for x in symvec(n, 2)]) for n in 'ab']
    lo = np.maximum(a - [w1 / 2, h1 / 2], b - [w2 / 2, h2 / 2])
    hi = np.minimum(a + [w1 / 2, h1 / 2], b + [w2 / 2, h2 / 2])
    if min(abs(hi - lo)) < 1e-9:
        return None, 'touching'
    exp = bool((hi > lo).all())
    s1, s2 = shp.Rectangle(w1, h1), shp.Rectangle(w2, h2)
    d = 'rectangles %gx%g at %s and %gx%g at %s' % (w1, h1, a, w2, h2, b)
    if case['extra'] is None:
        got = bool(geo.rectangles_overlap(s1, a, s2, b))
        return got == exp, '%s: overlap=%s, expected %s' % (d, got, exp)
    try:
        c = geo.compute_rectangle_overlap_center(s1, a, s2, b)
    except RuntimeError:
        return not exp, '%s: centre refused, overlap expected %s' % (d, exp)
    if not exp:
        return False, '%s: centre %s although apart' % (d, c)
    return bool(np.allclose(c, 0.5 * (lo + hi), atol=1e-6)), '%s: centre %s, expected %s' % (d, c, 0.5 * (lo + hi))


def task_pure(t):
    """asking a predicate does not change the shapes asked about"""
    w, h = R.var('w'), R.var('h')
    X, q = symvec('x', 2), symvec('q', 2)
    asm = size(w, h) + box(X, q)

    def run():
        S = shp.Rectangle(w, h)
        v0, x0 = S.vertices.copy(), list(X)
        geo.point_in_polyhedron(q, S, X)
        F = shp.Rectangle(3., 2.)
        f0 = F.vertices.copy()
        geo.circle_polyhedron_intersection(FakeObstacle(shp.Circle(1.), q), F, AT)
        return [x == y for x, y in zip(v0.ravel(), S.vertices.ravel())] + [lift(x) == lift(y) for x, y in zip(f0.ravel(), F.vertices.ravel())] + \
            [x == y for x, y in zip(x0, X)]
    decide(t, 'predicates', asm, run, lambda r: [('leave the shapes they are asked about unchanged', [], band(*[liftb(x) for x in r]))], 'pure')


def replay_pure(case):
    m = case['model']
    S = shp.Rectangle(m.get('w', 1.), m.get('h', 1.))
    X = [m.get(x.args[0], 0.) for x in symvec('x', 2)]
    q = [m.get(x.args[0], 0.) for x in symvec('q', 2)]
    o = Obstacle({'position': X}, S)
    v0 = S.vertices.copy()
    geo.point_in_polyhedron(q, S, X)
    F = shp.Rectangle(3., 2.)
    f0 = F.vertices.copy()
    geo.circle_polyhedron_intersection(Obstacle({'position': q}, shp.Circle(1.)), F, list(AT))
    return bool(np.array_equal(v0, S.vertices) and np.array_equal(f0, F.vertices)), 'vertices before %s, after %s' % (
        (v0.tolist(), f0.tolist()), (S.vertices.tolist(), F.vertices.tolist()))


# -------------------------------------------------------------------- shapes

def close(x, y, tol):
    return band(x - y <= tol, y - x <= tol)


def allclose(xs, ys, tol=0):
    return band(*[close(x, y, tol) for x, y in zip(xs, ys)])


def task_shape(t, kind):
    P = Poly(kind)
    tr = P.turns[0] if P.turns else None
    exact = 0 if kind in ('triangle', 'rectangle', 'turned') else 1e-9
    v = P.vertices()
    n = len(v)
    tol = 0 if not exact else P.r * exact

    def run():
        S = P.build()
        return S, S.get_checkpoints(), S.get_canvas_limits(), S.get_hyperplanes(position=P.X), S.get_hyperplanes()

    def claims(res):
        S, (chck, rad), lims, hyp, hyp0 = res
        out = [('has the vertices of its definition', [], band(*[close(lift(S.vertices[j, k]), v[k][j], tol) for j in range(2) for k in range(n)])
                if S.vertices.shape[1] == n else expr.FALSE)]
        out.append(('checkpoints are the vertices', [], band(*[lift(chck[k][j]) == lift(S.vertices[j, k]) for j in range(2) for k in range(n)])
                    if len(chck) == n == len(rad) else expr.FALSE))
        V = S.vertices
        for j in range(2):
            lo, hi = lift(lims[j][0]), lift(lims[j][1])
            out.append(('limits along %s are attained bounds' % 'xy'[j], [],
                        band(*([lo <= V[j, k] for k in range(n)] + [hi >= V[j, k] for k in range(n)] +
                               [bor(*[lo == V[j, k] for k in range(n)]), bor(*[hi == V[j, k] for k in range(n)])]))))
        # half-planes: unit outward normals, through two vertices, all vertices inside
        ok = len(hyp) == n and len(hyp0) == n
        if not ok:
            return out + [('one half-plane per side', [], expr.FALSE)]
        for i in range(n):
            a, b = hyp[i]['a'], hyp[i]['b']
            val = [a[0] * (V[0, k] + P.X[0]) + a[1] * (V[1, k] + P.X[1]) - b for k in range(n)]
            z = P.r * 1e-9 if exact else 0
            out.append(('half-plane %d has a unit normal' % i, [], close(a[0] * a[0] + a[1] * a[1], 1, 1e-9)))
            out.append(('half-plane %d contains the polygon' % i, [], band(*[x <= 1e-9 for x in val])))
            out.append(('half-plane %d holds a side' % i, [], bor(*[band(close(val[k], 0, 1e-9), close(val[(k + 1) % n], 0, 1e-9)) for k in range(n)])))
            a0, b0 = hyp0[i]['a'], hyp0[i]['b']
            out.append(('half-plane %d moves with the position' % i, [], close(b - b0, a0[0] * P.X[0] + a0[1] * P.X[1], 1e-9)))
        return out
    decide(t, 'shape(%s)' % kind, P.asm, run, claims, 'shape', kind, P.turns, timeout=60000)


def replay_shape(case):
    m, kind = case['model'], case['extra']
    S, v = build_num(kind, m)
    X = np.array([m.get('X', 0.), m.get('Y', 0.)])
    n = v.shape[1]
    bad = []
    if S.vertices.shape != v.shape or not np.allclose(S.vertices, v, atol=1e-7):
        return False, 'vertices %s, expected %s' % (S.vertices.tolist(), v.tolist())
    chck, rad = S.get_checkpoints()
    if len(chck) != n or len(rad) != n or not np.allclose(np.array(chck).T, S.vertices):
        bad.append('checkpoints %s' % (chck,))
    lims = S.get_canvas_limits()
    if not np.allclose(lims, np.c_[S.vertices.min(axis=1), S.vertices.max(axis=1)]):
        bad.append('limits %s' % (lims,))
    sides = set()
    hyp, hyp0 = S.get_hyperplanes(position=X), S.get_hyperplanes()
    if len(hyp) != n:
        bad.append('%d half-planes' % len(hyp))
    for i, h in hyp.items():
        val = np.dot(h['a'], S.vertices + X[:, None]) - h['b']
        near = [k for k in range(n) if abs(val[k]) < 1e-7]
        if abs(np.linalg.norm(h['a']) - 1) > 1e-7 or val.max() > 1e-7 or not any((k + 1) % n in near for k in near) or \
                abs(h['b'] - hyp0[i]['b'] - np.dot(h['a'], X)) > 1e-7:
            bad.append('half-plane %d: normal %s, values at the vertices %s' % (i, h['a'], val))
    return not bad, 'polygon %s: %s' % (v.tolist(), '; '.join(bad))


def task_simple(t, what):
    """circle, beam, square, ufo; rotation and placement of drawings"""
    r, w, h = R.var('r'), R.var('w'), R.var('h')
    X, Y = R.var('X'), R.var('Y')
    tr = Turn('th')
    if what == 'circle':
        def run():
            S = shp.Circle(r)
            return S, S.get_checkpoints(), S.get_canvas_limits(), S.surfaces[0]

        def claims(res):
            S, (ch, rad), lims, surf = res
            return [('centre checkpoint with the radius', [], band(len(ch) == 1 == len(rad) and lift(ch[0][0]) == 0, lift(ch[0][1]) == 0, lift(rad[0]) == r)),
                    ('limits are one radius away', [], band(*[band(lift(lims[k][0]) == -r, lift(lims[k][1]) == r) for k in range(2)])),
                    ('drawn points are on the circle', [], band(*[close(surf[0, k] * surf[0, k] + surf[1, k] * surf[1, k], r * r, r * r * 1e-9) for k in range(surf.shape[1])]))]
        decide(t, 'shape(circle)', size(r), run, claims, 'simple', what)
    elif what == 'beam':
        def run():
            S = shp.Beam(w, h, tr.th)
            return S, S.get_checkpoints()

        def claims(res):
            S, (ch, rad) = res
            e = [[tr.c * w * 0.5, tr.s * w * 0.5], [-(tr.c * w * 0.5), -(tr.s * w * 0.5)]]
            surf = S.surfaces[0]
            out = [('ends half a width from the centre along its axis, half its height around', [],
                    band(allclose(ch[0], e[0]), allclose(ch[1], e[1]), lift(rad[0]) == h * 0.5, lift(rad[1]) == h * 0.5))]
            for k in range(0, surf.shape[1], 5):
                i = 0 if k < surf.shape[1] // 2 else 1
                d = (surf[0, k] - e[i][0])**2 + (surf[1, k] - e[i][1])**2
                out.append(('drawn points are half a height from the end', [], close(d, h * h * 0.25, 1e-7)))
            return out
        decide(t, 'shape(beam)', size(w, h), run, claims, 'simple', what, [tr])
    elif what == 'square':
        def run():
            return shp.Square(w, tr.th), shp.Rectangle(w, w, tr.th), shp.UFO(w, h, tr.th), shp.Rectangle(w, h, tr.th)

        def claims(res):
            sq, rc, u, rc2 = res
            return [('a square is the rectangle with equal sides', [], allclose(map(lift, sq.vertices.ravel()), rc.vertices.ravel())),
                    ('a ufo occupies its rectangle', [], allclose(map(lift, u.vertices.ravel()), rc2.vertices.ravel()))]
        decide(t, 'shape(square)', size(w, h), run, claims, 'simple', what, [tr])
    elif what == 'draw':
        ph = Turn('ph')
        pose = np.array([X, Y, ph.th], dtype=object)

        def run():
            S = shp.Rectangle(w, h, tr.th)
            return S, S.draw(pose)[0][0], S.rotate(ph.th, np.array([[X], [Y]], dtype=object))

        def claims(res):
            S, d, ro = res
            V = S.vertices
            e = [z for k in range(4) for z in (X + ph.c * V[0, k] - ph.s * V[1, k], Y + ph.s * V[0, k] + ph.c * V[1, k])]
            g = [d[j, k] for k in range(4) for j in range(2)]
            return [('is drawn at its pose', [], allclose(g, e)),
                    ('rotation', [], allclose(ro.ravel(), [ph.c * X - ph.s * Y, ph.s * X + ph.c * Y]))]
        decide(t, 'shape(draw)', size(w, h) + box([X, Y]), run, claims, 'simple', what, [tr, ph])


def replay_simple(case):
    m, what = case['model'], case['extra']
    r, w, h, X, Y = [m.get(n, 1.) for n in ('r', 'w', 'h', 'X', 'Y')]
    th, ph = angle_of(m, 'th'), angle_of(m, 'ph')
    rot = lambda a: np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    rect = lambda a, b: np.array([[a, a, -a, -a], [b, -b, -b, b]]) * 0.5
    ac = lambda x, y: np.shape(x) == np.shape(y) and bool(np.allclose(np.array(x, float), np.array(y, float), atol=1e-6))
    if what == 'circle':
        S = shp.Circle(r)
        ch, rad = S.get_checkpoints()
        ok = ac(ch, [[0, 0]]) and ac(rad, [r]) and ac(S.get_canvas_limits(), [[-r, r]] * 2) and ac(np.hypot(*S.surfaces[0]), r * np.ones(S.surfaces[0].shape[1]))
        return ok, 'circle of radius %g: checkpoints %s %s, limits %s' % (r, ch, rad, S.get_canvas_limits())
    if what == 'beam':
        S = shp.Beam(w, h, th)
        ch, rad = S.get_checkpoints()
        e = rot(th).dot(np.array([[w, -w], [0, 0]]) * 0.5)
        n = S.surfaces[0].shape[1] // 2
        d = np.r_[np.hypot(*(S.surfaces[0][:, :n] - e[:, :1])), np.hypot(*(S.surfaces[0][:, n:] - e[:, 1:]))]
        return ac(np.array(ch).T, e) and ac(rad, [h / 2] * 2) and ac(d, h / 2 * np.ones(2 * n)), 'beam %gx%g turned %g: checkpoints %s radii %s, drawn %s from the ends' % (w, h, th, ch, rad, d)
    if what == 'square':
        return ac(shp.Square(w, th).vertices, rot(th).dot(rect(w, w))) and ac(shp.UFO(w, h, th).vertices, rot(th).dot(rect(w, h))), \
            'square vertices %s' % shp.Square(w, th).vertices.tolist()
    S = shp.Rectangle(w, h, th)
    d = S.draw(np.array([X, Y, ph]))[0][0]
    e = np.array([[X], [Y]]) + rot(ph).dot(rot(th)).dot(rect(w, h))
    return ac(d, e) and ac(S.rotate(ph, np.array([[X], [Y]])), rot(ph).dot([[X], [Y]])), 'drawn at %s, expected %s' % (d.tolist(), e.tolist())


# ------------------------------------------------------------------------ 3D

def rot3(c, s):
    """yaw after pitch after roll: c, s = cosines and sines of (roll, pitch, yaw)"""
    rx = [[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]]
    ry = [[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]]
    rz = [[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1]]
    mm = lambda A, B: [[sum((A[i][k] * B[k][j] for k in range(3)), 0 * c[0]) for j in range(3)] for i in range(3)]
    return mm(rz, mm(ry, rx))


def corners(what, w, d, h, r=None):
    """vertices in the frame of the body"""
    if what in ('cuboid', 'cube'):
        q = [(w, d), (w, -d), (-w, -d), (-w, d)]
        return [[x * 0.5, y * 0.5, z * 0.5] for z in (-h, h) for x, y in q]
    if what == 'plate':
        return [[x * 0.5, y * 0.5, 0 * w] for x, y in ((w, d), (w, -d), (-w, -d), (-w, d))]
    n = int(what[5:])
    a = [(l + 0.5) * 2 * math.pi / n for l in range(n)]
    return [[r * math.sin(x), r * math.cos(x), z * 0.5] for z in (-h, h) for x in a]


def build3(what, w, d, h, r, o):
    if what == 'cuboid':
        return shp.Cuboid(w, d, h, o)
    if what == 'cube':
        return shp.Cube(w, o)
    if what == 'plate':
        return shp.Plate(shp.Rectangle(w, d), h, o)
    return shp.RegularPrisma(r, h, int(what[5:]), o)


def task_solid(t, what):
    w, d, h, r = [R.var(n) for n in 'wdhr']
    if what == 'cube':
        d = h = w
    tr = [Turn(n) for n in ('roll', 'pitch', 'yaw')]
    M = rot3([x.c for x in tr], [x.s for x in tr])
    X = symvec('x', 3)
    o2 = [0., 0., 0.]
    body = corners(what, w, d, h, r)
    n = len(body)
    tol = 0 if not what.startswith('prism') else 1e-7

    def run():
        o = [x.th for x in tr]
        S = build3(what, w, d, h, r, o)
        S0 = build3(what, w, d, h, r, [0, 0, 0])
        return S, S.get_checkpoints(), S.rotate(o, X), S0, S0.get_canvas_limits()

    def claims(res):
        S, (ch, rad), rx, S0, lims = res
        V = S.vertices
        if V.shape != (3, n) or len(ch) != n or len(rad) != n:
            return [('has its vertices', [], expr.FALSE)]
        V0 = S0.vertices
        out = [('vertex %d turns with the body' % k, [], band(*[lift(V[i, k]) == sum(M[i][j] * V0[j, k] for j in range(3)) for i in range(3)])) for k in range(n)]
        out += [('vertex %d' % k, [], allclose([lift(x) for x in V0[:, k]], body[k], tol)) for k in range(n)]
        out.append(('checkpoints are the vertices', [], band(*[lift(ch[k][j]) == lift(V[j, k]) for j in range(3) for k in range(n)])))
        out.append(('rotation is yaw after pitch after roll', [], allclose(rx, [sum(M[i][j] * X[j] for j in range(3)) for i in range(3)])))
        if what == 'plate':
            out.append(('thickness', [], band(*[lift(x) == h * 0.5 for x in rad])))
        for j in range(3):
            lo, hi = lift(lims[j][0]), lift(lims[j][1])
            out.append(('limits along %s are attained bounds' % 'xyz'[j], [],
                        band(*([band(lo <= V0[j, k], hi >= V0[j, k]) for k in range(n)] +
                               [bor(*[lo == lift(V0[j, k]) for k in range(n)]), bor(*[hi == lift(V0[j, k]) for k in range(n)])]))))
        # every face is drawn with vertices of the body
        for f, surf in enumerate(S0.surfaces):
            out.append(('face %d consists of vertices' % f, [], band(*[bor(*[band(*[lift(x) == lift(y) for x, y in zip(surf[:, i], V0[:, k])]) for k in range(n)])
                                                                     for i in range(surf.shape[1])])))
        return out
    decide(t, 'shape(%s)' % what, size(w, d, h, r) + box(X), run, claims, 'solid', what, tr, timeout=60000)

    # drawing places the faces at the pose
    def run2():
        o = [x.th for x in tr]
        S = build3(what, w, d, h, r, [0, 0, 0])
        return S.surfaces, S.draw(np.array(list(X) + o, dtype=object))[0]

    def claims2(res):
        sf, dr = res
        return [('face %d is drawn at the pose' % f, [], allclose([dr[f][i, k] for k in range(sf[f].shape[1]) for i in range(3)],
                                                               [X[i] + sum(M[i][j] * sf[f][j, k] for j in range(3)) for k in range(sf[f].shape[1]) for i in range(3)]))
                for f in range(len(sf))] if len(sf) == len(dr) else [('draws all faces', [], expr.FALSE)]
    decide(t, 'draw(%s)' % what, size(w, d, h, r) + box(X), run2, claims2, 'solid', what, tr, timeout=60000)


def replay_solid(case):
    m, what = case['model'], case['extra']
    w, d, h, r = [m.get(n, 1.) for n in 'wdhr']
    if what == 'cube':
        d = h = w
    o = [angle_of(m, n) for n in ('roll', 'pitch', 'yaw')]
    M = np.array(rot3([math.cos(x) for x in o], [math.sin(x) for x in o]))
    X = np.array([m.get(x.args[0], 0.) for x in symvec('x', 3)])
    body = np.array(corners(what, w, d, h, r)).T
    S, S0 = build3(what, w, d, h, r, o), build3(what, w, d, h, r, [0, 0, 0])
    ac = lambda a, b: np.shape(a) == np.shape(b) and bool(np.allclose(a, b, atol=1e-6))
    bad = []
    if not ac(S.vertices, M.dot(body)):
        bad.append('vertices %s, expected %s' % (S.vertices.tolist(), M.dot(body).tolist()))
    ch, rad = S.get_checkpoints()
    if not ac(np.array(ch).T, S.vertices) or (what == 'plate' and not ac(rad, [h / 2] * 4)):
        bad.append('checkpoints %s, radii %s' % (ch, rad))
    if not ac(S0.get_canvas_limits(), np.c_[body.min(axis=1), body.max(axis=1)]):
        bad.append('limits %s' % (S0.get_canvas_limits(),))
    if not ac(S.rotate(o, X), M.dot(X)):
        bad.append('rotation %s, expected %s' % (S.rotate(o, X), M.dot(X)))
    for sf in S.surfaces:
        for i in range(sf.shape[1]):
            if min(np.linalg.norm(S.vertices - sf[:, i:i + 1], axis=0)) > 1e-6:
                bad.append('face point %s is no vertex' % sf[:, i])
    for sf, dr in zip(S0.surfaces, S0.draw(np.r_[X, o])[0]):
        if not ac(dr, X[:, None] + M.dot(sf)):
            bad.append('face drawn at %s' % dr.tolist())
    return not bad, '; '.join(bad[:3])


def task_sphere(t):
    r = R.var('r')

    def run():
        S = shp.Sphere(r)
        return S, S.get_checkpoints(), S.get_canvas_limits()

    def claims(res):
        S, (ch, rad), lims = res
        out = [('centre checkpoint with the radius', [], band(allclose(map(lift, ch[0]), [lift(0)] * 3), lift(rad[0]) == r) if len(ch) == len(rad) == 1 else expr.FALSE),
               ('limits are one radius away', [], band(*[band(lift(lims[k][0]) == -r, lift(lims[k][1]) == r) for k in range(3)]))]
        q = [close(sum(sf[j, k] * sf[j, k] for j in range(3)), r * r, r * r * 1e-9) for sf in S.surfaces for k in range(sf.shape[1])]
        out.append(('drawn points are on the sphere', [], band(*q)))
        return out
    decide(t, 'shape(sphere)', size(r), run, claims, 'sphere')


def replay_sphere(case):
    r = case['model'].get('r', 1.)
    S = shp.Sphere(r)
    ch, rad = S.get_checkpoints()
    d = np.array([np.linalg.norm(sf, axis=0) for sf in S.surfaces if sf.shape[1] == 4])
    ok = np.allclose(ch, [[0, 0, 0]]) and np.allclose(rad, [r]) and np.allclose(S.get_canvas_limits(), [[-r, r]] * 3) and np.allclose(d, r)
    return bool(ok), 'sphere of radius %g: checkpoints %s %s, limits %s, drawn radii %g..%g' % (r, ch, rad, S.get_canvas_limits(), d.min(), d.max())


# ---------------------------------------------------------------------- ring

def ring_cases(tier):
    out = []
    ang = [0, 30, 90, 135, 180, 225, 270, 330] if tier == 'quick' else list(range(0, 360, 30)) + [45, 135, 225, 315]
    for a in ang:
        for b in ang:
            for d in ('CW', 'CCW'):
                out.append((a, b, d))
    return out


def arc_span(a, b, d):
    """start angle and signed sweep in degrees; equal start and end: the full circle"""
    sw = (b - a) % 360 if d == 'CCW' else -((a - b) % 360)
    if sw == 0:
        sw = 360 if d == 'CCW' else -360
    return a, sw


def ring_bounds(a, b, d):
    """bounding box of the ring sector: coefficients of (radius_in, radius_out) per limit"""
    a, sw = arc_span(a, b, d)
    lo, hi = min(a, a + sw), max(a, a + sw)
    angs = [lo, hi] + [x for x in range(-720, 1081, 90) if lo < x < hi]
    return [math.radians(x) for x in angs]


def task_ring(t, sub):
    ri, ro, r = R.var('ri'), R.var('ro'), R.var('r')
    asm = size(ri, r, ro) + [ri <= r - 0.01, r <= ro - 0.01]
    for a, b, d in sub:
        A, B = math.radians(a), math.radians(b)
        cs = [x for q in (A, B) for x in (float('%.15g' % math.cos(q)), float('%.15g' % math.sin(q)))]
        start = np.array([r * cs[0], r * cs[1], 0 * r], dtype=object)
        end = np.array([r * cs[2], r * cs[3], 0 * r], dtype=object)
        ang = ring_bounds(a, b, d)
        key = 'ring(%s)' % ('full' if a == b else 'arc')

        def atan(y, x):
            # the angle of a point given as r*(c, s): known by construction
            for q, pt in ((A, start), (B, end)):
                if y is pt[1] and x is pt[0]:
                    return math.atan2(math.sin(q), math.cos(q))
            raise expr.Unsupported('angle of another point')
        px = Exact()
        px.arctan2 = atan

        def claims(res):
            surf, lims = res
            out = []
            n = surf.shape[1] // 2
            # corner and extreme points of the sector by definition
            ext = [[rr * math.cos(x), rr * math.sin(x)] for rr in (ri, ro) for x in ang]
            tol = ro * 1e-4
            for j in range(2):
                lo, hi = lift(lims[j][0]), lift(lims[j][1])
                out.append(('the sector lies within the limits along %s' % 'xy'[j], [], band(*[band(lo <= e[j] + tol, hi >= e[j] - tol) for e in ext])))
                out.append(('limits along %s are attained' % 'xy'[j], [], band(bor(*[lo >= e[j] - tol for e in ext]), bor(*[hi <= e[j] + tol for e in ext]))))
            for rr, col in ((ri, 0), (ro, n)):
                for k in (0, n // 3, n - 1):
                    q = surf[:, col + k]
                    out.append(('drawn points are on the arcs', [], close(q[0] * q[0] + q[1] * q[1], rr * rr, rr * rr * 1e-9)))
            return out

        def run():
            S = shp.Ring(ri, ro, start, end, d)
            return S.surfaces[0], S.get_canvas_limits()
        with patched([(shp, 'np', px)]):
            try:
                decide_ring(t, key, asm, run, claims, dict(a=a, b=b, d=d), px)
            except expr.Unsupported as e:
                t.unknown('%s %s' % (key, e))


def decide_ring(t, key, asm, run, claims, extra, px):
    import omgv.checks.c16 as me
    old = me.patches
    me.patches = lambda: [(m, n, px if (m is shp and n == 'np') else v) for m, n, v in old() if not (m is shp and n == 'np')] + [(shp, 'np', px)]
    try:
        decide(t, key, asm, run, claims, 'ring', extra)
    finally:
        me.patches = old


def replay_ring(case):
    m, e = case['model'], case['extra']
    ri, ro, r = m.get('ri', 1.), m.get('ro', 3.), m.get('r', 2.)
    A, B = math.radians(e['a']), math.radians(e['b'])
    start, end = np.array([r * math.cos(A), r * math.sin(A), 0.]), np.array([r * math.cos(B), r * math.sin(B), 0.])
    d = 'ring %g..%g from %s to %s %s' % (ri, ro, start, end, e['d'])
    try:
        S = shp.Ring(ri, ro, start, end, e['d'])
        lims = S.get_canvas_limits()
    except Exception as x:
        return False, '%s raises %r' % (d, x)
    ang = np.array(ring_bounds(e['a'], e['b'], e['d']))
    pt = np.hstack([rr * np.vstack([np.cos(ang), np.sin(ang)]) for rr in (ri, ro)])
    exp = np.c_[pt.min(axis=1), pt.max(axis=1)]
    rad = np.hypot(*S.surfaces[0])
    ok = np.allclose(lims, exp, atol=1e-4 * ro) and min(abs(rad - ri).max(), 1) >= 0 and all(min(abs(x - ri), abs(x - ro)) < 1e-6 for x in rad[::50])
    return bool(ok), '%s: limits %s, expected %s' % (d, np.array(lims).tolist(), exp.tolist())


def tasks(tier, seed):
    out = [('lines ' + w, ('lines', w)) for w in ('ccw', 'segments', 'lines', 'distance')]
    out += [('inside ' + k, ('inside', k)) for k in KINDS if k not in ('regular4', 'regular8')]
    out += [('circle ' + k, ('circle', k)) for k in ('box', 'rectangle', 'turned', 'tri', 'kite', 'pentagon')]
    out += [('pointrect ' + k, ('pointrect', k, 2. if tier == 'quick' else 5.)) for k in ('fixed', 'xy', 'moving')]
    out += [('overlap', ('overlap',)), ('pure', ('pure',)), ('sphere', ('sphere',))]
    out += [('shape ' + k, ('shape', k)) for k in KINDS]
    out += [('simple ' + k, ('simple', k)) for k in ('circle', 'beam', 'square', 'draw')]
    out += [('solid ' + k, ('solid', k)) for k in ('cuboid', 'cube', 'plate', 'prism3', 'prism5')]
    rc = ring_cases(tier)
    n = 4
    out += [('ring %d' % k, ('ring', rc[k::n])) for k in range(n)]
    out += [('meet-' + k, ('meet', k)) for k in ('cc', 'cr', 'rc', 'rr')] + [('room-' + k, ('room', k)) for k in 'cr']
    return out
