"""C14: the global planner returns a connected collision-free grid path or refuses."""
import itertools
import math
import numpy as np
from fractions import Fraction as F
from .. import env, expr
from ..expr import R, lift, liftb, band, bor, bnot
from ..env import patched, quiet
from .c16 import patches, EX
from ..decide import decide
from ..norm import Norm
import omgtools as omg
import omgtools.basics.shape as shp
from omgtools.environment.obstacle import Obstacle
from omgtools.environment.environment import Environment
from omgtools.problems import globalplanner as gp

INFO = dict(
    explanation='the real grid and A* search run on symbolic occupancy (the search asks for one cell at a time; cells it never asks for stay free variables), '
                'symbolic start and goal points and symbolic obstacle positions and sizes; z3 decides on every path that the way-points are a path by definition, that no '
                'path exists (bounded reachability formula over all remaining occupancies) where the search refuses, and that the occupied cells are those the blown-up obstacle overlaps',
    bounds=['search: every occupancy of 3 x 3 (all pairs of cells), 2 x 4 and 4 x 3 grids (thorough: also 4 x 4 and 5 x 3, some pairs)', 'neighbours: every occupancy around any cell of a grid of any size',
            'start and goal: every point in and around a 3 x 3 and a 3 x 2 grid, every occupancy', 'occupied cells: circle or axis-parallel rectangle, any position, size and vehicle size, '
            '3 x 3, 4 x 2 and 2 x 3 grids; two obstacles of fixed size; 1e-3 around contact left open', 'cells of 1 x 1, 0.5 x 0.5, 2 x 0.7 and 0.4 x 1.5 m'],
    outside=['cost of the path', 'obstacles that are neither circles nor axis-parallel rectangles (the frames that use the planner refuse them)', 'obstacle orientation other than that of the shape'],
    stubs=['the list of occupied cells (answers one membership question at a time)', 'numpy.round = any value within half a unit of the last decimal'])

CELL = {'unit': (1., 1.), 'half': (0.5, 0.5), 'wide': (2., 0.7), 'tall': (0.4, 1.5)}
POS = {'unit': [0., 0.], 'half': [1.3, -0.6], 'wide': [-2., 0.5], 'tall': [0.2, 3.]}


class Occ(list):
    """occupied cells as one unknown per cell; cells: {cell: term > 0 when occupied}, base: symbolic origin"""

    def __init__(self, cells, base=(0, 0)):
        list.__init__(self)
        self.cells, self.base = cells, base

    def _key(self, p):
        out = []
        for q, b in zip(p, self.base):
            d = Norm().term(lift(q) - lift(b))
            if not d.isconst:
                raise expr.Unsupported('cell %r' % (p,))
            v = d.value
            if v.denominator != 1:
                return None
            out.append(int(v))
        return tuple(out)

    def __contains__(self, p):
        k = self._key(p)
        return k in self.cells and bool(self.cells[k] > 0)

    def __iter__(self):
        for k in sorted(self.cells):
            if bool(self.cells[k] > 0):
                yield [k[0] + self.base[0], k[1] + self.base[1]]

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return len(self) > 0


def room(n, kind):
    w, h = CELL[kind]
    return Environment(room={'shape': shp.Rectangle(n[0] * w, n[1] * h), 'position': list(POS[kind])})


def centre(n, kind, c):
    w, h = CELL[kind]
    return [POS[kind][0] + (c[0] + 0.5 - 0.5 * n[0]) * w, POS[kind][1] + (c[1] + 0.5 - 0.5 * n[1]) * h]


def planner(n, kind, start=None, goal=None, environment=None, **options):
    with quiet():
        return gp.AStarPlanner(environment or room(n, kind), list(n), start or centre(n, kind, (0, 0)), goal or centre(n, kind, (0, 0)), options=options)


def cells_of(n):
    return list(itertools.product(range(n[0]), range(n[1])))


def unknowns(n):
    return {c: R.var('o_%d_%d' % c) for c in cells_of(n)}


def moves(free, a, b):
    """may one step lead from cell a to cell b"""
    if max(abs(a[0] - b[0]), abs(a[1] - b[1])) != 1:
        return liftb(False)
    if a[0] != b[0] and a[1] != b[1]:
        return band(free(b), free((a[0], b[1])), free((b[0], a[1])))
    return liftb(free(b))


def reachable(n, free, s):
    """{cell: formula 'a path of free cells leads there from s'}"""
    cs = cells_of(n)
    r = {c: liftb(c == s) for c in cs}
    for _ in range(len(cs) - 1):
        r = {c: bor(r[c], *[band(r[d], moves(free, d, c)) for d in cs if max(abs(c[0] - d[0]), abs(c[1] - d[1])) == 1]) for c in cs}
    return r


# ------------------------------------------------- neighbours of any cell of any grid

def task_neighbors(t, kind, bx, by):
    """bx, by: where the cell lies: 'low', 'mid', 'high' or 'only'"""
    x, y, nx, ny = [R.var(s) for s in ('x', 'y', 'nx', 'ny')]
    asm = []
    inside = []
    for q, n, b in ((x, nx, bx), (y, ny, by)):
        asm.append({'low': band(q == 0, n >= 2), 'mid': band(q >= 1, q <= n - 2), 'high': band(q >= 1, q == n - 1), 'only': band(q == 0, n == 1)}[b])
        inside.append({'low': (0, 1), 'mid': (-1, 0, 1), 'high': (-1, 0), 'only': (0,)}[b])
    occ = {(i, j): R.var('o_%d_%d' % (i + 1, j + 1)) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)}

    def free(d):
        return liftb(occ[d] <= 0) if d[0] in inside[0] and d[1] in inside[1] else liftb(False)

    def run():
        g = planner((3, 3), kind).grid
        g.n_cells = [nx, ny]
        g.occupied = Occ(occ, (x, y))
        return [tuple(int(Norm().term(lift(a) - b).value) for a, b in zip(p, (x, y))) for p in g.get_neighbors([x, y])]

    def claims(res):
        out = [('no cell twice', [], liftb(len(set(res)) == len(res)))]
        for d in occ:
            want = moves(lambda c: free(c) if c != (0, 0) else liftb(True), (0, 0), d)
            out.append(('step to %+d%+d' % d, [], want if d in res else bnot(want)))
        return out
    asm += [q <= 50 for q in (nx, ny)]
    decide(t, 'neighbors:%s:%s:%s' % (kind, bx, by), asm, run, claims, 'neighbors', extra=[kind, bx, by], patches=patches())


def replay_neighbors(case):
    kind, bx, by = case['extra']
    m = case['model']
    size = [9 if b == 'mid' else 5 if b in ('low', 'high') else 1 for b in (bx, by)]
    at = [{'low': 0, 'mid': 4, 'high': 4, 'only': 0}[b] for b in (bx, by)]
    with env.unpatched():
        g = planner(size, kind).grid
        occ = {(at[0] + i, at[1] + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0) and m.get('o_%d_%d' % (i + 1, j + 1), 0.) > 0}
        g.block([list(c) for c in occ if 0 <= c[0] < size[0] and 0 <= c[1] < size[1]])
        got = sorted(tuple(int(q) for q in p) for p in g.get_neighbors(list(at)))

    def free(c):
        return 0 <= c[0] < size[0] and 0 <= c[1] < size[1] and c not in occ
    want = sorted((at[0] + i, at[1] + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0) and free((at[0] + i, at[1] + j))
                  and (i == 0 or j == 0 or (free((at[0] + i, at[1])) and free((at[0], at[1] + j)))))
    return got == want, 'cell %r of a %r grid, occupied %r: neighbours %r, by definition %r' % (at, size, sorted(occ), got, want)


# ------------------------------------------------- the search on every occupancy

def index(n, kind, p):
    w, h = CELL[kind]
    c = [(p[0] - POS[kind][0]) / w + 0.5 * n[0] - 0.5, (p[1] - POS[kind][1]) / h + 0.5 * n[1] - 0.5]
    k = tuple(int(round(q)) for q in c)
    return k if max(abs(a - b) for a, b in zip(c, k)) < 1e-6 else None


def task_search(t, n, kind, s, goals, given=()):
    """given: [(cell, occupied?)] fixed to keep the number of paths down"""
    for g in goals:
        o = unknowns(n)
        asm = [o[s] <= 0, o[g] <= 0] + [o[c] > 0 if v else o[c] <= 0 for c, v in given]

        def free(c):
            return liftb(o[c] <= 0) if c in o else liftb(False)

        def run():
            p = planner(n, kind, centre(n, kind, s), centre(n, kind, g))
            p.grid.occupied = Occ(o)
            try:
                with quiet():
                    return [index(n, kind, q) for q in p.get_path()]
            except RuntimeError as e:
                return str(e)
        r = reachable(n, free, s)[g]

        def claims(res):
            if isinstance(res, str):
                return [('refuses only without a path', [], bnot(r))]
            out = [('starts at the start', [], liftb(res[0] == s)), ('ends at the goal', [], liftb(res[-1] == g))]
            steps = [moves(free, a, b) if a in o and b in o else liftb(False) for a, b in zip(res, res[1:])]
            return out + [('steps between free neighbours', [], band(*steps) if steps else liftb(True))]
        # a cell without free neighbours never answers; otherwise both kinds of path occur
        seen = decide(t, 'search:%s:%s:%s' % ('x'.join(map(str, n)), '-'.join(map(str, s)), '-'.join(map(str, g))), asm, run, claims, 'search',
                      extra=[list(n), kind, list(s), list(g)], patches=patches(), max_paths=60000, tag=lambda q: 'refused' if isinstance(q, str) else 'path')
        t.reach('path' in seen, 'search: some path')


def bfs(n, occ, s, g):
    def free(c):
        return 0 <= c[0] < n[0] and 0 <= c[1] < n[1] and c not in occ
    seen, todo = {s}, [s]
    while todo:
        a = todo.pop()
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                b = (a[0] + i, a[1] + j)
                if b not in seen and free(b) and (i == 0 or j == 0 or (free((a[0], b[1])) and free((b[0], a[1])))):
                    seen.add(b)
                    todo.append(b)
    return g in seen


def replay_search(case):
    n, kind, s, g = case['extra']
    s, g = tuple(s), tuple(g)
    m = case['model']
    occ = {c for c in cells_of(n) if m.get('o_%d_%d' % c, 0.) > 0}
    with env.unpatched():
        p = planner(n, kind, centre(n, kind, s), centre(n, kind, g))
        p.grid.block([list(c) for c in occ])
        try:
            with quiet():
                res = [index(n, kind, q) for q in p.get_path()]
        except RuntimeError as e:
            res = str(e)
        except Exception as e:
            return False, '%r on a %r grid, occupied %r, from %r to %r' % (e, n, sorted(occ), s, g)
    text = 'grid %r, occupied %r, from %r to %r: %r' % (n, sorted(occ), s, g, res)
    if isinstance(res, str):
        return not bfs(n, occ, s, g), text

    def free(c):
        return c in cells_of(n) and c not in occ
    ok = res[0] == s and res[-1] == g and all(a is not None and b is not None and max(abs(a[0] - b[0]), abs(a[1] - b[1])) == 1 and free(b) and
                                             (a[0] == b[0] or a[1] == b[1] or (free((a[0], b[1])) and free((b[0], a[1])))) for a, b in zip(res, res[1:]))
    return ok, text


# ------------------------------------------------- cells of start and goal

def near(n, kind, p, tol=0.):
    """{cell: condition 'is (up to tol) a nearest cell of point p'}"""
    w, h = CELL[kind]
    out = {}
    for c in cells_of(n):
        q = centre(n, kind, c)
        cs = []
        for k, d in ((0, w), (1, h)):
            if c[k] > 0:
                cs.append(p[k] >= lift(q[k]) - lift(d) * F(1, 2) - tol)
            if c[k] < n[k] - 1:
                cs.append(p[k] <= lift(q[k]) + lift(d) * F(1, 2) + tol)
        out[c] = band(*cs) if cs else liftb(True)
    return out


def snap_ok(n, kind, o, p, r, tol=1e-6):
    w, h = CELL[kind]
    d = {(1, 0): w, (0, 1): h, (1, 1): math.hypot(w, h)}

    def dist(a, b):
        return d[(abs(a[0] - b[0]), abs(a[1] - b[1]))]
    if r not in o:
        return liftb(False)
    N = near(n, kind, p, tol)
    out = [band(N[r], o[r] <= 0)]
    for c in o:
        ring = [b for b in o if max(abs(b[0] - c[0]), abs(b[1] - c[1])) == 1]
        if r == c:
            out.append(band(N[c], o[c] > 0, *[o[b] > 0 for b in ring]))
        elif r in ring:
            out.append(band(N[c], o[c] > 0, o[r] <= 0, *[o[b] > 0 for b in ring if dist(b, c) < dist(r, c) - 1e-9]))
    return bor(*out)


def task_snap(t, n, kind, via):
    """via: 'grid' or the end points of a planned path ('start', 'goal')"""
    o = unknowns(n)
    p = [R.var('px'), R.var('py')]
    w, h = CELL[kind]
    lo, hi = centre(n, kind, (-1, -1)), centre(n, kind, n)
    asm = [p[0] >= lo[0], p[0] <= hi[0], p[1] >= lo[1], p[1] <= hi[1]]

    def run():
        pl = planner(n, kind)
        pl.grid.occupied = Occ(o)
        if via == 'grid':
            return tuple(pl.grid.move_to_gridpoint(p))
        q = centre(n, kind, (0, 0))
        try:
            with quiet():
                path = pl.get_path(start=p, goal=q) if via == 'start' else pl.get_path(start=q, goal=p)
        except RuntimeError:
            return None
        return index(n, kind, path[0 if via == 'start' else -1])

    def claims(res):
        return [('nearest free cell', [], snap_ok(n, kind, o, p, res))] if res is not None else []
    decide(t, 'snap:%s:%s' % (kind, via), asm, run, claims, 'snap', extra=[list(n), kind, via], patches=patches(), max_paths=20000)


def replay_snap(case):
    n, kind, via = case['extra']
    n = tuple(n)
    m = case['model']
    o = {c: lift(m.get('o_%d_%d' % c, 0.)) for c in cells_of(n)}
    p = [m.get('px', 0.), m.get('py', 0.)]
    with env.unpatched():
        pl = planner(n, kind)
        pl.grid.block([list(c) for c in o if o[c].value > 0])
        q = centre(n, kind, (0, 0))
        try:
            with quiet():
                if via == 'grid':
                    r = tuple(int(c) for c in pl.grid.move_to_gridpoint(p))
                else:
                    path = pl.get_path(start=p, goal=q) if via == 'start' else pl.get_path(start=q, goal=p)
                    r = index(n, kind, path[0 if via == 'start' else -1])
        except RuntimeError as e:
            return True, str(e)
        except Exception as e:
            return False, repr(e)
    good = snap_ok(n, kind, o, [lift(q) for q in p], r, 1e-5)
    return bool(good), 'point %r, occupied %r: cell %r' % (p, sorted(c for c in o if o[c].value > 0), r)


# ------------------------------------------------- occupied cells

def obstacles(what, val):
    """[(obstacle, half sizes, position, stationary)]; val(name, default) is a symbol or a number"""
    def one(k, shape, half, sim=None):
        pos = [val('x%d' % k), val('y%d' % k)] if k == 0 or what != 'pair' else [0.55, 0.52]
        ob = Obstacle({'position': [0., 0.]}, shape, {'trajectories': sim} if sim is not None else {})
        sig = np.empty((2, 1), dtype=object if isinstance(val('x0'), R) else float)
        sig[0, 0], sig[1, 0] = pos
        ob.signals['position'] = sig
        return ob, half, pos
    z = {'velocity': {'time': [0., 2.], 'values': [[0., 0.], [0., 0.]]}}
    mv = {'velocity': {'time': [0., 2.], 'values': [[0., 0.], [0.3, 0.]]}}
    if what == 'rect':
        w, h = val('w'), val('h')
        return [one(0, shp.Rectangle(w, h), [w * F(1, 2), h * F(1, 2)] if isinstance(w, R) else [w / 2, h / 2]) + (True,)]
    if what == 'circle':
        r = val('w')
        return [one(0, shp.Circle(r), [r, r]) + (True,)]
    if what == 'square':
        w = val('w')
        return [one(0, shp.Square(w), [w * F(1, 2)] * 2 if isinstance(w, R) else [w / 2] * 2) + (True,)]
    if what == 'pair':
        return [one(0, shp.Rectangle(0.6, 0.3), [0.3, 0.15], z) + (True,), one(1, shp.Circle(0.4), [0.4, 0.4], {'position': {'time': [1.], 'values': [[1., 1.]]}}) + (True,)]
    if what == 'moving':
        return [one(0, shp.Rectangle(0.6, 0.3), [0.3, 0.15], mv) + (False,), one(1, shp.Circle(0.4), [0.4, 0.4], {}) + (True,)]
    raise KeyError(what)


def overlap(n, kind, c, half, pos, off, grow):
    w, h = CELL[kind]
    q = centre(n, kind, c)
    d = [lift(pos[k]) - lift(q[k]) for k in (0, 1)]
    lim = [lift(half[k]) + lift(off[k]) + lift(s) * F(1, 2) + grow for k, s in ((0, w), (1, h))]
    return band(*[x for k in (0, 1) for x in (d[k] < lim[k], -d[k] < lim[k])])


def setup(n, kind, what, val, size):
    obs = obstacles(what, val)
    e = room(n, kind)
    e.obstacles = [o[0] for o in obs]
    if size == 'two':
        off = [val('ox'), val('oy')]
        opt = dict(veh_size=list(off))
    elif size == 'one':
        off = [0.2, 0.2]
        opt = dict(veh_size=0.2)
    else:
        off, opt = [0., 0.], {}
    pl = planner(n, kind, environment=e, **opt)
    return obs, off, [tuple(int(q) for q in c) for c in pl.grid.occupied]


class Plain(type(EX)):
    def round(self, x, decimals=0, **k):
        return x
    around = round_ = round


PLAIN = Plain()


def task_occupied(t, n, kind, what, size, noise):
    names = {'rect': ['x0', 'y0', 'w', 'h'], 'circle': ['x0', 'y0', 'w'], 'square': ['x0', 'y0', 'w']}.get(what, ['x0', 'y0', 'x1', 'y1'])
    asm = []
    for s in names:
        v = R.var(s)
        asm += [v >= F(1, 100), v <= 4] if s in 'wh' else [v >= -8, v <= 8]
    if size == 'two':
        asm += [c for s in ('ox', 'oy') for c in (R.var(s) >= 0, R.var(s) <= 1)]
    tol = F(1, 1000)

    def val(s):
        return R.var(s)

    def run():
        return setup(n, kind, what, val, size)

    def claims(res):
        obs, off, cells = res
        out = [('cells of the grid', [], liftb(all(c in cells_of(n) for c in cells)))]
        must, may = [], []
        for c in cells_of(n):
            hit = [overlap(n, kind, c, half, pos, off, -tol) for _, half, pos, still in obs if still]
            touch = [overlap(n, kind, c, half, pos, off, tol) for _, half, pos, still in obs if still]
            if c in cells:
                may.append(bor(*touch))
            else:
                must.append(bnot(bor(*hit)))
        return out + [('an overlapped cell is occupied', [], band(*must) if must else liftb(True)), ('an occupied cell is overlapped', [], band(*may) if may else liftb(True))]
    seen = decide(t, 'occupied:%s:%s:%s' % (kind, what, size), asm, run, claims, 'occupied', extra=[list(n), kind, what, size], patches=patches() if noise else [(m, k, PLAIN if v is EX else v) for m, k, v in patches()], max_paths=20000,
                  tag=lambda q: 'none' if not q[2] else 'all' if len(set(q[2])) == n[0] * n[1] else 'some')
    t.reach('some' in seen and ('none' in seen or what == 'pair'), 'occupied: some and none')


def replay_occupied(case):
    n, kind, what, size = case['extra']
    n = tuple(n)
    m = case['model']
    with env.unpatched():
        try:
            obs, off, cells = setup(n, kind, what, lambda s: m.get(s, 0.5 if s in 'wh' else 0.), size)
        except Exception as e:
            return False, repr(e)
    bad = [c for c in cells_of(n) if c not in cells and any(bool(overlap(n, kind, c, half, pos, off, -5e-4)) for _, half, pos, still in obs if still)]
    worse = [c for c in cells if not any(bool(overlap(n, kind, c, half, pos, off, 5e-4)) for _, half, pos, still in obs if still)]
    return not bad and not worse, '%s of %r, grid %r (%s): overlapped but not occupied %r, occupied but not overlapped %r' % (what, m, n, kind, bad, worse)


def tasks(tier, seed):
    out = []
    where = ('low', 'mid', 'high', 'only')
    for k, (a, b) in enumerate(itertools.product(where, where)):
        for kind in (['unit', 'half', 'wide', 'tall'] if tier == 'thorough' or (a, b) == ('mid', 'mid') else [list(CELL)[k % 4]]):
            out.append(('neighbors-%s-%s-%s' % (kind, a, b), ('neighbors', kind, a, b)))
    kinds = list(CELL)
    for k, s in enumerate(cells_of((3, 3))):
        goals = cells_of((3, 3))
        for q in range(3):
            out.append(('search-3x3-%d%d-%d' % (s + (q,)), ('search', (3, 3), kinds[(k + q) % 4], s, goals[q::3])))
    for k, (n, s, g) in enumerate([((2, 4), (0, 0), (1, 3)), ((2, 4), (1, 3), (0, 0)), ((2, 4), (0, 2), (1, 0)), ((4, 2), (3, 1), (0, 0)), ((4, 2), (0, 1), (3, 0)), ((1, 4), (0, 3), (0, 0)), ((4, 1), (0, 0), (3, 0))]):
        out.append(('search-%dx%d-%d' % (n + (k,)), ('search', n, kinds[k % 4], s, [g])))
    pairs = [((4, 3), (0, 0), (3, 2)), ((4, 3), (3, 2), (0, 0)), ((3, 4), (0, 3), (2, 0)), ((3, 4), (2, 0), (0, 3)), ((4, 3), (3, 0), (0, 1))]
    for k, (n, s, g) in enumerate(pairs):
        for c in itertools.product((False, True), repeat=2):
            mid = [(1, 1), (2, 1)] if n == (4, 3) else [(1, 1), (1, 2)]
            out.append(('search-%dx%d-%d-%d%d' % (n + (k,) + c), ('search', n, kinds[(k + 1) % 4], s, [g], list(zip(mid, c)))))
    if tier == 'thorough':
        for k, (s, g) in enumerate([((0, 0), (3, 3)), ((3, 3), (0, 0)), ((0, 3), (3, 0)), ((1, 2), (3, 0))]):
            mid = [(1, 1), (2, 1), (1, 2), (2, 2)]
            mid = [c for c in mid if c not in (s, g)]
            for c in itertools.product((False, True), repeat=len(mid)):
                out.append(('search-4x4-%d-%s' % (k, ''.join('%d' % q for q in c)), ('search', (4, 4), kinds[k % 4], s, [g], list(zip(mid, c)))))
    for n, kind in (((3, 3), 'half'), ((3, 2), 'wide'), ((2, 3), 'tall'), ((3, 3), 'unit')):
        out.append(('snap-%s-%dx%d' % ((kind,) + n), ('snap', n, kind, 'grid')))
    for via in ('start', 'goal'):
        out.append(('snap-path-%s' % via, ('snap', (3, 2), 'half', via)))
    big = [((3, 3), 'unit', 'rect', 'none'), ((3, 3), 'half', 'circle', 'none'), ((4, 2), 'wide', 'rect', 'two')]
    for n, kind, what, size in (big if tier == 'thorough' else []) + [
                                ((3, 1), 'unit', 'rect', 'none'), ((1, 3), 'half', 'rect', 'two'), ((2, 2), 'wide', 'rect', 'none'), ((2, 2), 'unit', 'circle', 'two'), ((2, 3), 'tall', 'circle', 'none'), ((2, 2), 'half', 'square', 'one'),
                                ((2, 2), 'unit', 'pair', 'none'), ((2, 2), 'tall', 'moving', 'one')]:
        out.append(('occupied-%s-%s-%s-%dx%d' % ((kind, what, size) + n), ('occupied', n, kind, what, size, False)))
        if tier == 'thorough' or n[0] == 1 or what == 'moving':
            out.append(('occupied-%s-%s-%s-%dx%d-rounded' % ((kind, what, size) + n), ('occupied', n, kind, what, size, True)))
    return out
