"""The frame scheduler (problems/schedulerproblem.py) over several updates: the real SchedulerProblem runs with stand-ins for
the frames (which obstacle is inside, has the vehicle entered the next frame: symbolic answers), for the planner and for the
solver; the environments that it builds for the local problem are real."""
import numpy as np
from . import env
from .expr import R
from .env import quiet
import omgtools.problems.schedulerproblem as sp
from omgtools.environment.environment import Environment
from omgtools.environment.obstacle import Obstacle
import omgtools.basics.shape as shp
from omgtools.basics.optilayer import OptiChild

CHAIN = [[0., 0.], [1., 0.5], [2., 0.5], [3., 1.], [4., 1.]]

POOL = []



def numbers(model):
    """numbers for the names; those the counterexample leaves open are all different"""
    given = {}

    def val(name):
        given.setdefault(name, float(model[name]) if name in model and name[0] not in 'Tg' else -1. - len(given))
        return given[name]
    return val


class World:
    def __init__(self, val, n, kind, lshape, frames):
        self.memo, self.truths = {}, {}
        self.val = lambda name: self.memo.setdefault(name, val(name))
        self.n, self.kind, self.lshape = n, kind, lshape
        self.chain = CHAIN[:frames] + [CHAIN[-1]]
        self.made, self.solved, self.asked, self.update = [], [], {}, 0
        if not POOL:
            POOL.extend(Obstacle({'position': [6., float(k)]}, shape=shp.Circle(.1)) for k in range(8))
        self.movers, self.static = POOL[:1], POOL[1:1 + frames]

    def truth(self, name):
        if name not in self.truths:
            self.truths[name] = bool(self.val(name) > 0)
        return self.truths[name]

    def entered(self, k, u):
        return self.truth('in%d_%d' % (k, u))


def fake_frame(w):
    class Frame:
        def __init__(self, environment, start, *rest):
            self.start = [float(x) for x in start]
            k = [i for i, c in enumerate(w.chain) if c == self.start]
            self.k = k[0] if k else -1
            self.endpoint = list(w.chain[self.k + 1])
            self.waypoints = [list(self.start), list(self.endpoint)]
            self.border = {'shape': shp.Rectangle(2. + self.k, 3.), 'position': [float(self.k), 0.5], 'limits': None}
            self.type = w.kind
            self.stationary_obstacles = [w.static[self.k]]
            self.moving_obstacles = []

        def last(self):
            return self.endpoint == w.chain[-1]

        def point_in_frame(self, p, time=None, velocity=None, distance=0):
            if list(p) == w.chain[-1]:
                return self.last()
            assert distance == 0.25
            return w.truth('in%d_%d' % (self.k, w.update))

        def get_moving_obstacles(self, motion_time):
            l = [o for i, o in enumerate(w.movers) if w.truth('ob%d_%d_%d' % (i, self.k, w.update))]
            w.asked[self.k] = (w.update, motion_time, l)
            return list(l)

        def create_l_shape(self, other):
            other.border
            return self, other
    return Frame


class Father:
    def __init__(self, w, pb):
        self.w, self.pb = w, pb

    def get_variables(self, child=None, name=None, *a, **k):
        if child is None:
            class D:
                def __getitem__(self, key):
                    return np.zeros((3, 2))
            return D()
        assert child is self.pb and name[0] == 'T'
        if (name, self.w.update) not in self.pb.T:
            self.pb.T[name, self.w.update] = self.w.val('%s_%d' % (name, self.w.update))
        out = np.empty((1, 1), object)
        out[0, 0] = self.pb.T[name, self.w.update]
        return out


def fake_problem(w):
    class Local:
        def __init__(self, vehicles, environment, n_frames=1, freeT=True, options=None):
            self.vehicles, self.environment, self.n_frames = vehicles, environment, n_frames
            self.T, self.options, self.ready = {}, dict(options or {}), []
            if not freeT:
                self.options['horizon_time'] = 10.
            self.father = Father(w, self)
            self.update_times = []
            w.made.append(self)

        def set_options(self, o):
            pass

        def init(self):
            self.ready.append('init')

        def initialize(self, current_time):
            self.ready.append('initialize')

        def reset_init_guess(self, g):
            self.ready.append('guess')

        def solve(self, ct, ut):
            self.update_times.append(0.)
            w.solved.append((self, ct, ut, list(self.ready)))
    return Local


class Vehicle:
    label = 'veh'
    prediction = {'state': np.array(CHAIN[0])}


def scheduler(w):
    s = sp.SchedulerProblem.__new__(sp.SchedulerProblem)
    v = Vehicle()
    s.vehicles = [v]
    s.curr_state = list(CHAIN[0])
    s.goal_state = list(w.chain[-1]) + [0.3]
    s.environment = Environment(room={'shape': shp.Rectangle(20., 20.)})
    s.options = {'verbose': 0, 'solver_options': {}}
    s.problem_options = {'freeT': w.free}
    s.start_time, s.update_times, s.frames, s.cnt = 0., [], [], 1
    s.veh_size, s.margin = 0.25, 1.1
    s.n_frames = s._n_frames = w.n
    s.frame_type, s.frame_size, s.move_limit = w.kind, 2., .5
    s.scale_up_fine, s.l_shape = True, w.lshape

    class Grid:
        def draw(self):
            pass

    class Planner:
        grid = Grid()

        def get_path(self, start=None, goal=None):
            return [list(c) for c in w.chain[1:-1]]

        def plot_path(self, p):
            pass
    s.global_planner = Planner()
    s.get_init_guess = lambda **k: ([np.zeros((3, 2))] * s.n_frames, [w.val('g%d_%d' % (k_, w.update)) for k_ in range(s.n_frames)])
    return s


def history(val, n, kind, lshape, free, frames, updates):
    """returns for every update what is to be compared"""
    w = World(val, n, kind, lshape, frames)
    w.free = free
    F, L = fake_frame(w), fake_problem(w)
    saved = {k: getattr(sp, k) for k in ('ShiftFrame', 'CorridorFrame', 'MultiFrameProblem', 'Point2point')}
    log = []
    labels = getattr(OptiChild, '_labels', [])
    known = len(labels)
    try:
        sp.ShiftFrame = sp.CorridorFrame = F
        sp.MultiFrameProblem = sp.Point2point = L
        with quiet():
            s = scheduler(w)
            s.reinitialize()
            first = snapshot(w, s)
            for u in range(1, updates + 1):
                w.update = u
                w.solved = []
                before = [f.k for f in s.frames] + ([s.next_frame.k] if getattr(s, 'next_frame', None) is not None else [])
                s.vehicles[0].signals = {'state': np.array([[.5 * u], [.1]])}
                s.solve(.5 * u, .5)
                log.append((before, snapshot(w, s)))
    finally:
        for k, x in saved.items():
            setattr(sp, k, x)
        del labels[known:]
    return w, first, log


def snapshot(w, s):
    return dict(frames=list(s.frames), nxt=getattr(s, 'next_frame', None), n=s.n_frames, local=s.local_problem, solved=list(w.solved),
                asked=dict(w.asked), times=list(s.motion_times), rooms=[dict(r) for r in s.local_problem.environment.room], u=w.update)


def claims(res, updates):
    """(what, holds) pairs; times are compared by identity of the symbolic value (val returns one object per name)"""
    w, first, log = res
    out = []
    for u, (before, sn) in enumerate([(None, first)] + log):
        fr = sn['frames']
        out.append(('update %d: one room for each frame, with its border' % u, len(sn['rooms']) == len(fr) == sn['n'] and all(
            r['shape'] is f.border['shape'] and list(r['position']) == list(f.border['position']) for r, f in zip(sn['rooms'], fr))))
        out.append(('update %d: the rooms hold the obstacles of their frames' % u, len(sn['rooms']) == len(fr) and all(
            sorted(map(id, r['obstacles'])) == sorted(map(id, f.stationary_obstacles + sn['asked'][f.k][2])) for r, f in zip(sn['rooms'], fr))))
        out.append(('update %d: the obstacles of a frame were looked up in this update for its motion time' % u, all(
            sn['asked'][f.k][0] == sn['u'] and sn['asked'][f.k][1] is t for f, t in zip(fr, asked_times(w, sn)))))
        ks = [f.k for f in fr]
        out.append(('update %d: frames follow each other' % u, ks == list(range(ks[0], ks[0] + len(ks))) and (
            w.n > 1 or (sn['nxt'].k == ks[-1] + 1 if not fr[-1].last() else sn['nxt'] is None))))
        if before is None:
            out.append(('first frame starts at the vehicle', ks[0] == 0 and len(ks) == min(w.n, len(w.chain) - 1)))
            continue
        so = sn['solved']
        out.append(('update %d: the local problem is solved once, at the current time' % u, len(so) == 1 and so[0][0] is sn['local'] and so[0][1:3] == (.5 * u, .5) and
                    so[0][3][-1:] == ['guess'] and 'initialize' in so[0][3]))
        over = before[0] + 1 < len(w.chain) - 1 and w.entered(before[0] + 1, u)
        out.append(('update %d: handed over to the next frame only and as soon as the vehicle is in it' % u, ks[0] == before[0] + (1 if over else 0)))
    return out


def asked_times(w, sn):
    # a problem of this update was made for the guessed times when the frames changed, and for the times of the previous plan otherwise
    u = sn['u']
    if not w.free and sn['asked'][sn['frames'][0].k][1] == 10.:
        return [sn['asked'][f.k][1] for f in sn['frames']]
    a = [w.val('g%d_%d' % (k, u)) for k in range(sn['n'])]
    b = [w.val('T%d_%d' % (k, u)) for k in range(sn['n'])]
    return a if sn['asked'][sn['frames'][0].k][1] is a[0] else b


# ------------------------------------------------------------- the scheduler of G-code programs

def program(scene, val, n, updates, build):
    """the real GCodeSchedulerProblem on the real rooms of a program; stand-ins: the local problem, the guess of the trajectory
    and the answer whether the tool has reached the next segment.  Returns (what, holds) pairs"""
    import omgtools.problems.gcodeschedulerproblem as gs
    from omgtools.problems.gcodeschedulerproblem import GCodeSchedulerProblem
    memo, truths, made, solved = {}, {}, [], []
    now = [0]
    V = lambda nm: memo.setdefault(nm, val(nm))

    def truth(nm):
        if nm not in truths:
            truths[nm] = bool(V(nm) > 0)
        return truths[nm]

    class Dad:
        def __init__(self, pb):
            self.pb = pb

        def get_variables(self, child=None, name=None, *a, **k):
            if child is None:
                class D:
                    def __getitem__(self, key):
                        return np.zeros(size)
                return D()
            out = np.empty((1, 1), object)
            out[0, 0] = V('%s_%d_%d' % (name, made.index(self.pb), len(self.pb.update_times)))
            return out

    class Local:
        def __init__(self, tool, environment, n_segments=1, **k):
            self.environment, self.n, self.ready, self.update_times = environment, n_segments, [], []
            self.father = Dad(self)
            made.append(self)

        def set_options(self, o):
            pass

        def init(self):
            self.ready.append('init')

        def initialize(self, current_time):
            self.ready.append('initialize')

        def reset_init_guess(self, g):
            self.ready.append('guess')

        def solve(self, ct, ut):
            self.update_times.append(0.)
            self.father._var_result = {}
            solved.append((self, ct, ut, list(self.ready)))
    known = len(OptiChild._labels) if hasattr(OptiChild, '_labels') else 0
    saved = gs.GCodeProblem
    out = []
    try:
        gs.GCodeProblem = Local
        with quiet():
            tool, bl = build
            size = (len(tool.basis), 3)
            tool.__dict__.pop('signals', None)
            tool.set_initial_conditions(list(bl[0].start))
            tool.set_terminal_conditions(list(bl[-1].end))
            s = GCodeSchedulerProblem(tool, bl, options={'verbose': 0, 'solver_options': {}}, n_segments=n)
            rooms = s.environment.room
            N = len(rooms)

            def entered(segment, point, distance=0):
                k = [i for i, r in enumerate(rooms) if r is segment][0]
                assert list(point) == list(s.curr_state[:2])
                return truth('in%d_%d' % (k, now[0]))
            s.point_in_extended_shape = entered
            s.get_init_guess_new_segment = lambda segment: (np.zeros(size), V('g%d' % [i for i, r in enumerate(rooms) if r is segment][0]))
            s.reinitialize()
            k = 0
            for u in range(updates + 1):
                now[0], solved[:] = u, []
                tool.signals = {'state': np.array([[.1 * u], [.2], [0.]])}
                s.solve(.5 * u, .5)
                go = k + 1 < N and truth('in%d_%d' % (k + 1, u))
                k += 1 if go else 0
                loc, want = s.local_problem, rooms[k:k + min(n, N - k)]
                same = lambda a: len(a) == len(want) and all(x is y for x, y in zip(a, want))
                out.append(('the local problem has the current block and those that follow it', same(loc.environment.room) and loc.n == len(want)))
                out.append(('the segments of the scheduler are those of the local problem', same(s.segments) and s.n_segments == len(want)))
                out.append(('the tool heads for the end of the last block of the local problem', list(tool.poseT) == list(want[-1]['end'])))
                out.append(('the local problem is solved once per update, at the current time, with a guess', len(solved) == 1 and solved[0][0] is loc and
                            solved[0][1:3] == (.5 * u, .5) and 'guess' in solved[0][3] and 'initialize' in solved[0][3]))
                out.append(('the motion times are those of the solution', len(s.motion_times) >= len(want) and all(
                    s.motion_times[i] is V('T%d_%d_%d' % (i, made.index(loc), len(loc.update_times))) for i in range(len(want)))))
                out.append(('a new local problem exactly when the tool has entered the next block', len(made) == k + 1))
    finally:
        gs.GCodeProblem = saved
        if hasattr(OptiChild, '_labels'):
            del OptiChild._labels[known:]
    return out
