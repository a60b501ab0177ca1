"""Real problems, built through the public interface with the solver replaced by a recorder."""
import numpy as np
from . import env, casx, decl, models
import omgtools as omg
from omgtools.basics.shape import Circle, Square, Rectangle, Sphere, Cuboid, Polyhedron, RegularPolyhedron, Ring
from omgtools.environment.obstacle import Obstacle
from omgtools.environment.environment import Environment

OPT = {'verbose': 0}


class Built(object):
    def __init__(self, problem, log, nlp, vehicles, obstacles, extra=None):
        self.problem, self.log, self.nlp, self.vehicles, self.obstacles = problem, log, nlp, vehicles, obstacles
        self.extra = extra or {}

    def model(self):
        return decl.Model(self.log, self.problem.father, self.nlp)


START = dict(Holonomic=[-1., -1.2], Holonomic1D=[-1.], Holonomic3D=[-1., -1., -1.], HolonomicOrient=[-1., -1.2, 0.3], Dubins=[-1., -1.2, 0.3],
             Bicycle=[-1., -1.2, 0.3, 0.1], AGV=[-1., -1.2, 0.3, 0.1], Quadrotor=[-1., -1.2], Quadrotor3D=[-1., -1., -1., 0., 0., 0., 0., 0.],
             SimpleQuadrotor3D=[-1., -1., -1., 0., 0., 0., 0., 0.], Trailer=0.1, Tool=[-1., -1., 0.])
GOAL = dict(Holonomic=[1., 1.1], Holonomic1D=[1.], Holonomic3D=[1., 1., 1.], HolonomicOrient=[1., 1.1, -0.2], Dubins=[1., 1.1, -0.2],
            Bicycle=[1., 1.1, -0.2], AGV=[1., 1.1, -0.2], Quadrotor=[1., 1.1], Quadrotor3D=[1., 1., 1., 0., 0., 0., 0., 0.],
            SimpleQuadrotor3D=[1., 1., 1.], Trailer=-0.2, Tool=[1., 1., 0.])


def p2p(*a, **k):
    return env.real(_p2p, *a, **k)


def multi(*a, **k):
    return env.real(_multi, *a, **k)


def _multi(vnames, rooms, knots=3, vopts=None, shapes=None, popts=None, obstacles=(), per_room=None, vkw=None):
    """one spline segment per room"""
    vs = []
    vnames = vnames if isinstance(vnames, (list, tuple)) else [vnames]
    with decl.record() as log, casx.capture() as got:
        for i, n in enumerate(vnames):
            kw = {}
            if shapes:
                kw['shapes'] = shapes[i]()
            kw.update((vkw or {}) if not isinstance(vkw, list) else vkw[i])
            v = models.vehicle(n, options=dict(vopts or {}), **kw)
            v.define_knots(knot_intervals=knots)
            v.set_initial_conditions(START[n])
            v.set_terminal_conditions(GOAL[n])
            vs.append(v)
        e = Environment(room=[r() for r in rooms])
        obs = [o() for o in obstacles]
        for o in obs:
            e.add_obstacle(o)
        for k, ids in (per_room or {}).items():
            e.fill_room(e.room[k], [obs[i] for i in ids])
        from omgtools.problems.multiframeproblem import MultiFrameProblem
        pb = MultiFrameProblem(vs if len(vs) > 1 else vs[0], e, n_frames=len(rooms), options=dict(OPT, **(popts or {})))
        pb.init()
    return Built(pb, log, got[-1], vs, obs, dict(per_room=per_room))


def _p2p(vnames, freeT=False, obstacles=(), room=None, knots=4, vopts=None, shapes=None, popts=None, vkw=None, free_ind=None):
    """point-to-point problem; vnames: model names; vkw: constructor arguments, for all or per vehicle"""
    vs = []
    with decl.record() as log, casx.capture() as got:
        for i, n in enumerate(vnames if isinstance(vnames, (list, tuple)) else [vnames]):
            kw = {}
            if shapes:
                kw['shapes'] = shapes[i]() if callable(shapes[i]) else shapes[i]
            if vopts:
                kw['options'] = dict(vopts)
            kw.update((vkw or {}) if not isinstance(vkw, list) else vkw[i])
            v = models.vehicle(n, **kw)
            v.define_knots(knot_intervals=knots)
            if n == 'Trailer':
                v.lead_veh.define_knots(knot_intervals=knots)
                v.lead_veh.set_initial_conditions(START['Dubins'])
                v.lead_veh.set_terminal_conditions(GOAL['Dubins'])
                v.set_initial_conditions(START[n])
                v.set_terminal_conditions(GOAL[n])
            else:
                v.set_initial_conditions(START[n])
                v.set_terminal_conditions(GOAL[n])
            vs.append(v)
        nd = vs[0].n_dim
        if room is None:
            room = {'shape': Square(6.) if nd == 2 else Cuboid(6., 6., 6.)}
        e = Environment(room=room() if callable(room) else room)
        obs = [o() for o in obstacles]
        for o in obs:
            e.add_obstacle(o)
        if free_ind is None:
            pb = omg.Point2point(vs if len(vs) > 1 else vs[0], e, freeT=freeT, options=dict(OPT, **(popts or {})))
        else:
            from omgtools.problems.point2point import FreeEndPoint2point
            pb = FreeEndPoint2point(vs if len(vs) > 1 else vs[0], e, dict(OPT, **(popts or {})),
                                    None if free_ind == 'all' else {v: list(free_ind) for v in vs})
        for v in vs:
            if hasattr(v, 'lead_veh'):
                pb.father.add(v.lead_veh)
                pb.vehicles.append(v.lead_veh)
        pb.init()
    return Built(pb, log, got[-1], vs, obs)


def gcode(*a, **k):
    return env.real(_gcode, *a, **k)


def blocks(prog, start=(0., 0., 0.)):
    """G-code text -> real block objects"""
    from omgtools.gui.gcode_block import generate_gcodeblock
    out, prev = [], None
    for n, line in enumerate(prog):
        b = generate_gcodeblock(line, n, prev)
        if b.type in ('G02', 'G03') or b.start != b.end:      # as the reader does
            out.append(b)
        prev = b
    return out


def _gcode(prog, n_segments=None, first=0, knots=3, tol=0.05, bounds=None, vopts=None, tool_kw=None, shape=None, **sched):
    """the local problem of a G-code program: segments first .. first+n_segments-1"""
    from omgtools.problems.gcodeschedulerproblem import GCodeSchedulerProblem
    from omgtools.problems.gcodeproblem import GCodeProblem
    with decl.record() as log, casx.capture() as got:
        v = models.vehicle('Tool', tolerance=tol, bounds=dict(bounds or models.tool_bounds()), options=dict(vopts or {}), **(tool_kw or {}))
        if shape is not None:
            v.shapes = [shape]
        v.define_knots(knot_intervals=knots)
        bl = blocks(prog)
        v.set_initial_conditions(list(bl[0].start))
        v.set_terminal_conditions(list(bl[-1].end))
        s = GCodeSchedulerProblem(v, bl, options=dict(OPT), **sched)
        rooms = s.environment.room
        n = n_segments or len(rooms)
        pb = GCodeProblem(v, Environment(room=rooms[first:first + n]), n)
        pb.set_options(dict(OPT))
        pb.init()
    return Built(pb, log, got[-1], [v], [], dict(blocks=bl, rooms=rooms, scheduler=s, first=first))
