"""C18: rows of the G-code problem keep the tool within tolerance of every segment of the program."""
import math
import itertools
import numpy as np
from .. import kin, scen, claims, rows, env, expr, sched
from ..decide import decide
from ..rows import FPW, cst
from ..expr import R, lift, symarr
from ..solver import Explorer, prove
from ..env import omg_modules, patched, sym_modules
from .c04 import Setup

INFO = dict(
    explanation='The NLP of the local problem of a G-code program (real block parser, scheduler environment and tool) is captured and turned into '
                'polynomial rows.  Claims, written from the program text alone (start, end, centre, tolerance, split fractions): every instant of every '
                'segment lies in the straight strip or the ring of the tolerance, axis-parallel lines also within the tolerance of their two ends, '
                'segments that move in z within their z range, split points within the tolerance of the exact point on the line or arc.  z3 decides '
                'each Bernstein coefficient over the rows.  The scheduler\'s hand-over test is executed on a symbolic tool position and compared '
                'with membership of the next segment\'s band.',
    bounds=['programs: the scenes (1-7 segments; lines in all quadrants, vertical/horizontal/diagonal, plunges, CW/CCW arcs, split circles, variable tolerance, '
            'tools with a radius)', 'knot intervals 2-4', 'scheduler: three programs of 2-4 blocks, 1-3 blocks ahead, 4 updates (thorough: 6), every history of entering the next block', 'every value of decision variables, motion times and initial state'],
    outside=['the end of a diagonal line or arc band (the code documents that it uses the whole line and the whole ring)',
             'arcs outside the XY plane (the parser only makes XY arcs)'],
    stubs=['the NLP solver (recorder)', 'scheduler histories: the local problem, the guess of the trajectory and the test whether the tool has entered the next block (decided by the hand-over task)'])

TOL = 0.05
TIGHT = 0.02


def g(prog, **k):
    k.setdefault('tol', TOL)
    k.setdefault('knots', 2)
    return prog, k


def build(prog, k):
    return lambda: keep(scen.gcode(prog, **k), prog, k)


def keep(b, prog, k):
    b.extra.update(prog=prog, kw=k)
    return b


VAR = dict(vopts={'variable_tolerance': True}, tool_kw={'tol_small': TIGHT}, variable_tolerance=True)
DEFS = {
    'axes': g(['G01 X1 Y0', 'G01 X1 Y2', 'G01 X-1 Y2', 'G01 X-1 Y-1']),
    'diagonal': g(['G01 X1 Y1', 'G01 X2 Y-1', 'G01 X-1 Y-2', 'G01 X-2 Y1.5']),
    'mixed': g(['G00 X1 Y1 Z0', 'G01 X2 Y1', 'G02 X3 Y0 I0 J-1', 'G03 X4 Y-1 I1 J0']),
    'level': g(['G00 X0 Y0 Z-2', 'G02 X2 Y0 I1 J0', 'G03 X0 Y0 I-1 J0', 'G01 X0 Y3']),
    'arcs': g(['G02 X1 Y1 I1 J0', 'G02 X1 Y-1 I0 J-1', 'G03 X0 Y0 I0 J1']),
    'large_ccw': g(['G03 X1 Y1 I0 J1', 'G03 X1 Y-1 I-1 J-1']),
    'split_cw': g(['G02 X1 Y-1 I1 J0', 'G01 X0 Y-1'], split_circle=True),
    'split_ccw': g(['G03 X1 Y1 I1 J0', 'G01 X2 Y1'], split_circle=True),
    'plunge': g(['G01 X0 Y0 Z-1', 'G01 X1 Y0 Z-1', 'G01 X1 Y0 Z0.5']),
    'ramp': g(['G01 X1 Y0 Z-1', 'G01 X2 Y2 Z1', 'G01 X2 Y3 Z0']),
    'helix': g(['G02 X1 Y1 Z-0.5 I1 J0', 'G03 X2 Y2 Z-1 I0 J1']),
    'radius': g(['G01 X1 Y0', 'G01 X2 Y2', 'G02 X3 Y1 I0 J-1', 'G01 X3 Y1 Z-1'], shape=scen.Circle(0.02)),
    'var_line': g(['G01 X2 Y0', 'G01 X2 Y3'], split_small=0.2, **VAR),
    'var_diag': g(['G01 X2 Y1', 'G01 X-1 Y3'], split_small=0.1, **VAR),
    'var_short': g(['G01 X2 Y1', 'G01 X2.5 Y1'], split_length=1., **VAR),
    'var_ramp': g(['G01 X3 Y0 Z-4', 'G01 X3 Y2 Z-4'], split_small=0.1, **VAR),
    'var_arc': g(['G02 X1 Y1 I1 J0', 'G03 X2 Y2 I0 J1'], split_small=0.2, **VAR),
    'var_split': g(['G02 X1 Y-1 I1 J0'], split_circle=True, split_small=0.2, **VAR),
    'flat': g(['G01 X1 Y1 Z0'], n_segments=1),
    'one': g(['G01 X1 Y1', 'G02 X2 Y0 I0 J-1', 'G01 X2 Y-2'], n_segments=1, first=1),
    'last': g(['G01 X1 Y1', 'G02 X2 Y0 I0 J-1', 'G01 X2 Y-2'], n_segments=2, first=1),
}
SC = {n: build(*d) for n, d in DEFS.items()}
QUICK = list(SC)
for _n in ('axes', 'diagonal', 'mixed', 'level', 'var_diag', 'var_arc', 'split_ccw', 'ramp'):
    SC[_n + '_k4'] = build(DEFS[_n][0], dict(DEFS[_n][1], knots=4))


def tasks(tier, seed):
    out = [('program-%s-%d' % (nm, n), ('program', nm, n, 3 if tier == 'quick' else 5)) for nm in ('axes', 'mixed', 'split_ccw') for n in (1, 2, 3)]
    return out + [('handover', ('handover',)), ('twice', ('twice',))] + claims.tasks_of(QUICK if tier == 'quick' else SC)


# ---------------------------------------------------- what the program text says

def words(line):
    out = {}
    for w in line.split():
        if w[0] == 'G':
            out['G'] = int(w[1:])
        else:
            out[w[0]] = float(w[1:])
    return out


def parts(prog, kw):
    """the pieces the scheduler makes of the program: (kind, start, end, tolerance, extra)"""
    p = [0., 0., 0.]
    out = []
    var, small = kw.get('variable_tolerance'), kw.get('split_small', 0.1)
    for i, line in enumerate(prog):
        w = words(line)
        q = [w.get(c, p[k]) for k, c in enumerate('XYZ')]
        if w['G'] == 0 and i == 0:
            p = [w.get(c, 0.) for c in 'XYZ']
        z = (min(p[2], q[2]), max(p[2], q[2]))
        tol = kw['tol']
        if w['G'] < 2:
            L3 = math.dist(p, q)
            if L3 == 0.:
                continue
            d = dict(kind='line', a=p[:2], b=q[:2], z=z, tol=tol)
            if var and L3 >= kw.get('split_length', 0.):
                at = lambda f: [p[k] + f * (q[k] - p[k]) for k in range(2)]
                out.append(dict(d, a=p[:2], b=at(small), joint=at(small)))
                out.append(dict(d, a=at(small), b=at(1 - small), tol=TIGHT, z=None, joint=at(1 - small)))
                out.append(dict(d, a=at(1 - small), b=q[:2], z=None, joint=q[:2]))
            else:
                if var:
                    d['joint'] = q[:2]
                out.append(d)
        else:
            c = [p[0] + w.get('I', 0.), p[1] + w.get('J', 0.)]
            r = math.dist(c, p[:2])
            a1, a2 = math.atan2(p[1] - c[1], p[0] - c[0]), math.atan2(q[1] - c[1], q[0] - c[0])
            sg = -1. if w['G'] == 2 else 1.
            ang = (sg * (a2 - a1)) % (2 * math.pi)
            d = dict(kind='ring', c=c, r=r, z=z, tol=tol)
            th = math.atan2(tol, r)
            ext = ang + 2 * th
            on = lambda f: [c[0] + r * math.cos(a1 + sg * f), c[1] + r * math.sin(a1 + sg * f)]
            # the scheduler may split in two overlapping halves
            if kw.get('split_circle') and ext > 3 * math.pi / 4:
                spans = [(0., ang / 2 + th), (ang / 2 - th, ang)]
            else:
                spans = [(0., ang)]
            for s, e in spans:
                if var:
                    n = e - s
                    out.append(dict(d, joint=on(s + small * n)))
                    out.append(dict(d, tol=TIGHT, joint=on(s + (1 - small) * n)))
                    out.append(dict(d, joint=on(e)))
                else:
                    out.append(dict(d))
        p = q
    return out


def scene_claims(S):
    ex = S.b.extra
    ps = parts(ex['prog'], ex['kw'])
    assert len(ps) == len(ex['rooms']), (len(ps), len(ex['rooms']))
    v = S.b.vehicles[0]
    rad = v.shapes[0].radius
    only = ex['prog'] == ['G01 X1 Y1 Z0'] and ex['kw'].get('n_segments') == 1
    for k in range(S.n):
        d = ps[ex['first'] + k]
        x, y, z = S.P.vehicle_splines(v, k)
        tol = d['tol'] - rad
        nm = 'segment %d' % k
        if d['kind'] == 'line':
            a, b = d['a'], d['b']
            L = math.dist(a, b)
            dirs = []
            if L > 0:
                u = [(b[0] - a[0]) / L, (b[1] - a[1]) / L]
                dirs.append(('across', [-u[1], u[0]], 0., 0.))
                if min(abs(u[0]), abs(u[1])) == 0.:
                    dirs.append(('along', u, 0., L))
            else:
                dirs += [('x', [1., 0.], 0., 0.), ('y', [0., 1.], 0., 0.)]
            for wn, n, lo, hi in dirs:
                e = x * n[0] + y * n[1] - (n[0] * a[0] + n[1] * a[1])
                yield 's%d:%s+@seg%d' % (k, wn, k), '%s within tolerance %s the line' % (nm, wn), e - (hi + tol)
                yield 's%d:%s-@seg%d' % (k, wn, k), '%s within tolerance %s the line (other side)' % (nm, wn), (e * -1.) + (lo - tol)
        else:
            dx, dy = x - d['c'][0], y - d['c'][1]
            r2 = dx * dx + dy * dy
            yield 's%d:outer@seg%d' % (k, k), '%s inside the outer circle' % nm, r2 - (d['r'] + tol) ** 2
            yield 's%d:inner@seg%d' % (k, k), '%s outside the inner circle' % nm, (r2 * -1.) + (d['r'] - tol) ** 2
        if d['z'] and (d['z'][0] < d['z'][1] or only):
            key = 'flat-z|' if only else ''
            lo, hi = d['z']
            m = 0. if not only else tol
            yield key + 's%d:z+@seg%d' % (k, k), '%s below its highest point' % nm, z - (hi + rad + m)
            yield key + 's%d:z-@seg%d' % (k, k), '%s above its lowest point' % nm, (z * -1.) + (lo - rad - m)
        if d.get('joint'):
            for c, nmc, j in ((x, 'x', 0), (y, 'y', 1)):
                for sg in (1., -1.):
                    e = {m: cc * sg for m, cc in c.at(1.).items()}
                    e[()] = e.get((), 0.) - sg * d['joint'][j] - TOL
                    yield 's%d:joint%s%s' % (k, nmc, '+' if sg > 0 else '-'), '%s ends within tolerance of its exact end (%s)' % (nm, nmc), e


task_scene = claims.scene_task(SC, scene_claims)
replay_claim = claims.replayer(SC, scene_claims)


# ------------------------------------------------------------------ hand-over

HAND = ['axes', 'diagonal', 'mixed', 'level', 'arcs', 'split_cw', 'var_diag', 'var_arc', 'ramp', 'plunge']


def band(d):
    """(x, y) -> list of quantities that are all negative exactly inside the (infinite) band"""
    def f(x, y):
        if d['kind'] == 'line':
            L = math.dist(d['a'], d['b'])
            u = [(d['b'][0] - d['a'][0]) / L, (d['b'][1] - d['a'][1]) / L] if L > 0 else [1., 0.]
            e = (x - d['a'][0]) * lift(-u[1]) + (y - d['a'][1]) * lift(u[0])
            return [e - lift(d['tol']), -e - lift(d['tol'])]
        r2 = (x - d['c'][0]) * (x - d['c'][0]) + (y - d['c'][1]) * (y - d['c'][1])
        return [r2 - lift((d['r'] + d['tol']) ** 2), lift((d['r'] - d['tol']) ** 2) - r2]
    return f


def task_handover(t):
    for nm in HAND:
        built = SC[nm]()
        ps = parts(built.extra['prog'], built.extra['kw'])
        s = built.extra['scheduler']
        rooms = built.extra['rooms']
        for n_seg in (1, 2):
            for k in range(len(rooms) - 1):
                pos = symarr('cur', 3)
                s.segments = rooms[k:k + n_seg]
                s.n_segments = n_seg
                s.next_segment = rooms[k + 1]
                s.goal_state = list(s.goal_state)

                def run():
                    s.curr_state = pos
                    return s.check_segments()
                inside = band(ps[k + 1])(pos[0], pos[1])
                eps = lift(1e-7)
                yes = no = False
                with patched(sym_modules(omg_modules())):
                    for pc, res, exc in Explorer([p >= -20 for p in pos] + [p <= 20 for p in pos]).run(run):
                        if exc is not None:
                            t.counterexample('handover:%s:%d:exception' % (nm, k), 'check_segments raises %r' % exc, None)
                            continue
                        res = bool(res)
                        yes, no = yes or not res, no or res
                        if not res:
                            for q in inside:
                                decide_hand(t, nm, n_seg, k, pc, q <= eps, pos, 'advance only inside the next band')
                        else:
                            dis = None
                            for q in inside:
                                dis = (q >= -eps) if dis is None else (dis | (q >= -eps))
                            decide_hand(t, nm, n_seg, k, pc, dis, pos, 'stay only outside the next band')
                t.reach(yes and no, '%s segment %d: both answers' % (nm, k))


def decide_hand(t, nm, n_seg, k, pc, goal, pos, what):
    r, m = prove(pc, goal)
    if r == 'proved':
        t.ok(what)
    elif r == 'refuted':
        p = [float(m.get(x.args[0], 0.)) for x in pos]
        t.counterexample('handover:%s:%d' % (nm, k), what, dict(kind='handover', scene=nm, n_seg=n_seg, k=k, pos=p, what=what))
    else:
        t.unknown('%s %d: %s' % (nm, k, what))


def replay_handover(case):
    built = SC[case['scene']]()
    ps = parts(built.extra['prog'], built.extra['kw'])
    s, rooms, k = built.extra['scheduler'], built.extra['rooms'], case['k']
    s.segments, s.n_segments, s.next_segment = rooms[k:k + case['n_seg']], case['n_seg'], rooms[k + 1]
    s.curr_state = np.array(case['pos'])
    res = s.check_segments()
    d = ps[k + 1]
    x, y = case['pos'][:2]
    if d['kind'] == 'line':
        L = math.dist(d['a'], d['b'])
        u = [(d['b'][0] - d['a'][0]) / L, (d['b'][1] - d['a'][1]) / L] if L > 0 else [1., 0.]
        off = abs(-(x - d['a'][0]) * u[1] + (y - d['a'][1]) * u[0])
    else:
        off = abs(math.dist((x, y), d['c']) - d['r'])
    if abs(off - d['tol']) < 1e-9:
        return None, 'on the border'
    inside = off < d['tol']
    return inside == (not res), 'tool at (%.6g, %.6g), %.6g from segment %d (tolerance %g): the scheduler %s' % (
        x, y, off, k + 1, d['tol'], 'stays' if res else 'advances')


def task_twice(t):
    """the same program can be scheduled twice: the rooms are the same"""
    for nm in ('mixed', 'var_arc', 'split_cw'):
        ok, msg = replay_twice(dict(scene=nm))
        if ok:
            t.ok('%s: second schedule has the same rooms' % nm)
        else:
            t.counterexample('twice:%s' % nm, msg, dict(kind='twice', scene=nm))


def replay_twice(case):
    built = SC[case['scene']]()
    s, bl = built.extra['scheduler'], built.extra['blocks']
    a = built.extra['rooms']
    try:
        b = env.real(s.get_environment, bl, built.vehicles[0]).room
    except Exception as e:
        return False, 'scheduling the same program a second time fails: %r' % e
    same = len(a) == len(b) and all(np.allclose(r['pose'][:3], q['pose'][:3]) and np.allclose(r['start'], q['start']) for r, q in zip(a, b))
    return same, 'rooms of the second schedule %s' % ('equal' if same else 'differ')


def task_program(t, nm, n, updates):
    """a whole program: which blocks the local problem has in every update"""
    b = SC[nm]()
    build = (b.vehicles[0], b.extra['blocks'])

    def claims(res):
        bad = [(w, [], False) for w, g in res if not g]
        return bad or [('blocks are planned in their order, the next one as soon as the tool is in it (%d claims)' % len(res), [], True)]
    decide(t, 'program:%s-%d' % (nm, n), [], lambda: sched.program(nm, R.var, n, updates, build), claims, 'program', extra=[nm, n, updates], max_paths=20000)


def replay_program(case):
    nm, n, updates = case['extra']
    b = SC[nm]()
    try:
        with env.unpatched():
            res = sched.program(nm, sched.numbers(case['model']), n, updates, (b.vehicles[0], b.extra['blocks']))
    except Exception as e:
        return False, 'the scheduler of program %s raises %r with %r' % (nm, e, case['model'])
    bad = [w for w, g in res if not g]
    return not bad, 'program %s, %d blocks ahead, tool entered %r: %s' % (nm, n, case['model'], '; '.join(sorted(set(bad))) or 'as claimed')
