"""C19: exported C++ planners do what the Python problem does that they were exported from."""
import os
import shutil
import tempfile
import subprocess
import numpy as np
import casadi as cas
from fractions import Fraction as F
from .. import env, expr, ref, scen, casx
from ..expr import R, lift, liftb
from ..decide import close, decide
from ..env import quiet, unpatched, patched, omg_modules
from ..solver import prove, check, z3
from .c11 import Store, patches as c11_patches
import omgtools as omg
from omgtools.basics.shape import Circle, Square, Rectangle
from omgtools.environment.obstacle import Obstacle
from omgtools.problems.point2point import FreeEndPoint2point
from omgtools.environment.environment import Environment

INFO = dict(
    explanation='the real exporter writes the C++ sources; they are compiled with a scalar class in the place of double (numbers are computed with the same operations, operations on '
                'symbols are written down) and the solver and generated functions replaced by stand-ins that answer with fresh symbols. The exported planner is driven through its public '
                'interface and z3 compares every parameter vector, bound, initial guess and returned trajectory with what the real Python problem gives for the same measurements and answers',
    bounds=['holonomic vehicle (the one that is exported), degree 3 and 10 knot intervals; 0 to 3 obstacles of 1 to 4 check points, given trajectories of an obstacle',
            'problems with fixed horizon, soft and hard terminal constraints, a free end point, constraints switched off in time; formation (2, 3, 4 vehicles on a ring) and rendez-vous (2, 3) problems, '
            'each vehicle an exported planner, one ADMM iteration per update plus up to 2 at the start; linear user dynamics with four state matrices',
            'up to 7 updates over up to 4 knots; horizons of 10, 11, 7, 3 and 8 s; update times of 0.1 to 1.1 s, sample times 0.1, 0.05; failed updates, recovery, late updates',
            'every measured state, goal, obstacle state and solver answer (entries within 100), tolerance 1e-5'],
    outside=['the C code that CasADi generates for the problem and its functions', 'numerical integration error of the prediction (between left and right Riemann sums)', 'free end time (refused by the exporter)',
             'vehicles other than Holonomic (to be written by the user)', 'Makefile',
             'distributed planners: updates in which a solver failed (stepBack, recover), obstacles that rotate, exporting fleets of unequal vehicles'],
    stubs=['casadi (C++): recorder', 'double: class Sym'], assumptions=['g++'])

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cxx')
BOX = 100
TOL = F(1, 10**5)


# ------------------------------------------------- exported sources

class FakeSolver(object):
    def __init__(self, log, name, nlp, opts):
        log.append((name, nlp, opts))

    def generate_dependencies(self, f):
        open(f, 'w').write('/* generated by CasADi */\n')


class Scratch(object):
    def __enter__(self):
        self.old, self.d = os.getcwd(), tempfile.mkdtemp(prefix='omgv-cxx-')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


SHAPES = {'circle': lambda: Circle(0.3), 'rect': lambda: Rectangle(0.8, 0.3), 'bar': lambda: Rectangle(3., 0.2)}
SCENES = {  # obstacles, horizon, options of the vehicle
    'plain': ((), 10., {}),
    'one': (('circle',), 10., {}),
    'two': (('rect', 'circle'), 10., {'room_constraint': None}),
    'three': (('circle', 'bar', 'circle'), 11., {}),
    'late': (('rect',), 3., {}),
    'seven': (('circle',), 7., {}),
    'eight': (('bar', 'bar'), 8., {'room_constraint': None}),
    'spline': (('spline', 'circle'), 10., {}),
    'shut': (('circle',), 10., {}),
    'free': (('circle',), 10., {}),
    'halffree': ((), 9., {}),
    'hard': (('circle',), 10., {'syslimit': 'norm_2', 'stop_tol': 1e-3}),
}


class Shuts(omg.Holonomic):
    """with constraints that are switched off for some of the time"""

    def define_trajectory_constraints(self, splines, horizon_time):
        omg.Holonomic.define_trajectory_constraints(self, splines, horizon_time)
        x, y = splines
        self.define_constraint(x + y - 9., -20., 0., shutdown='t > 0.7')
        self.define_constraint(x - y - 9., -np.inf, 0.)
        self.define_constraint(y - x - 9., -21., 0., shutdown='t < 1.2')


def obstacle(kind, i):
    if kind == 'spline':
        from omgtools.basics.spline import BSplineBasis
        basis = BSplineBasis([0.] * 4 + [0.25, 0.5, 0.75] + [1.] * 4, 3)
        co = np.array([[2. + 0.1 * i + 0.05 * k, 1. - 0.1 * k] for k in range(len(basis))])
        return Obstacle({'position': [3., 3.]}, shape=Circle(0.2), options={'spline_traj': True, 'spline_params': {'knots': basis.knots, 'degree': 3, 'coeffs': co}})
    return Obstacle({'position': [0.5 + 0.4 * i, -0.3 + 0.5 * i], 'velocity': [0.1, 0.]}, shape=SHAPES[kind]())


def build(scene):
    obs, H, vopts = SCENES[scene]
    v = (Shuts if scene == 'shut' else omg.Holonomic)(shapes=Circle(0.1), options=dict(vopts))
    v.set_initial_conditions([-1., -1.2])
    v.set_terminal_conditions([1., 1.1])
    e = Environment(room={'shape': Square(5.), 'position': [0.3, 0.2]})
    for i, k in enumerate(obs):
        e.add_obstacle(obstacle(k, i))
    opts = {'horizon_time': H, 'verbose': 0}
    if scene in ('free', 'halffree'):
        pb = FreeEndPoint2point(v, e, opts, {v: [1]} if scene == 'halffree' else None)
    else:
        if scene == 'hard':
            opts.update(hard_term_con=True, no_term_con_der=True)
        pb = omg.Point2point(v, e, freeT=False, options=opts)
    with casx.capture() as got:
        pb.init()
    return pb, got


def export(pb, d, opts=None):
    """runs the real exporter; -> what reached the code generator"""
    log = []
    import sys
    e1, e2 = sys.modules['omgtools.export.export_p2p'], sys.modules['omgtools.export.export_admm']

    def nlpsol(name, solver, nlp, o=None):
        return FakeSolver(log, name, nlp, o)
    with patched([(m, 'nlpsol', nlpsol) for m in (e1, e2)]), quiet():
        pb.export(dict(opts or {}, directory=d + '/out', casadiobj='.'))
    return log


class Unsupported(Exception):
    pass


def compile_(d, main, out='run', pick=0):
    src = sorted(os.path.join(r, 'src') for r, ds, _ in os.walk(d) if 'src' in ds)[1 if pick else 0:][:1]
    cmd = ['g++', '-std=c++11', '-w', '-O0', '-D_GLIBCXX_ASSERTIONS', '-DCASADIOBJ="."', '-I' + HERE, '-I' + os.path.join(HERE, 'stub')] + ['-I' + s for s in src[:1]] + [os.path.join(HERE, main), '-o', os.path.join(d, out)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        body = ''.join(l for l in open(os.path.join(HERE, main)) if l.startswith('#include "') and 'sym.hpp' not in l)
        open(os.path.join(d, 'plain.cpp'), 'w').write('#include <casadi/casadi.hpp>\n' + body)
        q = subprocess.run(['g++', '-std=c++11', '-w', '-fsyntax-only', '-DCASADIOBJ="."', '-I' + os.path.join(HERE, 'plain')] + ['-I' + s for s in src[:1]] + [os.path.join(d, 'plain.cpp')], capture_output=True, text=True)
        if not q.returncode:
            raise Unsupported('the tracing scalar does not follow the sources: ' + '\n'.join(l for l in p.stderr.splitlines() if 'error' in l)[:400])
        raise RuntimeError('compiler: ' + '\n'.join(l for l in p.stderr.splitlines() if 'error' in l)[:600])
    return os.path.join(d, out)


class Crash(Exception):
    pass


class Trace(object):
    """what one run of the program wrote down"""

    def __init__(self, exe, args, value, prefix=''):
        p = subprocess.run([exe, '=' + prefix] + [str(a) for a in args], capture_output=True, text=True, cwd=os.path.dirname(exe), timeout=120)
        self.rec, self.ok, self.branches, self.terms = {}, {}, [], []
        end = False
        for l in open(os.path.join(os.path.dirname(exe), 'trace.txt')):
            w = l.split()
            if not w:
                continue
            if w[0] == 'v':
                self.terms.append(value(w[2]))
            elif w[0] == 'n':
                a, b = self.term(w[3]), self.term(w[4])
                self.terms.append({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[w[2]]())
            elif w[0] == 'b':
                a, b = self.term(w[2]), self.term(w[3])
                c = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[w[1]]
                self.branches.append((c, w[4] == '1'))
            elif w[0] == 'r':
                self.rec[w[1]] = [self.term(x) for x in w[2:]]
            elif w[0] == 'ok':
                self.ok[int(w[1])] = w[2] == '1'
            elif w[0] == 'unsupported':
                raise Unsupported(l)
            elif w[0] == 'end':
                end = True
        if p.returncode or not end:
            raise Crash('the exported program ends with code %d after %d updates %s' % (p.returncode, len(self.ok), p.stderr.strip()[:200]))

    def term(self, s):
        if s[0] == '#':
            return self.terms[int(s[1:])]
        v = float(s) if 'inf' in s or 'nan' in s else float.fromhex(s)
        return v if v in (float('inf'), float('-inf')) or v != v else lift(F(v)) if self.symbolic else v
    symbolic = True


class NumTrace(Trace):
    symbolic = False


# ------------------------------------------------- what the Python problem gives

class Plan(object):
    """trajectory of the plan that the solver answered, in the time of the plan"""

    def __init__(self, pb, coeffs, t0, H):
        self.co, self.t0, self.H = coeffs, F(t0), F(H)     # coeffs: per spline
        bs = pb.vehicles[0].basis
        self.knots, self.deg = [F(float(k)).limit_denominator(10**6) for k in bs.knots], bs.degree

    def at(self, dt, der=0):
        """value (or derivative with respect to time) after dt seconds"""
        x = (self.t0 + F(dt)) / self.H
        if not der:
            w = ref.basis_values(self.knots, self.deg, x)
            return [lin(w, c) for c in self.co]
        kn, p = self.knots, self.deg
        w = ref.basis_values(kn[1:-1], p - 1, x)
        out = []
        for c in self.co:
            d = [(c[i + 1] - c[i]) * lift(F(p) / (kn[i + p + 1] - kn[i + 1]) / self.H) for i in range(len(c) - 1)]
            out.append(lin(w, d))
        return out


def lin(w, c):
    return sum((lift(F(b)) * x for b, x in zip(w, c) if b), R.const(0))


class Layout(object):
    """entries of the flat vectors, found through the public structures of the father"""

    def __init__(self, pb):
        f = pb.father
        self.f = f

        def index(struct):
            n = struct(0).cat.shape[0]
            full = struct(cas.DM(list(range(n))))
            out = {}
            for lab, c in f.children.items():
                for nm in (c._variables if struct is f._var_struct else c._parameters):
                    out[lab, nm] = np.array(cas.DM(full[lab, nm])).round().astype(int)
            return n, out
        self.nx, self.x = index(f._var_struct)
        self.np, self.p = index(f._par_struct)
        self.other = {int(i) for c in f.children.values() for n in c._splines_prim if n in c._variables and 'seg' not in n for i in self.x[c.label, n].ravel()}


def vec(layout, n, values):
    out = [None] * n
    for key, v in values.items():
        ix = layout[key]
        a = np.array(v, object).reshape(ix.shape, order='F')
        for i in np.ndindex(ix.shape):
            out[ix[i]] = a[i]
    return out


SCRIPTS = {  # scene, update time, sample time, length, updates, prediction, outcome per update, late samples, avoid per obstacle
    'plain:plan': ('plain', 0.5, 0.1, 6, 5, 'plan', '00000', '00000', ()),
    'one:plan': ('one', 0.5, 0.1, 10, 5, 'plan', '00000', '00000', ('11111',)),
    'two:knots': ('two', 1.0, 0.1, 12, 4, 'plan', '0000', '0000', ('1111', '1111')),
    'two:avoid': ('two', 0.5, 0.1, 6, 4, 'plan', '0000', '0000', ('1010', '0011')),
    'one:provide': ('one', 0.5, 0.1, 6, 4, 'provide', '0000', '0000', ('1111',)),
    'one:integrate': ('one', 0.5, 0.1, 6, 4, 'integrate', '0000', '0000', ('1111',)),
    'three:odd': ('three', 1.1, 0.1, 12, 5, 'plan', '00000', '00000', ('11111', '11111', '11011')),
    'late:tenths': ('late', 0.3, 0.1, 5, 7, 'plan', '0000000', '0000000', ('1111111',)),
    'late:jumps': ('late', 0.6, 0.1, 8, 4, 'plan', '0000', '0000', ('1111',)),
    'late:jumps2': ('late', 0.5, 0.1, 8, 5, 'plan', '00000', '00000', ('11111',)),
    'seven:fifths': ('seven', 0.35, 0.05, 9, 6, 'plan', '000000', '000000', ('111111',)),
    'one:fails': ('one', 0.5, 0.1, 6, 6, 'plan', '010010', '000000', ('111111',)),
    'one:startfails': ('one', 1.0, 0.1, 12, 5, 'plan', '10000', '00000', ('11111',)),
    'eight:recover': ('eight', 0.4, 0.1, 6, 5, 'plan', '00r00', '00000', ('11111', '11111')),
    'two:late': ('two', 0.5, 0.1, 12, 5, 'plan', '00000', '00300', ('11111', '11111')),
    'two:lateint': ('two', 0.5, 0.1, 12, 4, 'integrate', '0000', '0020', ('1111', '1111')),
    'spline:plan': ('spline', 0.5, 0.1, 6, 4, 'plan', '0000', '0000', ('1111', '1111')),
    'shut:plan': ('shut', 0.5, 0.1, 6, 5, 'plan', '00000', '00000', ('11011',)),
    'free:plan': ('free', 0.5, 0.1, 6, 5, 'plan', '00000', '00000', ('11111',)),
    'halffree:knots': ('halffree', 0.9, 0.1, 10, 4, 'plan', '0000', '0000', ()),
    'hard:plan': ('hard', 0.6, 0.1, 7, 4, 'plan', '0000', '0000', ('1111',)),
    'eight:short': ('eight', 0.4, 0.1, 2, 5, 'plan', '00000', '00000', ('11111', '11111')),
}


def arguments(pb, name):
    scene, U, Ts, n, N, pred, fails, shift, avoid = SCRIPTS[name]
    a = [SCENES[scene][1], U, Ts, n, N, pred, fails, shift]
    for o, av in zip(pb.environment.obstacles, avoid):
        pts, rad = o.shape.get_checkpoints()
        a += [len(rad), o.options['spline_params']['coeffs'].size if o.options['spline_traj'] else 0, av]
    return a


def vs(value, name, n):
    return [value('%s.%d' % (name, i)) for i in range(n)]


class TransformSpy(object):
    """the real warm start of the Python problem, on terms"""

    def __init__(self, pb, lay):
        self.pb, self.lay = pb, lay

    def shift(self, x, before, now):
        f, pb = self.pb.father, self.pb
        keep = {k: getattr(f, k) for k in ('_var_result', '_dual_var_result', '_var_struct', '_con_struct', '_par_struct')}
        init = pb.init_time if hasattr(pb, 'init_time') else None
        st = Store()
        for key, ix in self.lay.x.items():
            a = np.empty(ix.shape, object)
            for i in np.ndindex(ix.shape):
                a[i] = x[ix[i]]
            st[key] = a
        try:
            f._var_struct = f._par_struct = f._con_struct = Store()
            f._var_result, f._dual_var_result = st, Store()
            f.init_transformations(pb.init_primal_transform, pb.init_dual_transform)
            pb.initialize(0.)
            if before == 0:
                pb.init_step(0., 0.1)
                f._var_result = st
            else:
                pb.init_step(0., 0.1)
                pb.init_step(before, 0.1)
                f._var_result = self_copy(st, x, self.lay)
            pb.init_step(now, 0.1)
            out = list(x)
            for key, ix in self.lay.x.items():
                a = f._var_result[key]
                for i in np.ndindex(ix.shape):
                    out[ix[i]] = a[i]
            return out
        finally:
            for k, v in keep.items():
                setattr(f, k, v)


def self_copy(st, x, lay):
    n = Store()
    for key, ix in lay.x.items():
        a = np.empty(ix.shape, object)
        for i in np.ndindex(ix.shape):
            a[i] = x[ix[i]]
        n[key] = a
    return n


def expected(pb, lay, name, value, adm=None):
    """[(record, expected vector, which entries)] for the script, from the Python problem"""
    scene, U, Ts, n, N, pred, fails, shift, avoid = (SCRIPTS if adm is None else TEAMS)[name]
    H = (SCENES[scene] if adm is None else (0, 10.))[1]
    U, Ts, h = F(str(U)), F(str(Ts)), F(str(H)) / pb.vehicles[0].knot_intervals
    v, f = pb.vehicles[0], pb.father
    spy = TransformSpy(pb, lay)
    now, plan, guess, before = F(0), None, None, F(0)
    out = []
    for k in range(N):
        now += int(shift[k]) * Ts
        s0, g = vs(value, 's%d' % k, 2), vs(value, 'g%d' % k, 2)
        # prediction of the state in which the plan starts
        if now == 0:
            state, inp = s0, [lift(0)] * 2
        else:
            d = U + int(shift[k]) * Ts
            inp = plan.at(d, 1)
            if pred == 'plan':
                state = plan.at(d)
            elif pred == 'provide':
                state = s0
            else:
                steps = int(U / Ts)
                us = [plan.at((j + int(shift[k])) * Ts, 1) for j in range(steps + 1)]
                state = None
                ints = [(s0[j], [u[j] for u in us]) for j in range(2)]
        if adm is not None:
            adm.start(k, int(now / h) - int(before / h))
        # parameters of the Python problem for these measurements
        par = {}
        vec_of = {}
        keepp = v.__dict__.get('prediction')
        poseT = v.__dict__.get('poseT')
        v.prediction = {'state': np.array(state if state is not None else [lift(0)] * 2, object), 'input': np.array(inp, object)}
        v.poseT = np.array(g, object)
        tk = now - h * int(now / h)
        keys = {}
        for o, ob in enumerate(pb.environment.obstacles):
            ox, ov, oa = (vs(value, 'o%d.%d.%s' % (o, k, c), 2) for c in 'xva')
            half = lift(F(1, 2) * U * U)
            px = [a + lift(U) * b + half * c for a, b, c in zip(ox, ov, oa)]
            pv = [b + lift(U) * c for b, c in zip(ov, oa)]
            lab = ob.label
            for nm in ob._parameters:
                m = lay.p[lab, nm].size
                keys[lab, nm] = {'x': px, 'v': pv, 'a': oa}.get(nm) or vs(value, 'o%d.%d.%s' % (o, k, {'traj_coeffs': 'traj'}.get(nm, nm)), m)
        got = {}
        for c in f.children.values():
            if c in pb.environment.obstacles:
                continue
            for ch, dct in c.set_parameters(float(now)).items():
                for nm, x in dct.items():
                    got[ch.label, nm] = x
        v.prediction, v.poseT = keepp, poseT
        for key in lay.p:
            if key in keys:
                continue
            if adm is not None and key in adm.keys:
                keys[key] = adm.parameter(key)
                continue
            if key[1] == 'rel_pos_c':
                keys[key] = vs(value, 'rel%d' % k, lay.p[key].size)
                continue
            x = got[key]
            keys[key] = [lift(F(str(round(float(y), 9)))) if isinstance(y, (float, int, np.floating)) else y for y in np.array(x, object).ravel(order='F')]
        if adm is not None and k == 0:      # copies of the initial guess, which is a straight line
            adm.first(out, lay, state, g, keys)
        par = vec(lay.p, lay.np, keys)
        rec = 'arg.%d.' % k
        skip = set()
        if state is None:
            six = lay.p[v.label, 'state0'].ravel(order='F')
            skip = set(six)
            for j in range(2):
                out.append((rec + 'p', 'riemann', (six[j],) + ints[j] + (Ts,)))
        out.append((rec + 'p', par, [i for i in range(lay.np) if i not in skip]))
        # bounds
        lb, ub = f.update_bounds(float(now))
        lb, ub = [float(x) for x in np.array(lb.cat).ravel()], [float(x) for x in np.array(ub.cat).ravel()]
        free = set()
        at = 0
        for c in f.children.values():
            for nm, con in c._constraints.items():
                m = con[0].size(1)
                if c in pb.environment.obstacles and avoid[pb.environment.obstacles.index(c)][k] == '0':
                    free |= set(range(at, at + m))
                at += m
        out.append((rec + 'lbg', [-np.inf if i in free else x for i, x in enumerate(lb)], range(len(lb))))
        out.append((rec + 'ubg', [np.inf if i in free else x for i, x in enumerate(ub)], range(len(ub))))
        # initial guess
        six = lay.x[v.label, 'splines_seg0']
        line = {}
        L = six.shape[0]
        st = state if state is not None else None
        if guess is None or adm is None and now == 0 or fails[k] == 'r':
            for j in range(2):
                for i in range(L):
                    line[six[i, j]] = st[j] + lift(F(i, L - 1)) * (g[j] - st[j])
            if now == 0 and guess is None:
                guess = [line.get(i, lift(0)) for i in range(lay.nx)]
            else:
                guess = [line.get(i, guess[i]) for i in range(lay.nx)]
            # coefficients of the vehicle only: nothing is claimed about the others
            out.append((rec + 'x0', guess, sorted(line)))
            aux = set(range(lay.nx)) - set(line)
        else:
            m0, m1 = int(before / h), int(now / h)
            if m1 > m0:
                guess = spy.shift(guess, float(before), float(now))
                aux |= lay.other        # splines that are no part of a segment: a guess that Python does not shift
            out.append((rec + 'x0', guess, [i for i in range(lay.nx) if i not in aux]))
        if fails[k] == '1':
            out.append(('ok', k, False))
            before = now
            continue
        out.append(('ok', k, True))
        x = vs(value, 'x%d' % k, lay.nx)
        guess, aux = x, set()
        co = [[x[six[i, j]] for i in range(L)] for j in range(2)]
        plan = Plan(pb, co, tk, F(str(H)))
        for j in range(n):
            out.append(('state.%d.%d' % (k, j), plan.at(j * Ts), range(2)))
            out.append(('input.%d.%d' % (k, j), plan.at(j * Ts, 1), range(2)))
        out.append(('coeffs.%d' % k, [c for cc in co for c in cc], range(2 * L)))
        before = now
        if adm is not None:
            adm.step(out, k, x, par, skip, tk)
        if adm is None or k >= adm.init_iter:
            now += U
    return out


class Team(object):
    """the consensus part of one vehicle of a distributed problem: what ADMM does in omgtools.problems.admm"""

    def __init__(self, pb, trace, value, which=0):
        self.pb, self.tr, self.value = pb, trace, value
        u = self.u = pb.updaters[which]
        self.init_iter, self.rho = pb.options['init_iter'], lift(F(str(pb.options['rho'])))
        self.n, self.m = u.q_i_struct.shape[0], u.q_ij_struct.shape[0]
        z1, z2 = [lift(0)] * self.n, [lift(0)] * self.m
        self.v = dict(x_i=z1, z_i=z1, l_i=z1, z_ij=z2, l_ij=z2, z_ji=z2, l_ji=z2)
        self.keys = {(u.label, a) for a in ('z_i', 'z_ji', 'l_i', 'l_ji', 'rho')}
        self.names = [nm for q in u.q_i.values() for nm in q]
        from omgtools.basics.spline_extra import shift_over_knot
        self.T = {}
        for key, st, q in (('i', u.q_i_struct, u.q_i), ('ij', u.q_ij_struct, u.q_ij), ('ji', u.q_ji_struct, u.q_ji)):
            n = st.shape[0]
            self.T[key] = np.array([np.array(cas.DM(u._transform_spline(st(cas.DM.eye(n)[:, i]), shift_over_knot, q).cat)).ravel() for i in range(n)]).T

    def parameter(self, key):
        return [self.rho] if key[1] == 'rho' else self.v[key[1]]

    def start(self, k, knots):
        if k:
            for a in ('z_ji', 'l_ji'):
                self.v[a] = [x for j in range(self.m // self.n) for x in vs(self.value, '%s%d.%d' % (a.replace('_', ''), k, j), self.n)]
        for _ in range(knots):
            for a in self.v:
                T = self.T[a.split('_')[1]]
                self.v[a] = [lin([F(float(t)) for t in row], self.v[a]) for row in T]

    def shared(self, out, k, which, x, par, mine):
        """shared variables for solver vector x and parameters par"""
        res = []
        for child, q in self.u.q_i.items():
            for nm, ind in q.items():
                if nm in child._substitutes:
                    calls = sorted(int(r.split('.')[3]) for r in self.tr.rec if r.startswith('ext.%d.%s.' % (k, nm)) and r.endswith('.0'))
                    if not calls:
                        out.append(('ext.%d.%s.0.0' % (k, nm), x, range(len(x))))
                        return [lift(0)] * self.n
                    c = calls[which]
                    out.append(('ext.%d.%s.%d.0' % (k, nm, c), x, [i for i in range(len(x)) if x[i] is not None]))
                    out.append(('ext.%d.%s.%d.1' % (k, nm, c), par, [i for i in range(len(par)) if par[i] is not None and i not in mine]))
                    y = vs(self.value, 'f.%d.%s' % (c + 1, nm), self.sizes()[nm])
                    res += [y[i] for i in ind]
                else:
                    ix = self.lay.x[child.label, nm].ravel(order='F')
                    res += [x[ix[i]] for i in ind]
        return res

    def sizes(self):
        return {nm: int(np.prod(child._substitutes[nm].shape)) if hasattr(child._substitutes[nm], 'shape') else max(ind) + 1
                for child, q in self.u.q_i.items() for nm, ind in q.items() if nm in child._substitutes}

    def first(self, out, lay, state, g, keys):
        self.lay = lay
        six = lay.x[self.u.problem.vehicles[0].label, 'splines_seg0']
        L = six.shape[0]
        x = [None] * lay.nx
        for j in range(2):
            for i in range(L):
                x[six[i, j]] = state[j] + lift(F(i, L - 1)) * (g[j] - state[j])
        par = vec(lay.p, lay.np, keys)
        mine = {i for key in self.keys if key in lay.p for i in lay.p[key].ravel()}
        self.v['x_i'] = self.v['z_i'] = self.shared(out, 0, 0, x, par, mine)
        self.v['z_ji'] = self.v['x_i'] * (self.m // self.n)
        for key in self.keys & set(lay.p):
            keys[key] = self.parameter(key)

    def step(self, out, k, x, par, skip, tk):
        u, v = self.u, self.v
        v['x_i'] = self.shared(out, k, -1, x, par, skip)
        out.append(('xvar.%d' % k, v['x_i'], range(self.n)))
        blocks = range(self.m // self.n)
        x_j = [y for j in blocks for y in vs(self.value, 'xj%d.%d' % (k, j), self.n)]
        t, T = [lift(tk)], [lift(F(str(u.problem.options['horizon_time'])))]

        def call(fun, args):
            nm = fun.name()
            calls = [int(r.split('.')[3]) for r in self.tr.rec if r.startswith('ext.%d.%s.' % (k, nm)) and r.endswith('.0')]
            c = max(calls) if calls else 0
            for i, arg in enumerate(args):
                out.append(('ext.%d.%s.%d.%d' % (k, nm, c, i), arg, range(len(arg))))
            return nm
        z_p, zij_p = v['z_i'], v['z_ij']
        nm = call(u.problem_upd_z, [v['x_i'], v['l_i'], v['l_ij'], x_j, t, T, [self.rho]])
        v['z_i'], v['z_ij'] = vs(self.value, '%s.%d.0' % (nm, k), self.n), vs(self.value, '%s.%d.1' % (nm, k), self.m)
        nm = call(u.problem_upd_l, [v['x_i'], v['z_i'], v['z_ij'], v['l_i'], v['l_ij'], x_j, [self.rho]])
        v['l_i'], v['l_ij'] = vs(self.value, '%s.%d.0' % (nm, k), self.n), vs(self.value, '%s.%d.1' % (nm, k), self.m)
        nm = call(u.problem_upd_res, [v['x_i'], v['z_i'], z_p, v['z_ij'], zij_p, x_j, t, T, [self.rho]])
        out.append(('residuals.%d' % k, [y for i in range(3) for y in vs(self.value, '%s.%d.%d' % (nm, k, i), 1)], range(3)))
        for j in blocks:
            for a in ('z_ij', 'l_ij'):
                out.append(('%s.%d.%d' % (a.replace('_', ''), k, j), v[a][j * self.n:(j + 1) * self.n], range(self.n)))


TEAMS = {  # scene (class, vehicles, obstacles, iterations at the start), update time, sample time, length, updates, prediction, outcome, late samples, avoid
    'formation4': (('FormationPoint2point', 4, 1, 2), 0.5, 0.1, 8, 7, 'plan', '0000000', '0000000', ('1111111',)),
    'formation2': (('FormationPoint2point', 2, 0, 0), 1., 0.1, 12, 4, 'plan', '0000', '0000', ()),
    'formation3': (('FormationPoint2point', 3, 2, 1), 0.4, 0.1, 2, 6, 'integrate', '000000', '000000', ('110111', '111111')),
    'late4': (('FormationPoint2point', 4, 0, 1), 0.8, 0.1, 12, 6, 'plan', '000000', '000300', ()),
    'separate3': (('FormationPoint2point', 3, 1, 1, 'separate'), 0.5, 0.1, 8, 5, 'plan', '00000', '00000', ('11111',)),
    'mixed3': (('FormationPoint2point', 3, 1, 0, 'mixed'), 0.7, 0.1, 8, 4, 'plan', '0000', '0000', ('1111',)),
    'meet3': (('RendezVous', 3, 1, 2), 0.5, 0.1, 8, 7, 'plan', '0000000', '0000000', ('1111111',)),
    'meet2': (('RendezVous', 2, 0, 1), 1.3, 0.1, 14, 5, 'provide', '00000', '00000', ()),
}


class Other(omg.Holonomic):
    """another type of vehicle: its planner is exported on its own"""


PICK = {'separate3': 1, 'mixed3': 2}  # which vehicle's planner


def build_team(cls, N, nobs, init_iter, kind=None):
    vs_ = [(Other if kind == 'mixed' and i == 2 else omg.Holonomic)(shapes=Circle(0.1)) for i in range(N)]
    fleet = omg.Fleet(vs_)
    conf = np.array([[0.3, 0.1], [-0.2, 0.25], [-0.15, -0.3], [0.2, -0.35]])[:N]
    fleet.set_configuration(conf.tolist())
    fleet.set_initial_conditions((conf - 1.1).tolist())
    fleet.set_terminal_conditions((conf + 1.2).tolist())
    e = Environment(room={'shape': Square(5.)})
    for i in range(nobs):
        e.add_obstacle(obstacle(('circle', 'bar')[i], i))
    pb = getattr(omg, cls)(fleet, e, options={'horizon_time': 10., 'verbose': 0, 'rho': 1.7, 'init_iter': init_iter, 'separate_build': kind == 'separate'})
    with casx.capture() as got:
        pb.init()
    return pb, got


def setup_team(name, d):
    with unpatched():
        pb, got = build_team(*TEAMS[name][0])
        export(pb, d)
        up = pb.updaters[PICK.get(name, 0)].problem
        return pb, up, Layout(up), compile_(d, 'admm.cpp', pick=PICK.get(name, 0))


def team_arguments(pb, up, lay, name):
    scene, U, Ts, n, N, pred, fails, shift, avoid = TEAMS[name]
    u = pb.updaters[PICK.get(name, 0)]
    t = Team.sizes(type('S', (), {'u': u}))
    rel = [ix.size for key, ix in lay.p.items() if key[1] == 'rel_pos_c'] or [2]
    a = [10., U, Ts, n, N, pred, fails, shift, scene[3], pb.options['rho'], u.q_ij_struct.shape[0] // u.q_i_struct.shape[0], rel[0], ','.join('%s:%d' % x for x in t.items()) or 'none:0']
    for o, av in zip(up.environment.obstacles, avoid):
        pts, rad = o.shape.get_checkpoints()
        a += [len(rad), 0, av]
    return a


def task_team(t, name):
    with Scratch() as d:
        stage = 'export'
        try:
            pb, up, lay, exe = setup_team(name, d)
            stage = 'crash'
            tr = Trace(exe, team_arguments(pb, up, lay, name), R.var)
        except Unsupported as e:
            t.unknown('%s: %s' % (name, e))
            return
        except Exception as e:
            t.counterexample('%s:%s' % (name, stage), '%s: %s: %r' % (name, stage, e), dict(kind='team', extra=[name], model={}))
            return
    if tr.branches:
        t.unknown('%s: program branches on data' % name)
        return
    with unpatched():
        team = Team(pb, tr, R.var, PICK.get(name, 0))
    with patched(c11_patches()):
        want = expected(up, lay, name, R.var, team)
    settle(t, tr, name, want, 'team')


def goal_of(tr, e, tol=TOL):
    """-> z3 obligation, or a plain truth value"""
    rec, want, which = e
    if rec == 'ok':
        return tr.ok.get(want) is which
    got = tr.rec.get(rec)
    if got is None:
        return False
    if want == 'riemann':
        i, s0, us, Ts = which
        trap = s0 + sum((lift(Ts) * (a + b) * lift(F(1, 2)) for a, b in zip(us, us[1:])), R.const(0))
        d = got[i] - trap
        m = lift(Ts) * (us[-1] - us[0]) * lift(F(1, 2))
        return expr.band(expr.bor(d <= m + TOL, d <= TOL - m), expr.bor(d >= m - TOL, d >= -TOL - m))
    a, b = [], []
    if len(got) < len(want):
        return False
    for i in which:
        x, y = got[i], want[i]
        if isinstance(x, float) and abs(x) == float('inf') or isinstance(y, float) and abs(y) == float('inf'):
            if not (isinstance(x, float) and isinstance(y, float) and x == y):
                return False
            continue
        if y is None:
            continue
        a.append(x)
        b.append(lift(y))
    return close(a, b, tol)


def setup(scene, d, main='p2p.cpp'):
    with unpatched():
        pb, got = build(scene)
        log = export(pb, d)
        return pb, Layout(pb), compile_(d, main), got, log


def task_nlp(t, scene):
    """the problem that reaches the code generator is the one that Python solves"""
    with Scratch() as d, unpatched():
        pb, got = build_team(*TEAMS[scene][0]) if scene in TEAMS else build(scene)
        log = export(pb, d)
    case = dict(kind='nlp', extra=[scene], model={})
    if len(got) != len(log) or not got:
        t.counterexample('nlp:%s' % scene, '%s: %d problems solved, %d exported' % (scene, len(got), len(log)), case)
        return
    for k, (got_k, (_, nlp_k, _)) in enumerate(zip(got, log)):
        a, b = got_k, casx.Nlp('exported', 'ipopt', nlp_k, {})
        if (a.nx, a.np, a.ng) != (b.nx, b.np, b.ng):
            t.counterexample('nlp:%s' % scene, '%s: sizes %s solved, %s exported' % (scene, (a.nx, a.np, a.ng), (b.nx, b.np, b.ng)), dict(case, extra=[scene, k]))
            return
        xs, ps = [R.var('x%d' % i) for i in range(a.nx)], [R.var('p%d' % i) for i in range(a.np)]
        (f, g), (f2, g2) = a.terms(xs, ps), b.terms(xs, ps)
        for i, (u, v) in enumerate(zip([f] + list(g), [f2] + list(g2))):
            goal = u == v
            what = '%s %d: %s' % (scene, k, 'objective' if i == 0 else 'constraint %d' % (i - 1))
            verdict, m = prove([], liftb(goal), 60000)
            if verdict == 'proved':
                t.ok(what)
            elif verdict == 'refuted':
                t.counterexample('nlp:%s' % scene, what, dict(case, extra=[scene, k], model={i: float(x) for i, x in (m or {}).items()}))
                return
            else:
                t.unknown(what)
    t.reach(a.ng > 10, scene)


def replay_nlp(case):
    scene = case['extra'][0]
    with Scratch() as d, unpatched():
        pb, got = build_team(*TEAMS[scene][0]) if scene in TEAMS else build(scene)
        log = export(pb, d)
        if len(got) != len(log) or not got:
            return False, '%d problems solved, %d exported' % (len(got), len(log))
        i = (case['extra'] + [0])[1]
        a, b = got[i], casx.Nlp('exported', 'ipopt', log[i][1], {})
        if (a.nx, a.np, a.ng) != (b.nx, b.np, b.ng):
            return False, 'sizes'
        r = np.random.RandomState(1)
        x, p = [r.uniform(-1, 1, n) for n in (a.nx, a.np)]
        p = np.abs(p)
        for k, v in case['model'].items():
            (x if k[0] == 'x' else p)[int(k[1:])] = v
        ra, rb = [np.concatenate([np.array(cas.DM(o)).ravel() for o in n.fun()(x, p)]) for n in (a, b)]
        bad = np.abs(ra - rb).max()
        return bool(bad <= 1e-9 * (1 + np.abs(ra).max())), '%s: objective and constraints differ by %r' % (scene, float(bad))


def task_p2p(t, name):
    scene = SCRIPTS[name][0]
    with Scratch() as d:
        try:
            pb, lay, exe, got, log = setup(scene, d)
        except Unsupported as e:
            t.unknown('%s: %s' % (name, e))
            return
        except Exception as e:
            t.counterexample('%s:export' % name, '%s: export fails: %r' % (name, e), dict(kind='p2p', extra=[name], model={}))
            return
        try:
            tr = Trace(exe, arguments(pb, name), R.var)
        except Unsupported as e:
            t.unknown('%s: %s' % (name, e))
            return
        except Crash as e:
            t.counterexample('%s:crash' % name, '%s: %s' % (name, e), dict(kind='p2p', extra=[name], model={}))
            return
    if tr.branches:
        t.unknown('%s: program branches on data' % name)
        return
    with patched(c11_patches()):
        want = expected(pb, lay, name, R.var)
    settle(t, tr, name, want, 'p2p')


def settle(t, tr, name, want, kind, tol=TOL):
    for e in want:
        g = goal_of(tr, e, tol)
        what = '%s %s' % (name, e[0] if e[0] != 'ok' else 'result %d' % e[1])
        case = lambda m: dict(kind=kind, extra=[name], what=e[0], model={k: float(x) for k, x in (m or {}).items()})
        if g is True or g is False:
            g = expr.TRUE if g else expr.FALSE
        verdict, m = prove(box(g), g, 60000)
        if verdict == 'proved':
            t.ok(what)
        elif verdict == 'refuted':
            t.counterexample(kind + ':%s:%s' % (name, key_of(e)), what, case(m))
            return
        else:
            t.unknown(what)
    t.reach(len(want) > 1, name)


def key_of(e):
    return 'result' if e[0] == 'ok' else e[0].split('.')[0] + '.' + e[0].split('.')[-1] if e[0].startswith('arg') else e[0].split('.')[0]


def box(g):
    return [c for x in expr.topo([g]) if x.op == 'v' for c in (x <= BOX, x >= -BOX)]


def replay_p2p(case):
    name = case['extra'][0]
    val = valuation(case['model'])
    with unpatched(), Scratch() as d:
        try:
            pb, lay, exe, got, log = setup(SCRIPTS[name][0], d)
            tr = NumTrace(exe, arguments(pb, name), val)
        except Unsupported as e:
            return None, str(e)
        except Exception as e:
            return False, repr(e)
        return differences(tr, name, expected(pb, lay, name, val))


def valuation(model):
    def val(n):
        if n in model:
            return model[n]
        r = np.random.RandomState(sum(ord(c) * 131 ** i for i, c in enumerate(n[:6])) % (2 ** 31))
        return float(r.uniform(-1, 1))
    return val


def differences(tr, name, want):
    bad = []
    for e in want:
        ok, msg = agrees(tr, e)
        if not ok:
            bad.append('%s: %s' % (e[0], msg))
    return not bad, '%s: %s' % (name, '; '.join(bad[:4]) or 'as the Python problem')


ODES = {  # A, predicted time, sample time, late samples
    'turn': ((0., 1., -1., 0.), 0.5, 0.1, 0), 'decay': ((-1., 0.3, 0., -2.), 0.4, 0.05, 2), 'grow': ((0.5, -0.2, 0.7, 0.1), 1., 0.1, 3), 'rest': ((0., 0., 0., 0.), 0.3, 0.1, 1),
}


def ode_want(name, value):
    from scipy.linalg import expm
    A, T, Ts, late = ODES[name]
    M = np.zeros((4, 4))
    M[:2, :2] = np.array(A).reshape(2, 2)
    M[:2, 2:] = np.eye(2)
    M = expm(M * T)
    x = vs(value, 's', 2) + vs(value, 'u', 2)
    return [('state', [lin([F(float(w)) for w in M[i]], x) for i in range(2)], range(2)), ('input', vs(value, 'u', 2), range(2))]


def ode_trace(name, d, value, kind):
    with unpatched():
        pb, got = build('plain')
        export(pb, d)
        exe = compile_(d, 'ode.cpp')
    A, T, Ts, late = ODES[name]
    return kind(exe, list(A) + [T, Ts, late], value)


def task_ode(t, name):
    """prediction for a vehicle of the user with linear dynamics: the exact solution for a constant input"""
    with Scratch() as d:
        try:
            tr = ode_trace(name, d, R.var, Trace)
        except Unsupported as e:
            t.unknown('%s: %s' % (name, e))
            return
        except Exception as e:
            t.counterexample('ode:%s' % name, '%s: %r' % (name, e), dict(kind='ode', extra=[name], model={}))
            return
    if tr.branches:
        t.unknown('%s: program branches on data' % name)
        return
    settle(t, tr, name, ode_want(name, R.var), 'ode', F(1, 10**3))


def replay_ode(case):
    name = case['extra'][0]
    with Scratch() as d:
        try:
            val = valuation(case['model'])
            tr = ode_trace(name, d, val, NumTrace)
        except Unsupported as e:
            return None, str(e)
        except Exception as e:
            return False, repr(e)
        for rec, want, which in ode_want(name, val):
            for i in which:
                y = number(want[i])
                if abs(tr.rec[rec][i] - y) > 5e-4 * (1 + abs(y)):
                    return False, '%s: predicted %s is %r, exactly %r' % (name, rec, tr.rec[rec], [number(w) for w in want])
    return True, name


def replay_team(case):
    name = case['extra'][0]
    with unpatched(), Scratch() as d:
        try:
            pb, up, lay, exe = setup_team(name, d)
            val = valuation(case['model'])
            tr = NumTrace(exe, team_arguments(pb, up, lay, name), val)
        except Unsupported as e:
            return None, str(e)
        except Exception as e:
            return False, repr(e)
        return differences(tr, name, expected(up, lay, name, val, Team(pb, tr, val, PICK.get(name, 0))))


def num(x):
    return float(x.value()) if hasattr(x, 'value') else float(x)


def agrees(tr, e):
    rec, want, which = e
    if rec == 'ok':
        return tr.ok.get(want) is which, 'update %d' % want
    got = tr.rec.get(rec)
    if got is None:
        return False, 'missing'
    if want == 'riemann':
        i, s0, us, Ts = which
        us = [number(u) for u in us]
        trap = number(s0) + sum(float(Ts) * (a + b) / 2 for a, b in zip(us, us[1:]))
        return abs(got[i] - trap) <= abs(float(Ts) * (us[-1] - us[0]) / 2) + 1e-4, 'predicted %r, trapezoid %r' % (got[i], trap)
    for i in which:
        if want[i] is None:
            continue
        y = number(want[i])
        if not (got[i] == y or abs(got[i] - y) <= 1e-5 * 0.5 * (1 + abs(y))):
            return False, 'entry %d is %r instead of %r' % (i, got[i], y)
    return True, ''


def number(x):
    if isinstance(x, (float, int, np.floating, F)):
        return float(x)
    return float(expr.evaluate([x], {})[0])


def tasks(tier, seed):
    return [('p2p:' + n, ('p2p', n)) for n in SCRIPTS] + [('nlp:' + s, ('nlp', s)) for s in list(SCENES) + list(TEAMS)] + [('team:' + n, ('team', n)) for n in TEAMS] + [('ode:' + n, ('ode', n)) for n in ODES]
