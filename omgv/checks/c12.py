"""C12: distributed updates solve their step exactly and share consistent copies."""
import numpy as np
import casadi as cas
from fractions import Fraction as F
from .. import env, expr, spl, ode, scen, models, casx, fpoly
from ..expr import R, lift
from ..env import omg_modules, sym_modules, patched, unpatched, quiet
from ..report import T as _T
from .c11 import Store
import omgtools as omg
from omgtools.basics.shape import Rectangle
from omgtools.basics.spline_extra import shift_knot1_fwd, shift_knot1_bwd, shift_over_knot
from omgtools.problems import admm as admm_m, dualmethod as dual_m, dualdecomposition as dd_m

INFO = dict(
    explanation='real distributed problems run their real update sequence on symbolic variables: the local solver is a stand-in that returns any local '
                'solution, the consensus, multiplier and residual functions are the CasADi functions the code builds, translated instruction by instruction; '
                'z3 compares every stored copy with an independently written recursion, and the local objectives with their definition',
    bounds=['formations of 2 to 4 vehicles (Holonomic, Dubins, Holonomic3D), rendezvous of 3, dual decomposition of 2 and 3; 4 and 5 knot intervals, horizon 10 s',
            'penalty 0.5, 2 and 7; up to 6 iterations, up to two knots passed between updates; entries in the unit box (the recursions are linear), tolerance 1e-4 (float)'],
    outside=['quality of the local solutions (C20)', 'consensus updates under inequality coupling (refused by the code)'],
    stubs=['nlpsol: returns any local solution'],
    assumptions=['shifting splines over a knot or moving their first knot is exact (decided in C02)'])

BOUND = 100.


# ------------------------------------------------- structures that hold terms

class TStruct(object):
    """same layout and indexing as the structures the updaters use, any entries"""

    def __init__(self, dic):
        self.items = []
        self._add((), dic)
        self.off, n = {}, 0
        for p, k in self.items:
            self.off[p] = (n, k)
            n += k
        self.n = n
        self.shape = (n, 1)

    def _add(self, pre, dic):
        for k, v in dic.items():
            if isinstance(v, dict):
                self._add(pre + (str(k),), v)
            else:
                self.items.append((pre + (str(k),), len(v) if isinstance(v, list) else int(np.prod(v.shape))))

    def __call__(self, v=0):
        if isinstance(v, TVal):
            v = v.data
        a = np.empty(self.n, object)
        if np.isscalar(v) or isinstance(v, R):
            a[:] = [lift(v)] * self.n
        else:
            v = np.ravel(np.array(v, object))
            assert len(v) == self.n, 'structure of %d entries from %d values' % (self.n, len(v))
            a[:] = list(v)
        return TVal(self, a)


class TVal(object):
    def __init__(self, s, data):
        self.s, self.data = s, data

    def _sl(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if k in self.s.off:
            a, n = self.s.off[k]
            return a, n
        m = [(o, n) for p, (o, n) in self.s.off.items() if p[:len(k)] == k]
        return m[0][0], sum(n for _, n in m)

    def __getitem__(self, k):
        a, n = self._sl(k)
        if (k if isinstance(k, tuple) else (k,)) in self.s.off:
            return self.data[a:a + n].reshape(-1, 1).copy()
        return _Nest(self, k if isinstance(k, tuple) else (k,))

    def __setitem__(self, k, v):
        a, n = self._sl(k)
        v = v.data if isinstance(v, TVal) else np.ravel(np.array(v, object))
        assert len(v) == n, 'entry %s of %d values from %d' % (k, n, len(v))
        self.data[a:a + n] = list(v)

    @property
    def prefix(self):
        return _Prefix(self)

    @property
    def cat(self):
        return self.data.reshape(-1, 1).copy()

    def copy(self):
        return TVal(self.s, self.data.copy())


class _Nest(object):
    def __init__(self, v, pre):
        self.v, self.pre = v, pre

    def __getitem__(self, k):
        return self.v[self.pre + (k if isinstance(k, tuple) else (k,))]


class _Prefix(object):
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        a, n = self.v._sl(k)
        part = self.v.data[a:a + n].copy()
        return type('Part', (), dict(cast=lambda s: TVal(None, part)))()


class SymFun(object):
    """a CasADi function of the real code on terms: executed instruction by instruction on polynomials with double coefficients"""
    CACHE = {}

    def __init__(self, f):
        self.f = f if f.is_a('SXFunction') else f.expand()

    def __call__(self, *args):
        ins = []
        for i, a in enumerate(args):
            a = a.data if isinstance(a, TVal) else np.ravel(np.array(a, object))
            ins.append([fpoly.to_f(lift(x), self.CACHE) for x in a])
            assert len(ins[-1]) == self.f.numel_in(i), 'argument %d' % i
        res = []
        for o in execute(self.f, ins):
            a = np.empty(len(o), object)
            a[:] = [term(p) for p in o]
            res.append(a)
        return tuple(res) if len(res) > 1 else res[0]


def term(p):
    parts = []
    for m, c in p.items():
        if abs(c) < 1e-300:
            continue
        v = R.const(c)
        for i in m:
            v = v * fpoly.atom_name(i)
        parts.append(v)
    r = sum(parts[1:], parts[0]) if parts else R.const(0)
    SymFun.CACHE[r.id] = p
    return r


def execute(f, ins):
    W = [None] * f.sz_w()
    outs = [[{}] * f.numel_out(i) for i in range(f.n_out())]
    mi = [casx._dense_index(f.sparsity_in(i)) for i in range(f.n_in())]
    mo = [casx._dense_index(f.sparsity_out(i)) for i in range(f.n_out())]
    sc = lambda p, k: {m: c * k for m, c in p.items()} if k else {}
    num = {'OP_SQRT': np.sqrt, 'OP_FABS': abs, 'OP_SIGN': np.sign, 'OP_NOT': lambda a: float(not a), 'OP_INV': lambda a: 1. / a,
           'OP_LT': lambda a, b: float(a < b), 'OP_LE': lambda a, b: float(a <= b), 'OP_EQ': lambda a, b: float(a == b), 'OP_NE': lambda a, b: float(a != b),
           'OP_AND': lambda a, b: float(bool(a) and bool(b)), 'OP_OR': lambda a, b: float(bool(a) or bool(b)), 'OP_FMAX': max, 'OP_FMIN': min,
           'OP_POW': pow, 'OP_CONSTPOW': pow, 'OP_COPYSIGN': np.copysign, 'OP_HYPOT': np.hypot}
    for k in range(f.n_instructions()):
        op = casx._OPS[f.instruction_id(k)]
        i, o = f.instruction_input(k), f.instruction_output(k)
        if op == 'OP_CONST':
            v = {(): f.instruction_constant(k)} if f.instruction_constant(k) else {}
        elif op == 'OP_INPUT':
            v = ins[i[0]][mi[i[0]][i[1]]]
        elif op == 'OP_OUTPUT':
            outs[o[0]][mo[o[0]][o[1]]] = W[i[0]]
            continue
        else:
            a = [W[j] for j in i]
            flat = all(set(p) <= {()} for p in a)
            if op == 'OP_ADD':
                v = fpoly.fadd(a[0], a[1])
            elif op == 'OP_SUB':
                v = fpoly.fadd(a[0], a[1], -1.)
            elif op == 'OP_MUL':
                v = fpoly.fmul(a[0], a[1])
            elif op == 'OP_SQ':
                v = fpoly.fmul(a[0], a[0])
            elif op == 'OP_NEG':
                v = sc(a[0], -1.)
            elif op == 'OP_TWICE':
                v = sc(a[0], 2.)
            elif op == 'OP_ASSIGN':
                v = a[0]
            elif op == 'OP_DIV' and set(a[1]) <= {()} and a[1].get((), 0.):
                v = sc(a[0], 1. / a[1][()])
            elif op == 'OP_DIV' and not any(a[0].values()):
                v = {}
            elif op == 'OP_IF_ELSE_ZERO' and set(a[0]) <= {()}:
                v = a[1] if a[0].get((), 0.) else {}
            elif op in num and flat:
                v = {(): float(num[op](*[p.get((), 0.) for p in a]))}
            else:
                raise expr.Unsupported('operation %s on terms' % op)
        W[o[0]] = v
    return outs


def places(struct, keys):
    """where every entry sits in the vector of the structure"""
    st = struct(list(range(struct.shape[0])))
    return {k: np.array(cas.DM(st[k])).astype(int) for k in keys}


class Subst(object):
    """the real expression of a substituted variable on stored variables and parameters"""

    def __init__(self, f, pv, pp):
        self.f, self.pv, self.pp = SymFun(f), pv, pp

    def flat(self, i, st, place):
        a = np.empty(self.f.f.numel_in(i), object)
        a[:] = [R.const(0)] * len(a)
        for k, ix in place.items():
            if k in st.d:
                a[ix] = np.array(st[k], object).reshape(ix.shape)
        return a

    def __call__(self, var, par):
        return self.f(self.flat(0, var, self.pv), self.flat(1, par, self.pp)).reshape(-1, 1)


def to_term(x):
    """float() of a function output"""
    x = np.ravel(np.array(x, object))
    return x[0] if len(x) == 1 and isinstance(x[0], R) else float(x[0])


class Norm(object):
    """Euclidean norm, to be squared"""

    @classmethod
    def norm(cls, v):
        n = cls()
        n.sq = sum((x * x for x in np.ravel(v)), R.const(0))
        return n

    def __pow__(self, k):
        if k != 2:
            raise expr.Unsupported('power of a norm')
        return self.sq


def patches():
    ms = omg_modules()
    return spl.spline_patches(ms) + ode.stubs(ms) + [(dual_m, '_create_struct_from_dict', TStruct), (dual_m, 'struct', TVal), (dual_m, 'DM', np.ndarray),
                                                     (admm_m, 'float', to_term), (dd_m, 'la', Norm)]


# ------------------------------------------------- scenarios

def build(kind, model, n, K=5, opts=None, get=None):
    vs = []
    for i in range(n):
        v = models.vehicle(model)
        v.define_knots(knot_intervals=K)
        v.set_initial_conditions(list(scen.START[model]))
        v.set_terminal_conditions(list(scen.GOAL[model]))
        vs.append(v)
    fl = omg.Fleet(vs)
    d = 3 if model == 'Holonomic3D' else 2
    conf = [[0.3 * i + 0.1, (i % 2) * 1., 0.2 * i][:d] for i in range(n)]
    from omgtools.basics.shape import Cuboid
    e = omg.Environment(room={'shape': Cuboid(6., 6., 6.) if d == 3 else Rectangle(6., 6.)})
    o = dict({'verbose': 0, 'horizon_time': 10., 'rho': 2., 'init_iter': 1}, **(opts or {}))
    if kind == 'rendezvous':
        fl.set_configuration(conf)
        pb = omg.RendezVous(fl, e, options=o)
    else:
        fl.set_configuration(conf)
        if kind == 'dd':
            from omgtools.problems.formation_dualdec import FormationPoint2pointDualDecomposition as cls
        else:
            cls = omg.FormationPoint2point
        pb = cls(fl, e, options=o)
    with casx.capture() as got:
        pb.init()
    if get is not None:
        get.extend(got)
    return vs, fl, pb


class Net(object):
    """a distributed problem whose variables are terms"""

    def __init__(self, value, name):
        kind, model, n, K, opts, times, rho = NETS[name]
        self.value, self.name = value, name
        with unpatched(), quiet():
            self.vs, self.fl, self.pb = env.real(build, kind, model, n, K, dict(opts, rho=rho))
            # local variables the coupling constraints refer to, and their basis (None: plain variable)
            self.names, self.basis = {}, {}
            for u in self.pb.updaters:
                self.names[u] = [(c.label, nm, len(ix)) for c, q in u.q_i.items() for nm, ix in q.items()]
                for c, q in u.q_i.items():
                    for nm, ix in q.items():
                        self.basis[u, nm] = c._splines_prim[nm]['basis'] if nm in c._splines_prim else None
            self.shapes = {u: {(c.label, nm): c._variables[nm].shape for c in u.father_updx.children.values() for nm in c._variables} for u in self.pb.updaters}
        self.kind = kind
        self.dd = kind == 'dd'
        self.given, self.answers = {u: [] for u in self.pb.updaters}, {u: [] for u in self.pb.updaters}
        for i, u in enumerate(self.pb.updaters):
            self.wire(i, u)
        self.pb.compute_objective = lambda: 0.
        self.pb.options['verbose'] = 0

    def wire(self, i, u):
        f = u.father_updx
        with unpatched():
            place = [places(s_, [(c.label, nm) for c in f.children.values() for nm in getattr(c, at)])
                     for s_, at in ((f._var_struct, '_variables'), (f._par_struct, '_parameters'))]
            rp = {(c.label, 'rel_pos_c'): np.ravel(c.rel_pos_c) for c in f.children.values() if hasattr(c, 'rel_pos_c')}
        for c, subs in f.substitutes.items():
            for nm in subs:
                subs[nm] = Subst(subs[nm], *place)
        f._var_struct = f._par_struct = f._con_struct = Store()
        f._var_result, f._dual_var_result, f._par_result = Store(), Store(), Store()
        for k, ix in place[1].items():
            f._par_result[k] = rp.get(k, np.zeros(ix.shape)).reshape(ix.shape).astype(object)
        u.q_i_struct, u.q_ij_struct, u.q_ji_struct = TStruct(u.q_i), TStruct(u.q_ij), TStruct(u.q_ji)
        u.par_global_struct = TStruct(u.par_global)
        var = {}
        for key in (('x_i',) if self.dd else ('x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p')):
            var[key] = u.q_i_struct(0)
        for key in (('x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p')):
            var[key] = u.q_ij_struct(0)
        for key in (('l_ji',) if self.dd else ('z_ji', 'l_ji')):
            var[key] = u.q_ji_struct(0)
        setattr(u, 'var_dd' if self.dd else 'var_admm', var)
        for nm in ('problem_upd_z', 'problem_upd_l', 'problem_upd_res'):
            if hasattr(u, nm):
                setattr(u, nm, SymFun(getattr(u, nm)))
        gv, sv = f.get_variables, f.set_variables

        def get_variables(*a, **k):
            return gv(*a, **k) if a or k else 'all'

        def local(tag):
            st = Store()
            for (lab, nm), sh in self.shapes[u].items():
                st[lab, nm] = np.array([[self.value('%s_%d_%s_%s_%d_%d' % (tag, i, lab, nm, r, c)) for c in range(sh[1])] for r in range(sh[0])], object)
            f._var_result = st
            return st

        def set_variables(x, *a, **k):
            if a or k:
                return sv(x, *a, **k)
            self.answers[u].append(local('x%d' % len(self.answers[u])).copy())
        local('init')
        f.get_variables, f.set_variables = get_variables, set_variables
        f.update_bounds = lambda t: (None, None)

        def set_parameters(t):
            par = {}
            for c in f.children.values():
                for k, d in c.set_parameters(t).items():
                    par.setdefault(k, {}).update(d)
            self.given[u].append((t, {k: np.array(x, object).ravel() for k, x in par[u].items()}, par.get(u.problem, {})))
        f.set_parameters = set_parameters
        solver = type('S', (), dict(__call__=lambda s, **k: {'x': None}, stats=lambda s: {'return_status': 'Solve_Succeeded'}))()
        if self.dd:
            u.problem_upd_xz = solver
        else:
            u.problem_upd_x = solver

    def data(self, u):
        return u.var_dd if self.dd else u.var_admm

    def fill(self, u, tag):
        """any values in every copy the updater holds"""
        i = self.pb.updaters.index(u)
        var = self.data(u)
        for key in var:
            n = len(var[key].data)
            var[key] = struct_of(u, key)([self.value('%s_%s_%d_%d' % (tag, key, i, k)) for k in range(n)])

    def view(self, u):
        return {k: v.copy() for k, v in self.data(u).items()}


# ------------------------------------------------- independent recursion

class Ref(object):
    """the same scheme written from its definition, on vectors of terms"""

    def __init__(self, net, rho, H, kt):
        self.net, self.rho, self.H, self.kt = net, F(rho), H, kt
        us = net.pb.updaters
        N = len(us)
        self.us = us
        self.nb = {u: [us[j] for j in sorted({(i + 1) % N, (i - 1) % N} - {i})] for i, u in enumerate(us)}
        self.st, self.M, self.alpha, self.cp = {}, {}, {}, {}

    def load(self):
        for u in self.us:
            self.st[u] = self.read(u)

    def read(self, u):
        g = self.net.view(u)
        s = dict(x=self.own(u, g['x_i']))
        for k, key in (('z', 'z_i'), ('l', 'l_i'), ('zp', 'z_i_p'), ('lp', 'l_i_p')):
            if key in g:
                s[k] = self.own(u, g[key])
        for k, key in (('xj', 'x_j'), ('zij', 'z_ij'), ('lij', 'l_ij'), ('zijp', 'z_ij_p'), ('lijp', 'l_ij_p')):
            if key in g:
                s[k] = {v: self.part(u, v, g[key]) for v in self.nb[u]}
        for k, key in (('zji', 'z_ji'), ('lji', 'l_ji')):
            if key in g:
                s[k] = {v: self.about_me(u, v, g[key]) for v in self.nb[u]}
        return s

    def own(self, u, val):
        return {nm: np.ravel(val[lab, nm]) for lab, nm, n in self.net.names[u]}

    def part(self, u, v, val):
        """what u holds about v"""
        return {nm: np.ravel(val[v.label, lab, nm]) for lab, nm, n in self.net.names[v]}

    def coupling(self, u, a, lab, nm, n):
        """the local solution in terms of what is shared: where the vehicle puts the centre"""
        veh = u.vehicles[0]
        if nm in veh._variables:
            x = a[lab, nm].T.ravel()[:n]
            return np.array([lift(v) for v in x], object)
        k = int(nm[len('fleet_center'):])
        if self.net.kind == 'rendezvous':
            x = np.ravel(a[[c.label for c in u.father_updx.children.values() if 'conT0' in c._variables][0], 'conT0'])
            return np.array([lift(v) + R.const(float(r)) for v, r in zip(x, veh.rel_pos_c)], object)
        x = a[lab, 'splines_seg0'].T.ravel().reshape(veh.n_spl, -1)[k]
        return np.array([lift(v) + R.const(float(veh.rel_pos_c[k])) for v in x], object)

    def about_me(self, u, v, val):
        """what v holds about u, as u remembers it"""
        return {nm: np.ravel(val[v.label, lab, nm]) for lab, nm, n in self.net.names[u]}

    def mat(self, what, basis, t0=None):
        k = (what, id(basis), t0)
        if k not in self.M:
            I = np.eye(len(basis))
            with unpatched():
                self.M[k] = {'over': lambda: shift_over_knot(I, basis), 'fwd': lambda: shift_knot1_fwd(I, basis, t0), 'bwd': lambda: shift_knot1_bwd(I, basis, t0)}[what]()
        return self.M[k]

    def tf(self, what, u, d, t0=None):
        out = {}
        for nm, v in d.items():
            b = self.net.basis[u, nm]
            if b is None:
                out[nm] = v
                continue
            M = self.mat(what, b, t0)
            n = len(b)
            res = []
            for s in range(0, len(v), n):
                res += list(mul(M, v[s:s + n]))
            out[nm] = np.array(res, object)
        return out

    def shift(self, m):
        for _ in range(m):
            for u, s in self.st.items():
                for k in s:
                    if k in ('x', 'z', 'l', 'zp', 'lp'):
                        s[k] = self.tf('over', u, s[k])
                    elif k in ('zji', 'lji'):
                        s[k] = {v: self.tf('over', u, d) for v, d in s[k].items()}
                    else:
                        s[k] = {v: self.tf('over', v, d) for v, d in s[k].items()}

    def talk(self):
        for u, s in self.st.items():
            for v in self.nb[u]:
                s['xj'][v] = {k: a.copy() for k, a in self.st[v]['x'].items()}
                s['lji'][v] = {k: a.copy() for k, a in self.st[v]['lij'][u].items()}
                if 'zji' in s:
                    s['zji'][v] = {k: a.copy() for k, a in self.st[v]['zij'][u].items()}

    def consensus(self, u, t0):
        """minimiser of the augmented cost when all copies agree and the splines end at rest"""
        s = self.st[u]
        rho = self.rho
        ys = [(u, self.tf('fwd', u, {k: s['x'][k] + s['l'][k] * (1 / rho) for k in s['x']}, t0))]
        for v in self.nb[u]:
            ys.append((v, self.tf('fwd', v, {k: s['xj'][v][k] + s['lij'][v][k] * (1 / rho) for k in s['xj'][v]}, t0)))
        z = {}
        for j, nm in enumerate(ys[0][1]):
            vecs = [list(y.values())[j] for _, y in ys]
            mean = [sum(c, R.const(0)) * F(1, len(vecs)) for c in zip(*vecs)]
            b = self.net.basis[u, nm]
            if b is not None:
                n, m = len(b), b.degree + 1
                for a in range(0, len(mean), n):
                    end = sum(mean[a + n - m:a + n], R.const(0)) * F(1, m)
                    mean[a + n - m:a + n] = [end] * m
            z[nm] = np.array(mean, object)
        s['zp'], s['zijp'] = s['z'], s['zij']
        s['z'] = self.tf('bwd', u, z, t0)
        s['zij'] = {v: self.tf('bwd', v, dict(zip(self.st[v]['x'], z.values())), t0) for v in self.nb[u]}

    def multiplier(self, u):
        s = self.st[u]
        if not self.net.dd:
            s['lp'] = s['l']
            s['l'] = {k: s['l'][k] + (s['x'][k] - s['z'][k]) * self.rho for k in s['x']}
        s['lijp'] = s['lij']
        s['lij'] = {v: {k: s['lij'][v][k] + (s['xj'][v][k] - s['zij'][v][k]) * self.rho for k in s['lij'][v]} for v in self.nb[u]}

    def residuals(self, u, s, t0):

        def sq(w, a, b):
            d = self.tf('fwd', w, {k: a[k] - b[k] for k in a}, t0)
            return sum((x * x for v in d.values() for x in v), R.const(0))
        if self.net.dd:
            return [sum((sq(v, s['xj'][v], s['zij'][v]) for v in self.nb[u]), R.const(0))]
        pr = sq(u, s['x'], s['z']) + sum((sq(v, s['xj'][v], s['zij'][v]) for v in self.nb[u]), R.const(0))
        dr = (sq(u, s['z'], s['zp']) + sum((sq(v, s['zij'][v], s['zijp'][v]) for v in self.nb[u]), R.const(0))) * self.rho
        return [pr, dr, pr * self.rho + dr]

    def iterate(self, answers, t0, c_res=None):
        params = {}
        for u, s in self.st.items():
            params[u] = {k: (dict(s[k]) if k in ('z', 'l') else {v: dict(d) for v, d in s[k].items()}) for k in ('z', 'l', 'zji', 'lji', 'lij') if k in s}
        for u, s in self.st.items():
            a = answers[u]
            s['x'] = {nm: self.coupling(u, a, lab, nm, n) for lab, nm, n in self.net.names[u]}
            if self.net.dd:
                z = TVal(TStruct(u.q_ij), np.ravel(a[u.label, 'z_ij']))
                s['zij'] = {v: self.part(u, v, z) for v in self.nb[u]}
        self.talk()
        for u in self.us:
            if not self.net.dd:
                self.consensus(u, t0)
            self.multiplier(u)
        if c_res is not None:
            for u in self.us:
                self.momentum(u, c_res)
        self.talk()
        return params

    def momentum(self, u, c):
        """Nesterov step of Goldstein et al., with restart when the residual does not decrease"""
        o = self.net.pb.options
        s, a = self.st[u], self.alpha.get(u, 1.)
        if o['nesterov_reset'] and c > o['eta'] * self.cp.get(u, c / o['eta']):
            self.alpha[u] = 1.
            self.cp[u] = self.cp.get(u, c / o['eta']) / o['eta']
            for k in ('z', 'l', 'zij', 'lij'):
                s[k] = s[k + 'p']
            return
        self.alpha[u] = (1. + (1. + 4. * a * a)**0.5) / 2.
        self.cp[u] = c
        w = R.const((a - 1.) / self.alpha[u])
        go = lambda d, p: {k: d[k] + (d[k] - p[k]) * w for k in d}
        for k in ('z', 'l') if not o['AMA'] else ('l',):
            s[k] = go(s[k], s[k + 'p'])
        for k in ('zij', 'lij') if not o['AMA'] else ('lij',):
            s[k] = {v: go(s[k][v], s[k + 'p'][v]) for v in s[k]}


def mul(M, v):
    """float matrix times terms"""
    out = []
    for row in np.asarray(M, float):
        out.append(sum((lift(x) * R.const(float(c)) for c, x in zip(row, v) if abs(c) > 1e-13), R.const(0)))
    return out


NETS = {  # name: kind, model, vehicles, knot intervals, options, update times (first entry: initial iterations), penalty
    'f2': ('formation', 'Holonomic', 2, 5, {}, [0.5, 2.5], 2.),
    'f3': ('formation', 'Holonomic', 3, 5, {}, [0.5, 2.0], 2.),
    'f4': ('formation', 'Holonomic', 4, 4, {}, [0.6], 7.),
    'f3knots': ('formation', 'Holonomic', 3, 5, {'init_iter': 0}, [0., 4.5], 0.5),
    'f3it': ('formation', 'Holonomic', 3, 5, {'max_iter_per_update': 2, 'init_iter': 0}, [0., 2.3], 2.),
    'f3late': ('formation', 'Holonomic', 3, 5, {'init_iter': 0}, [0., 3.0, 4.0], 2.),
    'fdub': ('formation', 'Dubins', 2, 5, {}, [0.5], 2.),
    'f3d': ('formation', 'Holonomic3D', 3, 4, {}, [1.2, 2.5], 2.),
    'r3': ('rendezvous', 'Holonomic', 3, 5, {}, [0.5, 2.5], 2.),
    'f3acc': ('formation', 'Holonomic', 3, 5, {'nesterov_acceleration': True}, [0., 0.5, 1.0, 2.5], 2.),
    'f2reset': ('formation', 'Holonomic', 2, 5, {'nesterov_acceleration': True, 'nesterov_reset': True, 'init_iter': 2}, [0., 0.5, 1.0, 1.5, 2.5, 3.], 2.),
    'f2ama': ('formation', 'Holonomic', 2, 5, {'nesterov_acceleration': True, 'nesterov_reset': True, 'AMA': True, 'eta': 0.9}, [0., 0.5, 1.0, 1.5], 2.),
    'd2': ('dd', 'Holonomic', 2, 5, {}, [0.5, 2.5], 2.),
    'd3': ('dd', 'Holonomic', 3, 5, {'max_iter_per_update': 2}, [0.5, 4.5], 0.5)}


def play(net, start):
    """the scenario on a wired network; every iteration starts from arbitrary copies. claims [(what, got, expected)]"""
    kind, model, n, K, opts, times, rho = NETS[net.name]
    pb = net.pb
    H = 10.
    kt = F(str(H)) / K
    ref = Ref(net, rho, H, kt)
    for u in ref.us:
        net.fill(u, 'start')
    ref.load()
    out = []
    its = [F(0)] * (pb.options['init_iter'] * pb.options['max_iter_per_update']) + [F(str(t)) for t in times for _ in range(pb.options['max_iter_per_update'])]
    st = dict(i=0, prev=F(0), t0=0., r=0)
    series = [3., 2., 1.5, 1.6, 1.2, 5., 1., 0.5]
    step = pb.dual_update
    for u in ref.us:
        def get_residuals(t, u=u, gr=u.get_residuals):
            keep = dict(net.data(u))
            net.fill(u, 'r%d' % st['i'])
            r = gr(t)
            want = ref.residuals(u, ref.read(u), st['t0'])
            out.append(('iteration %d vehicle %d: residuals' % (st['i'], ref.us.index(u)), list(r[1:]), want))
            net.data(u).update(keep)
            c = series[st['i'] % len(series)]
            return (r[0], c, c, c / len(ref.us))[:len(r)]
        u.get_residuals = get_residuals

    def dual_update(t, dt):
        i = st['i']
        now = its[i]
        st['t0'] = t0 = float(now - int(now / kt) * kt) / H
        step(t, dt)
        ref.shift(int(now / kt) - int(st['prev'] / kt))
        st['prev'] = now
        # what the code sums up over the vehicles, as it does
        c = None
        if not net.dd and pb.options['nesterov_acceleration']:
            c = 0.
            for _ in ref.us:
                c += series[i % len(series)] / len(ref.us)
        params = ref.iterate({u: net.answers[u][i] for u in ref.us}, t0, c)
        compare(net, ref, params, i, [now, now - int(now / kt) * kt, H], out)
        for u in ref.us:
            net.fill(u, 'h%d' % i)
        ref.load()
        st['i'] += 1
    pb.dual_update = dual_update
    pb.initialize(start)
    for a, b in zip([0.] + times, times):
        pb.solve(start + b, b - a)
    out.append(('iterations', [st['i']], [len(its)]))
    return out


def compare(net, ref, params, i, clock, out):
    for k, u in enumerate(ref.us):
        tag = 'iteration %d vehicle %d: ' % (i, k)
        t, given, prob = net.given[u][i]
        out.append((tag + 'time', [t, prob.get('t', 0.), prob.get('T', 0.)], clock))
        for key, nm in (('z_i', 'z'), ('l_i', 'l')):
            if nm in params[u]:
                out.append((tag + key + ' given to the local problem', given[key], np.concatenate([params[u][nm][c[1]] for c in net.names[u]])))
        for key, nm in (('z_ji', 'zji'), ('l_ji', 'lji')):
            if nm in params[u]:
                out.append((tag + key + ' given to the local problem', given[key], np.concatenate([params[u][nm][v][c[1]] for v in u.q_ji for c in net.names[u]])))
        if net.dd:
            out.append((tag + 'l_ij given to the local problem', given['l_ij'], np.concatenate([params[u]['lij'][v][c[1]] for v in u.q_ij for c in net.names[v]])))
        else:
            out.append((tag + 'rho given to the local problem', given['rho'], [ref.rho]))
        got, s = ref.read(u), ref.st[u]
        for nm in ('x', 'z', 'l') if not net.dd else ('x',):
            out.append((tag + nm, np.concatenate(list(got[nm].values())), np.concatenate([s[nm][c] for c in got[nm]])))
        for v in ref.nb[u]:
            for nm in ('xj', 'zij', 'lij', 'lji') + (() if net.dd else ('zji',)):
                out.append((tag + nm + ' of vehicle %d' % ref.us.index(v), np.concatenate(list(got[nm][v].values())), np.concatenate([s[nm][v][c] for c in got[nm][v]])))


def agree(t, key, what, got, want, case, tol=1e-4):
    """got == want for every value of the variables (polynomials with float coefficients)"""
    got, want = list(np.ravel(np.array(got, object))), list(np.ravel(np.array(want, object)))
    if len(got) != len(want):
        t.counterexample(key, '%s: %d entries instead of %d' % (what, len(got), len(want)), case)
        return False
    cache = SymFun.CACHE
    for a, b in zip(got, want):
        d = fpoly.clean(fpoly.fadd(fpoly.to_f(lift(a), cache), fpoly.to_f(lift(b), cache), -1.), 1e-11)
        v = fpoly.zero(d, tol)
        v = v[0] if isinstance(v, tuple) else v
        if v == 'proved':
            continue
        if v == 'unknown':
            t.unknown('%s: %s' % (key, what))
        else:
            t.counterexample(key, '%s differs from its definition' % what, case)
        return False
    t.ok('%s: %s' % (key, what))
    return True


def task_net(t, name, start):
    with patched(patches()):
        with quiet():
            net = Net(R.var, name)
            out = play(net, start)
        bad = set()
        for what, got, want in out:
            key = 'net:%s:%s' % (name, what.split(': ')[-1].replace(' ', '-'))
            if key not in bad and not agree(t, key, 'net %s, %s' % (name, what), got, want, dict(kind='net', extra=[name, start])):
                bad.add(key)
        t.reach(all(len(net.answers[u]) == len(net.answers[net.pb.updaters[0]]) > 0 for u in net.pb.updaters), 'net %s: every vehicle solved' % name)


def replay_net(case):
    """the same history on real structures and real functions, numbers only"""
    name, start = case['extra']
    kind, model, n, K, opts, times, rho = NETS[name]
    rng = np.random.default_rng(7)
    vals = {}
    value = lambda s: vals.setdefault(s, float(rng.normal()))
    with quiet():
        net = RealNet(value, name)
        out = play(net, start)
    for what, got, want in out:
        a, b = num(got), num(want)
        if len(a) != len(b):
            return False, '%s, start %g, %s: %d entries instead of %d' % (name, start, what, len(a), len(b))
        if np.max(np.abs(a - b)) > 1e-5 * max(1., np.max(np.abs(b))):
            k = int(np.argmax(np.abs(a - b)))
            return False, '%s (%d x %s, updates at %s, start %g), %s: %g instead of %g' % (name, n, model, times, start, what, a[k], b[k])
    return True, 'distributed updates agree with the recursion'


def num(x):
    out, cache = [], {}
    for v in np.ravel(np.array(x, object)):
        if isinstance(v, R):
            d = fpoly.to_f(v, cache)
            assert set(d) <= {()}
            v = d.get((), 0.)
        out.append(float(v))
    return np.array(out)


def struct_of(u, key):
    return u.q_ji_struct if key.endswith('ji') else u.q_ij_struct if 'ij' in key or key == 'x_j' else u.q_i_struct


class RealStore(object):
    def __init__(self, st):
        self.st = st

    def __getitem__(self, k):
        return np.array(cas.DM(self.st[k]))


class RealNet(Net):
    """real structures (DM), real functions; only the answers of the local solver are chosen"""

    def fill(self, u, tag):
        i = self.pb.updaters.index(u)
        var = self.data(u)
        for key in var:
            st = struct_of(u, key)
            var[key] = st(cas.DM([self.value('%s_%s_%d_%d' % (tag, key, i, k)) for k in range(st.shape[0])]))

    def view(self, u):
        return {k: RealStore(struct_of(u, k)(cas.DM(v.cat))) for k, v in self.data(u).items()}

    def wire(self, i, u):
        net, f = self, u.father_updx

        def set_parameters(t, orig=f.set_parameters):
            r = orig(t)
            par = {}
            for c in f.children.values():
                for k, d in c.set_parameters(t).items():
                    par.setdefault(k, {}).update(d)
            net.given[u].append((t, {k: np.array(cas.DM(x)).ravel() for k, x in par[u].items()}, par.get(u.problem, {})))
            return r
        f.set_parameters = set_parameters

        def answer(nlp, kw):
            it = len(net.answers[u])
            st = f._var_struct(0)
            for c in f.children.values():
                for nm in c._variables:
                    sh = c._variables[nm].shape
                    st[c.label, nm] = np.array([[net.value('x%d_%d_%s_%s_%d_%d' % (it, i, c.label, nm, a, b)) for b in range(sh[1])] for a in range(sh[0])])
            net.answers[u].append(RealStore(st))
            return st.cat
        solve = 'update_xz' if net.dd else 'update_x'

        def update(t, orig=getattr(u, solve)):
            # homogeneous vehicles share one solver
            (u.problem_upd_xz if net.dd else u.problem_upd_x).answer = answer
            return orig(t)
        setattr(u, solve, update)


# ------------------------------------------------- what every vehicle minimises

GOALS = {  # name: kind, model, vehicles, knot intervals, options
    'f2': ('formation', 'Holonomic', 2, 5, {}), 'f3': ('formation', 'Holonomic', 3, 5, {}), 'f4': ('formation', 'Holonomic', 4, 4, {}),
    'f3ama': ('formation', 'Holonomic', 3, 5, {'AMA': True}), 'f3d': ('formation', 'Holonomic3D', 3, 4, {}), 'fdub': ('formation', 'Dubins', 2, 5, {}),
    'r3': ('rendezvous', 'Holonomic', 3, 5, {}), 'd2': ('dd', 'Holonomic', 2, 5, {}), 'd3': ('dd', 'Holonomic', 3, 5, {})}


class Goal(object):
    """the local problem of one updater: its real objective and coupling constraints on polynomials or numbers"""

    def __init__(self, name, who, t0, mk):
        kind, model, n, K, opts = GOALS[name]
        with quiet():
            vs, fl, pb = env.real(build, kind, model, n, K, dict(opts))
        self.u = u = pb.updaters[who]
        self.name, self.dd, self.ama, self.t0 = name, kind == 'dd', opts.get('AMA', False), t0
        f = u.father_updx
        nlp = u.problem_upd_xz if self.dd else u.problem_upd_x
        self.F = cas.Function('f', [nlp.x, nlp.p], [nlp.f, nlp.g]).expand()
        self.obj = cas.Function('f', [nlp.x, nlp.p], [nlp.f]).expand()
        pv = places(f._var_struct, [(c.label, nm) for c in f.children.values() for nm in c._variables])
        pp = places(f._par_struct, [(c.label, nm) for c in f.children.values() for nm in c._parameters])
        self.con = {nm: places(f._con_struct, [u._add_label(nm)])[u._add_label(nm)] for nm in u._constraints}
        rng = np.random.default_rng(3)
        X, P = [{(): float(v)} for v in rng.uniform(0.2, 1., nlp.x.shape[0])], [{(): float(v)} for v in rng.uniform(0.2, 1., nlp.p.shape[0])]
        veh = u.vehicles[0]
        P[pp[u.problem.label, 't'][0, 0]] = {(): t0 * 10.}
        P[pp[u.problem.label, 'T'][0, 0]] = {(): 10.}
        if (veh.label, 'rel_pos_c') in pp:
            for k, v in zip(pp[veh.label, 'rel_pos_c'].ravel(), veh.rel_pos_c):
                P[k] = {(): float(v)}
        # own coupling variables
        self.x, self.basis = {}, {}
        for c, q in u.q_i.items():
            for nm, ix in q.items():
                self.basis[nm] = c._splines_prim[nm]['basis'] if nm in c._splines_prim else None
                vals = [mk('x_%s_%d' % (nm, k)) for k in range(len(ix))]
                off = [0.] * len(ix)
                if nm in c._variables:
                    where = pv[c.label, nm].T.ravel()[ix]
                elif kind == 'rendezvous':
                    lab = [d.label for d in f.children.values() if 'conT0' in d._variables][0]
                    where, off = pv[lab, 'conT0'].ravel(), list(veh.rel_pos_c)
                else:
                    j = int(nm[len('fleet_center'):])
                    where, off = pv[c.label, 'splines_seg0'][:, j], [veh.rel_pos_c[j]] * len(ix)
                for k, v in zip(where, vals):
                    X[k] = v
                self.x[nm] = [fpoly.fadd(v, {(): float(o)}) for v, o in zip(vals, off)]
        # shared ones
        self.sh = {}
        self.P0 = list(P)
        for key in ('z_i', 'l_i', 'z_ji', 'l_ji', 'l_ij', 'rho'):
            if (u.label, key) in pp:
                self.sh[key] = [mk('%s_%d' % (key, k)) for k in range(pp[u.label, key].size)]
                for k, v in zip(pp[u.label, key].ravel(), self.sh[key]):
                    P[k], self.P0[k] = v, {}
        if self.dd:
            self.sh['z_ij'] = [mk('z_ij_%d' % k) for k in range(pv[u.label, 'z_ij'].size)]
            for k, v in zip(pv[u.label, 'z_ij'].ravel(), self.sh['z_ij']):
                X[k] = v
        self.X, self.P = X, P
        self.T = {}

    def hat(self, nm, v):
        b = self.basis[nm]
        if b is None:
            return list(v)
        if nm not in self.T:
            with unpatched():
                self.T[nm] = np.asarray(shift_knot1_fwd(np.eye(len(b)), b, self.t0), float)
        out = []
        for s in range(0, len(v), len(b)):
            for row in self.T[nm]:
                a = {}
                for c, x in zip(row, v[s:s + len(b)]):
                    if c:
                        a = fpoly.fadd(a, x, c)
                out.append(a)
        return out

    def own(self, key, off=0):
        """entries of a shared vector that mirror the own variables"""
        d, k = {}, off
        for nm in self.x:
            d[nm] = self.hat(nm, self.sh[key][k:k + len(self.x[nm])])
            k += len(self.x[nm])
        return d, k

    def expected(self):
        u, x = self.u, {nm: self.hat(nm, v) for nm, v in self.x.items()}
        out = {}

        def dot(a, b, c=1.):
            o = out
            for p, r in zip(a, b):
                o = fpoly.fadd(o, fpoly.fmul(p, r), c)
            return o
        if self.dd:
            k = 0
            for _ in u.q_ji:
                l, k = self.own('l_ji', k)
                for nm in x:
                    out = dot(l[nm], x[nm])
            k = 0
            for _ in u.q_ij:
                l, k2 = self.own('l_ij', k)
                z, k = self.own('z_ij', k)
                for nm in x:
                    out = dot(l[nm], z[nm], -1.)
            return out
        rho = self.sh['rho'][0]
        for lk, zk, n in (('l_i', 'z_i', 1), ('l_ji', 'z_ji', len(u.q_ji))):
            k = 0
            for _ in range(n):
                l, _k = self.own(lk, k)
                z, k = self.own(zk, k)
                for nm in x:
                    d = [fpoly.fadd(p, r, -1.) for p, r in zip(x[nm], z[nm])]
                    out = dot(l[nm], d)
                    if not self.ama:
                        sq = {}
                        for p in d:
                            sq = fpoly.fadd(sq, fpoly.fmul(p, p))
                        out = fpoly.fadd(out, fpoly.fmul(rho, sq), .5)
        return out

    def actual(self):
        a, b = execute(self.obj, [self.X, self.P])[0][0], execute(self.obj, [self.X, self.P0])[0][0]
        return fpoly.fadd(a, b, -1.)


def atom(nm):
    return dict(fpoly.to_f(R.var(nm), SymFun.CACHE))


def task_goal(t, name, who, t0):
    g = Goal(name, who, t0, atom)
    d = fpoly.clean(fpoly.fadd(g.actual(), g.expected(), -1.), 1e-10)
    v = fpoly.zero(d, 1e-6)
    v = v[0] if isinstance(v, tuple) else v
    key, case = 'goal:%s' % name, dict(kind='goal', extra=[name, who, t0])
    if v == 'proved':
        t.ok('%s vehicle %d at %g' % (key, who, t0))
    elif v == 'unknown':
        t.unknown(key)
    else:
        t.counterexample(key, 'local objective of %s, vehicle %d, at %g of the horizon' % (name, who, t0), case)
    t.reach(len(g.expected()) > 10, '%s: coupled variables present' % key)
    if g.dd:
        coupling(t, g, case)


def coupling(t, g, case):
    """the coupling rows hold exactly for agreeing copies that end at rest"""
    from ..solver import LinQuery, q, z3
    rows = []
    vals = execute(g.F, [g.X, g.P])[1]
    for nm, ix in g.con.items():
        _, lb, ub = g.u._constraints[nm][:3]
        n = ix.size
        lb, ub = (np.broadcast_to(np.ravel(np.array(b, float)), (n,)) for b in (lb, ub))
        rows += [(fpoly.clean(vals[k]), a, b) for k, a, b in zip(ix.T.ravel(), lb, ub)]
    x = {nm: g.hat(nm, v) for nm, v in g.x.items()}
    zs, k = [], 0
    for _ in g.u.q_ij:
        z, k = g.own('z_ij', k)
        zs.append(z)
    same = [fpoly.fadd(a, b, -1.) for z in zs for nm in x for a, b in zip(x[nm], z[nm])]
    rest = [fpoly.fadd(v[-1], v[-1 - j], -1.) for d in [x] + zs for nm, v in d.items() if g.basis[nm] is not None for j in range(1, g.basis[nm].degree + 1)]

    def ask(assume, deny, tol_a, tol_d, what, key):
        for k in range(0, len(deny), 8):
            L = LinQuery(60000)
            seen = set()

            def lin(p):
                for m in p:
                    if m and m not in seen:
                        seen.add(m)
                        L.add(L.var(m) <= q(F(1)))
                        L.add(L.var(m) >= q(F(-1)))
                return L.lin({m: F(c) for m, c in p.items() if m}, F(p.get((), 0.)))
            for p, lo, hi in assume:
                e = lin(p)
                L.add(e <= q(F(hi) + F(tol_a)))
                L.add(e >= q(F(lo) - F(tol_a)))
            bad = []
            for p, lo, hi in deny[k:k + 8]:
                e = lin(p)
                bad += [e > q(F(hi) + F(tol_d)), e < q(F(lo) - F(tol_d))]
            L.add(z3.Or(*bad))
            r = L.check()
            r = str(r[0] if isinstance(r, tuple) else r)
            if r != 'unsat':
                return t.unknown(key) if r == 'unknown' else t.counterexample(key, what, dict(case, kind='rows'))
        t.ok(key)
    zero = lambda ps: [(p, 0., 0.) for p in ps]
    ask(rows, zero(same), 1e-9, 1e-3, 'coupling of %s: copies may differ' % g.name, 'rows:%s:agree' % g.name)
    ask(zero(same + rest), rows, 1e-9, 1e-4, 'coupling of %s: agreeing copies at rest are refused' % g.name, 'rows:%s:allow' % g.name)


def replay_goal(case):
    name, who, t0 = case['extra']
    rng = np.random.default_rng(11)
    vals = {}
    g = Goal(name, who, t0, lambda s: {(): vals.setdefault(s, float(rng.normal()))})
    nx = [p.get((), 0.) for p in g.X]
    a = float(g.obj(nx, [p.get((), 0.) for p in g.P])) - float(g.obj(nx, [p.get((), 0.) for p in g.P0]))
    b = g.expected().get((), 0.)
    return abs(a - b) < 1e-6 * max(1., abs(b)), 'coupling part of the local objective of vehicle %d (%s) at %g of the horizon: %g, by definition %g' % (who, name, t0, a, b)


def replay_rows(case):
    """least squares on the real rows: is agreement forced, is it allowed"""
    name, who, t0 = case['extra']
    zero = Goal(name, who, t0, lambda s: {})
    names = []

    def mk(s):
        names.append(s)
        return {(('v', s),): 1.}
    g = Goal(name, who, t0, mk)
    ev = lambda vals: Goal(name, who, t0, lambda s: {(): vals.get(s, 0.)})
    idx = [int(k) for ix in g.con.values() for k in ix.T.ravel()]
    keep = [s for s in names if s.startswith(('x_', 'z_ij'))]

    def row(h):
        G = np.array(h.F([p.get((), 0.) for p in h.X], [p.get((), 0.) for p in h.P])[1]).ravel()
        same = []
        k = 0
        for _ in h.u.q_ij:
            z, k = h.own('z_ij', k)
            same += [fpoly.fadd(a, b, -1.).get((), 0.) for nm, v in h.x.items() for a, b in zip(h.hat(nm, v), z[nm])]
        return G[idx], np.array(same)
    g0, s0 = row(zero)
    A, S = [], []
    for s in keep:
        a, b = row(ev({s: 1.}))
        A.append(a - g0)
        S.append(b - s0)
    A, S = np.array(A).T, np.array(S).T
    x0 = np.linalg.lstsq(A, -g0, rcond=None)[0]
    U, sv, Vt = np.linalg.svd(A)
    N = Vt[np.sum(sv > 1e-9):].T
    gap = max(np.max(np.abs(S.dot(N))) if N.size else 0., np.max(np.abs(S.dot(x0) + s0)))
    free = np.max(np.abs(A.dot(x0) + g0))
    n = N.shape[1]
    want = sum(len(v) - (g.basis[nm].degree if g.basis[nm] is not None else 0) for nm, v in g.x.items())
    return bool(gap < 1e-6 and free < 1e-6 and n == want), '%s vehicle %d: copies differ by up to %g inside the coupling rows, %d directions stay free (%d expected)' % (name, who, gap, n, want)


def tasks(tier, seed):
    out = []
    for k in NETS:
        for s in (0., 3.7):
            out.append(('net:%s:%s' % (k, s), ('net', k, s)))
    for k, v in GOALS.items():
        for who in range(v[2]) if tier == 'thorough' else sorted({0, v[2] - 1}):
            for t0 in (0., 0.05, 0.13) if tier == 'quick' else (0., 0.02, 0.05, 0.13, 0.19):
                out.append(('goal:%s:%d:%s' % (k, who, t0), ('goal', k, who, t0)))
    return out
