"""Terms -> z3, query accounting, and the path explorer."""
import os, sys, time
from fractions import Fraction
import math
import numpy as np
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import expr
from .expr import R, B, Unsupported, topo, lift, liftb, band, bnot


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.
        self.paths = 0
        self.obligations = 0
        self.functions = set()
        self.notes = []

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_time_s=round(self.time, 3), paths=self.paths, obligations=self.obligations)


STATS = Stats()


class Inconclusive(Exception):
    """a deciding query came back unknown"""


def q(fr):
    return z3.RealVal(str(fr.numerator) + ('/' + str(fr.denominator) if fr.denominator != 1 else ''))


class ToZ3(object):
    """conversion with side conditions (definitions of sqrt, sin/cos, ...)"""

    def __init__(self, int_round=True):
        self.cache = {}
        self.side = []
        self.new_side = []
        self.trig = {}

    def _side(self, c):
        self.side.append(c)
        self.new_side.append(c)

    def __call__(self, root):
        C = self.cache
        for n in topo([root]):
            if n.id in C:
                continue
            op, a = n.op, n.args
            g = lambda k: C[a[k].id]
            if op == 'c':
                v = q(a[0])
            elif op == 'v':
                v = z3.Real(a[0])
            elif op == '+':
                v = z3.Sum([C[x.id] for x in a])
            elif op == '*':
                v = C[a[0].id]
                for x in a[1:]:
                    v = v * C[x.id]
            elif op == '/':
                v = z3.Real('div!%d' % n.id)
                self._side(z3.And(g(1) != 0, v * g(1) == g(0)))
            elif op == 'sqrt':
                v = z3.Real('sqrt!%d' % n.id)
                self._side(z3.And(v >= 0, v * v == g(0)))
            elif op == 'f':
                name = a[0]
                if name in ('sin', 'cos'):
                    s, c = self._trig(a[1], C[a[1].id])
                    v = s if name == 'sin' else c
                elif name == 'atan2':
                    v = z3.Real('ang!%d' % n.id)
                    pi = q(Fraction(math.pi))
                    y, x = C[a[1].id], C[a[2].id]
                    self._side(z3.And(v <= pi, v >= -pi, z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0),
                                      z3.Implies(z3.And(y == 0, x > 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi)))
                elif name in ('atan', 'asin', 'acos', 'exp'):
                    v = z3.Real('%s!%d' % (name, n.id))
                else:
                    raise Unsupported(name)
            elif op == 'round':
                v = z3.Real('rnd!%d' % n.id)
                p = 10 ** a[1]
                k = z3.Int('rndk!%d' % n.id)
                x = C[a[0].id]
                self._side(z3.And(v * p == z3.ToReal(k), 2 * (v * p - x * p) <= 1, 2 * (v * p - x * p) >= -1))
            elif op == 'ite':
                v = z3.If(g(0), g(1), g(2))
            elif op == '<':
                v = g(0) < g(1)
            elif op == '<=':
                v = g(0) <= g(1)
            elif op == '==':
                v = g(0) == g(1)
            elif op == 'not':
                v = z3.Not(g(0))
            elif op == 'and':
                v = z3.And([C[x.id] for x in a])
            elif op == 'or':
                v = z3.Or([C[x.id] for x in a])
            elif op == 'true':
                v = z3.BoolVal(True)
            elif op == 'false':
                v = z3.BoolVal(False)
            else:
                raise Unsupported('to z3: ' + op)
            C[n.id] = v
        return C[root.id]

    def _trig(self, node, zarg):
        if node.id not in self.trig:
            s, c = z3.Real('sin!%d' % node.id), z3.Real('cos!%d' % node.id)
            self.trig[node.id] = (s, c)
            self._side(s * s + c * c == 1)
            for oid, (s2, c2) in list(self.trig.items()):
                pass
        return self.trig[node.id]

    def flush(self):
        s, self.new_side = self.new_side, []
        return s


def model_value(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(40)
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_int_value(r):
        return Fraction(r.as_long())
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    raise Unsupported('model value %s' % r)


class Model(dict):
    """name -> Fraction, for every variable that occurs"""


def check(asserts, timeout=60000, names=None, tactic=None, stats=STATS):
    """sat/unsat/unknown of the conjunction of B terms. Returns (verdict, Model or None)"""
    conv = ToZ3()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout))
    zs = [conv(liftb(a)) for a in asserts]
    for c in conv.flush():
        s.add(c)
    for c in zs:
        s.add(c)
    t0 = time.time()
    r = s.check()
    stats.time += time.time() - t0
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
        return 'unsat', None
    if r == z3.unknown:
        stats.unknown += 1
        return 'unknown', None
    stats.sat += 1
    m = s.model()
    out = Model()
    for a in topo([liftb(a) for a in asserts]):
        if a.op == 'v':
            out[a.args[0]] = model_value(m, z3.Real(a.args[0]))
    return 'sat', out


def prove(assumptions, goal, timeout=60000, stats=STATS, tactics=(None, 'qfnra-nlsat')):
    """Is goal implied?  ('proved', None) | ('refuted', Model) | ('unknown', None)"""
    stats.obligations += 1
    goal = liftb(goal)
    if goal is expr.TRUE:
        stats.queries += 1
        stats.unsat += 1
        return 'proved', None
    last = 'unknown'
    for t in tactics:
        try:
            v, m = check(list(assumptions) + [bnot(goal)], timeout, tactic=t, stats=stats)
        except z3.Z3Exception:
            continue
        if v == 'unsat':
            return 'proved', None
        if v == 'sat':
            return 'refuted', m
    return 'unknown', None


# ---------------------------------------------------------------------- LRA

class LinQuery(object):
    """Fast linear queries: variables are named, rows are dict name->Fraction."""

    def __init__(self, timeout=60000):
        self.s = z3.SolverFor('QF_LRA')
        self.s.set('timeout', timeout)
        self.v = {}

    def var(self, n):
        if n not in self.v:
            self.v[n] = z3.Real('x%d' % len(self.v))
        return self.v[n]

    def lin(self, row, const=0):
        t = [q(Fraction(c)) * self.var(n) for n, c in row.items() if c]
        if const:
            t.append(q(Fraction(const)))
        return z3.Sum(t) if t else z3.RealVal(0)

    def add(self, c):
        self.s.add(c)

    def push(self):
        self.s.push()

    def pop(self):
        self.s.pop()

    def check(self, stats=STATS):
        t0 = time.time()
        r = self.s.check()
        stats.time += time.time() - t0
        stats.queries += 1
        if r == z3.unsat:
            stats.unsat += 1
            return 'unsat'
        if r == z3.sat:
            stats.sat += 1
            return 'sat'
        stats.unknown += 1
        return 'unknown'

    def value(self, n):
        return model_value(self.s.model(), self.var(n))


# ----------------------------------------------------------------- explorer

class Infeasible(BaseException):
    pass


class PathLimit(Exception):
    pass


class Explorer(object):
    """Depth-first exploration of the real code over symbolic values by re-execution."""

    def __init__(self, assumptions=(), timeout=20000, max_paths=4000, max_decisions=2000, stats=STATS, tactic=None, norm=None):
        self.norm = norm
        self.assumptions = [liftb(a) for a in assumptions]
        self.timeout = timeout
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.stats = stats
        self.tactic = tactic

    # -- hooks called by terms
    def branch(self, b):
        known = self.known.get(b.id)
        if known is not None:
            return known
        nb = bnot(b)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if len(self.pc) > self.max_decisions:
                raise PathLimit('too many decisions on a path')
            t = self._feasible(b)
            f = self._feasible(nb) if t else True
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            elif t:
                d = True
            else:
                d = False
        self.pos += 1
        self.decisions.append(d)
        self._assert(b if d else nb)
        self.known[b.id] = d
        self.known[nb.id] = not d
        return d

    def concrete_int(self, e, mode):
        """fork over the integers e can truncate/floor/round to"""
        e = lift(e)
        if e.isconst:
            v = e.value
            if mode == 'trunc':
                return math.trunc(v)
            if mode == 'floor':
                return math.floor(v)
            if mode == 'round':
                return round(v)
            if v.denominator != 1:
                raise TypeError('not an integer: %s' % v)
            return int(v)
        for _ in range(10000):
            # pick a candidate from a model of the current path
            v = self._model_of(e)
            k = {'trunc': math.trunc, 'floor': math.floor, 'round': lambda x: round(x), 'exact': math.floor}[mode](v)
            if mode == 'floor' or mode == 'exact':
                c = band(e >= k, e < k + 1)
            elif mode == 'round':
                c = band(e >= Fraction(2 * k - 1, 2), e <= Fraction(2 * k + 1, 2))
            else:
                if k > 0:
                    c = band(e >= k, e < k + 1)
                elif k < 0:
                    c = band(e > k - 1, e <= k)
                else:
                    c = band(e > -1, e < 1)
            if self.branch(c):
                return k
        raise PathLimit('integer range too wide')

    # -- internals
    def _assert(self, b):
        self.pc.append(b)
        z = self.conv(b if self.norm is None else self.norm(b))
        for c in self.conv.flush():
            self.solver.add(c)
        self.solver.add(z)

    def _sat(self):
        t0 = time.time()
        r = self.solver.check()
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def _feasible(self, b):
        z = self.conv(b if self.norm is None else self.norm(b))
        self.solver.push()
        # side conditions of the new term stay valid after pop only if re-added
        side = self.conv.flush()
        for c in side:
            self.solver.add(c)
        self.solver.add(z)
        r = self._sat()
        self.solver.pop()
        for c in side:
            self.solver.add(c)
        return r != z3.unsat

    def _model_of(self, e):
        # deterministic under re-execution: replays take recorded decisions, so
        # the candidate order has to be a function of the path only
        key = (len(self.pc), e.id)
        z = self.conv(e)
        for c in self.conv.flush():
            self.solver.add(c)
        sig = tuple(self.decisions[:self.pos])
        mk = (sig, e.id)
        if mk in self.model_memo:
            return self.model_memo[mk]
        if self._sat() != z3.sat:
            raise PathLimit('no model for an integer conversion')
        m = self.solver.model()
        v = model_value(m, z)
        self.model_memo[mk] = v
        return v

    def run(self, fn):
        """yields (path condition, result, exception) for every path of fn()"""
        self.pending = [[]]
        self.model_memo = {}
        n = 0
        while self.pending:
            self.prefix = self.pending.pop()
            self.pos = 0
            self.decisions = []
            self.pc = []
            self.known = {}
            self.conv = ToZ3()
            self.solver = z3.Solver() if self.tactic is None else z3.Tactic(self.tactic).solver()
            self.solver.set('timeout', self.timeout)
            n += 1
            if n > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            old = expr._ctx[0]
            expr._ctx[0] = self
            res, exc = None, None
            try:
                for a in self.assumptions:
                    self._assert(a)
                res = fn()
            except (Unsupported, PathLimit):
                raise
            except Infeasible:
                continue
            except Exception as e:
                exc = e
            finally:
                expr._ctx[0] = old
            self.stats.paths += 1
            yield list(self.pc), res, exc
