"""Turning a solver's refutation of a relaxed claim into a concrete point of the real problem: the point is searched
with the interior-point solver on the real rows, and only counts when the real code confirms it (replay)."""
import numpy as np
import casadi as cas
from . import expr
from .expr import R, topo, lift


def to_sx(roots, env):
    """terms -> casadi SX; env: variable name -> SX"""
    val = {}
    for n in topo([lift(r) for r in roots]):
        a, op = n.args, n.op
        g = lambda k: val[a[k].id]
        if op == 'c':
            v = cas.SX(float(a[0]))
        elif op == 'v':
            v = env[a[0]]
        elif op == '+':
            v = val[a[0].id]
            for x in a[1:]:
                v = v + val[x.id]
        elif op == '*':
            v = val[a[0].id]
            for x in a[1:]:
                v = v * val[x.id]
        elif op == '/':
            v = g(0) / g(1)
        elif op == 'sqrt':
            v = cas.sqrt(g(0))
        elif op == 'f':
            f = {'sin': cas.sin, 'cos': cas.cos, 'tan': cas.tan, 'atan2': cas.atan2, 'atan': cas.atan, 'asin': cas.asin, 'acos': cas.acos, 'exp': cas.exp}[a[0]]
            v = f(*[val[x.id] for x in a[1:]])
        elif op == 'ite':
            v = cas.if_else(g(0), g(1), g(2))
        elif op == '<':
            v = g(0) < g(1)
        elif op == '<=':
            v = g(0) <= g(1)
        elif op == '==':
            v = g(0) == g(1)
        elif op == 'not':
            v = cas.logic_not(g(0))
        elif op in ('and', 'or'):
            f = cas.logic_and if op == 'and' else cas.logic_or
            v = val[a[0].id]
            for x in a[1:]:
                v = f(v, val[x.id])
        else:
            raise expr.Unsupported('to SX: ' + op)
        val[n.id] = v
    return [val[lift(r).id] for r in roots]


def search(rows, lb, ub, goal, box, starts=6, seed=3, start=None, good=1e-3, iters=300):
    """maximize the term goal subject to lb <= rows <= ub and the box {name: (lo, hi)}; extra variables are free in [-5, 5].
    returns (value, {name: number}) of the best point satisfying the rows, or (None, None)"""
    rows = [lift(r) for r in rows]
    first = {}
    for k, (r, a, b) in enumerate(zip(rows, lb, ub)):
        first.setdefault((r.id, float(a), float(b)), k)
    keep = sorted(first.values())       # repeated equalities upset the interior-point solver
    rows, lb, ub = [rows[k] for k in keep], [lb[k] for k in keep], [ub[k] for k in keep]
    names = sorted({n.args[0] for n in topo(rows + [lift(goal)]) if n.op == 'v'})
    sx = {n: cas.SX.sym('v%d' % i) for i, n in enumerate(names)}
    ex = to_sx(rows + [goal], sx)
    lo = np.array([box.get(n, (-5., 5.))[0] for n in names], float)
    hi = np.array([box.get(n, (-5., 5.))[1] for n in names], float)
    nlp = {'x': cas.vertcat(*[sx[n] for n in names]), 'f': -ex[-1], 'g': cas.vertcat(*ex[:-1])}
    s = cas.nlpsol('s', 'ipopt', nlp, {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': iters, 'ipopt.tol': 1e-8,
                                       'ipopt.sb': 'yes', 'ipopt.max_cpu_time': 20.})
    G = cas.Function('g', [nlp['x']], [nlp['g'], nlp['f']])
    rng = np.random.RandomState(seed)
    best = (None, None)
    lb, ub = np.array(lb, float), np.array(ub, float)
    for k in range(starts):
        c = (lo + hi) / 2
        x0 = c + (hi - lo) / 2 * rng.uniform(-1, 1, len(names)) * (0.2 if k % 2 else 0.8)
        if start and k == 0:
            x0 = np.array([start.get(n, x) for n, x in zip(names, x0)])
        try:
            r = s(x0=x0, lbx=lo, ubx=hi, lbg=lb, ubg=ub)
        except Exception:
            continue
        x = np.clip(np.array(r['x']).ravel(), lo, hi)
        g, f = G(x)
        g = np.array(g).ravel()
        if len(g) and (np.any(g < lb - 1e-6) or np.any(g > ub + 1e-6) or not np.all(np.isfinite(g))):
            continue
        v = -float(f)
        if best[0] is None or v > best[0]:
            best = (v, dict(zip(names, x.tolist())))
        if v > good:
            break
    return best


def maximize(M, lb, ub, goal, box=None, **k):
    """search over the decision and parameter vectors of a captured model"""
    v, pt = search(M.rows()[1], lb, ub, goal, box or {}, **k)
    return (v if v is not None else -1.), pt
