"""Claims about planned curves: decided over the rows of the captured NLP, refuted by a point of the real problem."""
import numpy as np
from . import conc, rows
from .checks.c04 import Setup, modes, box_of, term, vectors, feasible, atoms_of, reachable


def decide(t, S, eng, scene, mode, key, what, curve, found=None):
    """curve <= 0 at every instant (curve: FPW) or at one point (curve: polynomial dict); a list: equivalent forms of the same claim"""
    if isinstance(curve, list):
        for c in curve[1:]:
            if (eng.claim(c) if isinstance(c, dict) else eng.all(c)[0]) == 'proved':
                t.ok(what)
                return True
        curve = curve[0]
    if isinstance(curve, dict):
        r = eng.claim(curve)
        v, w = r, (0., 0., 0, curve)
    else:
        v, w = eng.all(curve)
    if v == 'proved':
        t.ok(what)
        return True
    k = '%s:%s' % (scene, key.split('|')[0])
    if found is not None and k in found:
        return False
    if refute(t, S, scene, mode, k, key, what, curve, w):
        if found is not None:
            found.add(k)
        return False
    t.unknown('%s: not implied by the rows (%s near tau=%.2f), and no violating trajectory found' % (what, v, w[0]))
    return False


def refute(t, S, scene, mode, k, key, what, curve, w):
    P = S.P
    if isinstance(curve, dict):
        pts = [(None, curve)]
    else:
        lo = 0.
        if not S.free and isinstance(S.u0, dict):
            lo = S.trange[1] / P.b.problem.options['horizon_time']
        elif not S.free:
            lo = S.u0
        c = [w[0] + f * (w[1] - w[0]) for f in (0.5, 0.1, 0.9)] + [0.45, 0.95, 0.7]
        c = [u for u in c if curve.p[0][0] <= u <= curve.p[-1][1]]
        pts = [(u, curve.at(u)) for u in c if u >= lo - 1e-9 or '@seg' in key and not key.endswith('@seg0')]
    for starts, iters in ((2, 150), (4, 300)):
        for u, p in pts:
            goal = term(p)
            sc = max([abs(c) for c in p.values()] + [1e-9])
            good = 2e-3 * min(sc, 1.)
            v, pt = conc.search(list(P.g), P.lb, P.ub, goal, box_of(S), starts=starts, good=good, iters=iters)
            if v is not None and v > good:
                x, ps = vectors(S, pt)
                return t.counterexample(k, what, dict(kind='claim', scene=scene, mode=mode, key=key, tau=u, x=x, p=ps, value=v,
                                                      extra={n: a for n, a in pt.items() if n[0] not in 'xp'}))
    return False


def replayer(SC, claims):
    """claims(S) yields (key, what, curve)"""
    def replay_claim(case):
        built = SC[case['scene']]()
        ok, worst = feasible(built, case['x'], case['p'])
        if not ok:
            return None, 'rows violated by %.2e' % worst
        S = Setup(built, case['mode'])
        num = atoms_of(S, case['x'], case['p'], case['extra'])
        for key, what, curve in claims(S):
            if key != case['key']:
                continue
            if callable(curve):
                curve = curve()
            if isinstance(curve, list):
                curve = curve[0]
            val = rows.feval(curve if isinstance(curve, dict) else curve.at(case['tau']), num)
            if val > 1e-4:
                return False, 'all rows of the problem hold (worst %.1e), yet %s fails: %.5g > 0%s' % (
                    worst, what, val, '' if case['tau'] is None else ' at tau=%.3f' % case['tau'])
            return True, 'value %.3g' % val
        return None, 'no claim ' + case['key']
    return replay_claim


def scene_task(SC, claims, tol=1e-6, box=1e3, rel=None):
    """rel: {scene: tolerance relative to the size of the claim}"""
    def task_scene(t, name, part=0, parts=1):
        """part of parts: every parts-th claim"""
        built = SC[name]()
        found = set()
        ok = None
        for mode in modes(built):
            S = Setup(built, mode)
            eng = S.P.engine(box=box, tol=tol)
            eng.rel = (rel or {}).get(name, eng.rel)
            if part == 0 and not ok:
                ok = reachable(None, S, name)
            n = -1
            for key, what, curve in claims(S):
                n += 1
                if n % parts != part:
                    continue
                if callable(curve):
                    curve = curve()
                decide(t, S, eng, name, mode, key, '%s[%s]: %s' % (name, mode, what), curve, found)
            if n < 0:
                ok = True
                t.unknown('%s: no claims' % name)
        if part == 0:
            t.reach(ok, name + ': rows of the problem satisfiable')
    return task_scene


def tasks_of(names, heavy=None):
    """heavy: {scene: number of slices}; these go first"""
    heavy = heavy or {}
    out = []
    for n in sorted(names, key=lambda n: -heavy.get(n, 0)):
        k = heavy.get(n, 1)
        out += [('scene:%s%s' % (n, '' if k == 1 else '/%d' % i), ('scene', n) + ((i, k) if k > 1 else ())) for i in range(k)]
    return out
