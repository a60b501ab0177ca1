"""C01: spline algebra and calculus are exact."""
import functools
from fractions import Fraction as F
import numpy as np
import casadi as cas
from .. import env, expr, casx, ref, spl
from ..env import patched
from ..expr import R, symvec, lift, band, B
from ..lin import PW, zero_query, point_model, resolve, curve_diffs
from ..solver import Explorer, check, prove, STATS
from ..spl import BASES, SMOOTH, Spec, basis, BSpline, BSplineBasis, SE, TOL

INFO = dict(
    explanation='the real BSpline/BSplineBasis operations run on symbolic coefficients (object arrays) and on CasADi symbols whose graphs are '
                'translated; the resulting curve is compared on every knot interval, in Bernstein form, with exact rational piecewise '
                'polynomials; z3 decides that no coefficient in the box makes them differ',
    bounds=['degrees 1-5, 1-10 knot intervals, uniform, non-uniform and repeated knots, domains other than [0,1] (concrete knot vectors)',
            'coefficients: all reals in [-1,1] (the operations are multilinear, so this is no restriction of scale)',
            'evaluation points: all reals of the domain'],
    outside=['NURBS, T-splines and tensor splines (never used by the planner)', 'floating-point rounding beyond 1e-7'],
    stubs=['scipy.linalg.solve on terms = inverse of the (numeric) matrix times the terms', 'scipy splev: linear in the coefficients, taken on unit vectors',
           'memo tables are keyed on numeric points only'],
    assumptions=['knot vectors are clamped'])


def uses(x):
    return x


def specs(tier):
    q = tier == 'quick'
    out = []
    one = ['d1n3', 'd2n2', 'd3n5', 'd3nonuni', 'd3mult', 'd3dom', 'd4n3'] if q else list(SMOOTH)
    pairs = [('d3n5', 'd3n5'), ('d2n2', 'd3n5'), ('d3n2', 'd2n5'), ('d3n5', 'd3nonuni'), ('d1n3', 'd2nonuni'), ('d3mult', 'd2nonuni'),
             ('d3mult', 'd3n2'), ('d1n1', 'd3n5')]
    # curves with jumps: piecewise constants, fully repeated interior knots
    jumps = [('d0n3', 'd1n3'), ('d0n3', 'd0n2'), ('d2jump', 'd1n3'), ('d2jump', 'd0n3')]
    if not q:
        unit = [b for b in SMOOTH if BASES[b][0][0] == 0 and BASES[b][0][-1] == 1]
        pairs = [(a, b) for a in unit for b in unit if a != 'd3n10' and b != 'd3n10'] + [('d3n10', 'd3n10'), ('d3n10', 'd3n5')]
    pairs += jumps
    prods = pairs + [('d3dom', 'd3dom'), ('d2T', 'd2T')]
    for a, b in pairs:
        out.append(Spec('add(%s,%s)' % (a, b), [a, b], lambda s: s[0] + s[1], lambda p: p[0] + p[1]))
        out.append(Spec('sub(%s,%s)' % (a, b), [a, b], lambda s: s[0] - s[1], lambda p: p[0] - p[1]))
    for a, b in prods:
        out.append(Spec('mul(%s,%s)' % (a, b), [a, b], lambda s: s[0] * s[1], lambda p: p[0] * p[1]))
    for a in one:
        d = BASES[a][1]
        lo, hi = BASES[a][0][0], BASES[a][0][-1]
        out.append(Spec('neg(%s)' % a, [a], lambda s: -s[0], lambda p: -p[0]))
        out.append(Spec('addconst(%s)' % a, [a], lambda s: s[0] + 0.75, lambda p: p[0] + F(3, 4)))
        out.append(Spec('raddconst(%s)' % a, [a], lambda s: 2 + s[0], lambda p: p[0] + 2))
        out.append(Spec('subconst(%s)' % a, [a], lambda s: s[0] - 0.75, lambda p: p[0] - F(3, 4)))
        out.append(Spec('rsubconst(%s)' % a, [a], lambda s: 0.75 - s[0], lambda p: F(3, 4) - p[0]))
        out.append(Spec('mulconst(%s)' % a, [a], lambda s: s[0] * -1.5, lambda p: p[0] * F(-3, 2)))
        out.append(Spec('rmulconst(%s)' % a, [a], lambda s: -1.5 * s[0], lambda p: p[0] * F(-3, 2)))
        for o in range(0, d + 1):
            out.append(Spec('derivative%d(%s)' % (o, a), [a], lambda s, o=o: s[0].derivative(o), lambda p, o=o: p[0].der(o)))
        out.append(Spec('derivative_default(%s)' % a, [a], lambda s: s[0].derivative(), lambda p: p[0].der(1)))
        out.append(Spec('running_integral(%s)' % a, [a], lambda s: SE.running_integral(s[0]), lambda p: p[0].integ()))
        out.append(Spec('integral(%s)' % a, [a], lambda s: s[0].integral() if not isinstance(s[0].coeffs, cas.MX) else s[0].integral(),
                        lambda p: p[0].integ().at(p[0].dom[1]), routes=('num',)))
        out.append(Spec('sample(%s)' % a, [a], lambda s, lo=lo, hi=hi: SE.sample_splines(s[0], np.linspace(lo, hi, 13)),
                        lambda p, lo=lo, hi=hi: [p[0].at(F(float(x))) for x in np.linspace(lo, hi, 13)], routes=('num',)))
        out.append(Spec('samplelist(%s)' % a, [a, a], lambda s, lo=lo, hi=hi: SE.sample_splines([s[0], s[1]], np.linspace(lo, hi, 4)),
                        lambda p, lo=lo, hi=hi: [[p[k].at(F(float(x))) for x in np.linspace(lo, hi, 4)] for k in (0, 1)], routes=('num',)))
        out.append(Spec('scale(%s)' % a, [a], lambda s: s[0].scale(2.5, shift=-1.), lambda p: p[0].affine(F(2, 5), F(2, 5))))
        out.append(Spec('scale_noshift(%s)' % a, [a], lambda s: s[0].scale(4.), lambda p: p[0].affine(F(1, 4), 0)))
        xs = np.r_[np.linspace(lo, hi, 9), BASES[a][0]]
        out.append(Spec('evalmany(%s)' % a, [a], lambda s, xs=xs: s[0](xs), lambda p, xs=xs: [p[0].at(F(float(x))) for x in xs]))
    for a in ['d2n2', 'd3n2', 'd3n5'] if q else ['d1n3', 'd2n2', 'd3n2', 'd3n5', 'd3nonuni', 'd3mult', 'd2mult', 'd4n3']:
        out.append(Spec('square(%s)' % a, [a], lambda s: s[0]**2, lambda p: p[0] * p[0]))
        out.append(Spec('pow1(%s)' % a, [a], lambda s: s[0]**1, lambda p: p[0]))
    for a in ['d2n2'] if q else ['d1n3', 'd2n2', 'd3n1']:
        out.append(Spec('cube(%s)' % a, [a], lambda s: s[0]**3, lambda p: p[0] * p[0] * p[0]))
    # how the planner composes them
    out.append(Spec('accel_expr(d3n5)', ['d3n5', 'd3n5'], lambda s: s[0].derivative(2) * (1 + s[1]**2) - 2 * s[0].derivative() * s[1] * s[1].derivative(),
                    lambda p: p[0].der(2) * (p[1] * p[1] + 1) - p[0].der() * p[1] * p[1].der() * 2, routes=('num', 'mx') if not q else ('num',)))
    out.append(Spec('hodograph(d2n5)', ['d2n5', 'd2n5'], lambda s: SE.running_integral(s[0] * (1 - s[1]**2)),
                    lambda p: (p[0] * (1 - p[1] * p[1])).integ()))
    return out


def named(name):
    for tier in ('quick', 'thorough'):
        for s in specs(tier):
            if s.name == name:
                return s
    raise KeyError(name)


def task_ops(t, tier, start, step):
    for s in specs(tier)[start::step]:
        spl.run_spec(t, s, 'op')


def replay_op(case):
    return spl.replay(named(case['spec']), case)


# ---------------------------------------------------- evaluation at symbolic points

def pieces(name):
    k, d = BASES[name]
    return ref.basis_polys(list(k), d)


def ref_piece(name, i, c, x):
    """reference value on piece i at symbolic x, as a term"""
    lo, hi, Bp = pieces(name)[i]
    r = R.const(0)
    for j, p in enumerate(Bp):
        for e, v in enumerate(p):
            if v:
                m = c[j] * R.const(v)
                for _ in range(e):
                    m = m * x
                r = r + m
    return r


def task_eval(t, name):
    """BSpline.__call__ and basis evaluation at every point of the domain"""
    k, d = BASES[name]
    n = len(basis(name))
    c = symvec('c0', n)
    x = R.var('x')
    lo, hi = float(k[0]), float(k[-1])
    X = max(abs(lo), abs(hi))
    hit = set()
    with patched(spl.spline_patches()):
        for pc, res, exc in Explorer([x >= lo, x <= hi]).run(lambda: BSpline(basis(name), c.copy())(x)):
            if exc is not None:
                v, m = check(pc)
                t.counterexample('eval:exception', 'evaluation raises %r' % exc, case_x('eval', name, m))
                continue
            v = spl._flat(res)
            if len(v) != 1:
                t.counterexample('eval:shape', 'evaluation gives %d values' % len(v), case_x('eval', name, check(pc)[1]))
                continue
            one_path(t, 'eval', name, pc, v[0], c, x, X, hit)
    t.reach(len(hit) == len(pieces(name)), 'every knot interval of %s reached' % name)


def one_path(t, kind, name, pc, val, c, x, X, hit):
    for i, (lo, hi, _) in enumerate(pieces(name)):
        v, m = check(list(pc) + [x > lo, x < hi])
        if v == 'unsat':
            # the end points belong to a neighbouring interval; still decide them
            v, m = check(list(pc) + [x >= lo, x <= hi])
            if v == 'unsat':
                continue
            pt = m['x']
            d = expr.substitute([val - ref_piece(name, i, c, x)], {x: R.const(pt)})[0]
        else:
            hit.add(i)
            d = val - ref_piece(name, i, c, x)
        r, _ = zero_query([d], lambda a: X if a is x else 1, TOL)
        what = '%s of %s on [%g,%g]' % (kind, name, float(lo), float(hi))
        if r == 'proved':
            t.ok(what)
        elif r == 'refuted':
            box = [band(z <= 1, z >= -1) for z in c]
            vv, m = prove(list(pc) + box + [x >= lo, x <= hi], band(d <= F(1e-6), d >= F(-1e-6)))
            if vv == 'proved':
                t.ok(what)
            elif vv == 'refuted':
                t.counterexample('%s:%s' % (kind, name), what, case_x(kind, name, m))
            else:
                t.unknown(what)
        else:
            t.unknown(what)


def case_x(kind, name, m):
    m = m or {}
    n = len(basis(name))
    rng = np.random.RandomState(3)
    k = BASES[name][0]
    return dict(kind='eval', op=kind, name=name, c=[float(m.get('c0[%d]' % j, rng.uniform(-1, 1))) for j in range(n)],
                x=float(m.get('x', 0.37 * k[0] + 0.63 * k[-1])), b=float(m.get('b', k[-1])))


def replay_eval(case):
    name, c, x = case['name'], np.array(case['c']), case['x']
    s = BSpline(basis(name), c)
    p = PW.spline(BASES[name][0], BASES[name][1], [R.const(v) for v in case['c']])
    op = case['op']
    try:
        if op == 'eval':
            got, want = float(np.ravel(s(x))[0]), float(p.at(F(x)).value)
        elif op == 'evalspline':
            got, want = float(SE.evalspline(s, x)), float(p.at(F(x)).value)
        elif op == 'evalspline_mx':
            m = cas.MX.sym('x')
            mc = cas.MX.sym('c', len(c))
            f = cas.Function('f', [mc, m], [SE.evalspline(BSpline(basis(name), mc), m)])
            got, want = float(f(c, x)), float(p.at(F(x)).value)
        elif op == 'defint_mx':
            m, mc = cas.MX.sym('x'), cas.MX.sym('c', len(c))
            f = cas.Function('f', [mc, m], [SE.definite_integral(BSpline(basis(name), mc), m, case['b'])])
            P = p.integ()
            got, want = float(f(c, x)), float((P.at(F(case['b'])) - P.at(F(x))).value)
        else:
            P = p.integ()
            got, want = float(SE.definite_integral(s, x, case['b'])), float((P.at(F(case['b'])) - P.at(F(x))).value)
    except Exception as e:
        return False, '%s at x=%r raised %r' % (op, x, e)
    return abs(got - want) <= 1e-6, '%s(%s) at x=%r: %.9g, exact curve: %.9g' % (op, name, x, got, want)


def task_evalspline(t, name, route):
    """evalspline (symbolic evaluation used inside the optimisation problems)"""
    k, d = BASES[name]
    n = len(basis(name))
    c, x = symvec('c0', n), R.var('x')
    X = max(abs(float(k[0])), abs(float(k[-1])))
    kind = 'evalspline' if route == 'num' else 'evalspline_mx'
    try:
        if route == 'num':
            with patched(spl.spline_patches()):
                val = SE.evalspline(BSpline(basis(name), c.copy()), x)
        else:
            m, mc = cas.MX.sym('x'), cas.MX.sym('c', n)
            f = cas.Function('f', [mc, m], [SE.evalspline(BSpline(basis(name), mc), m)])
            val = casx.translate(f, [list(c), [x]])[0][0]
    except expr.Unsupported:
        raise
    except Exception as e:
        t.counterexample(kind + ':exception', 'evalspline raises %r' % e, case_x(kind, name, {}))
        return
    hit = set()
    for lo, hi, pt in cells(name):
        facts = [x > lo, x < hi] if pt is None else [expr.eq(x, R.const(pt))]
        v = resolve([val], facts)[0]
        v = expr.substitute([v], {x: R.const(pt)})[0] if pt is not None else v
        one_path(t, kind, name, facts, v, c, x, X, hit)
    t.reach(len(hit) == len(pieces(name)), 'every knot interval of %s reached' % name)


def cells(name):
    """open knot intervals and the knots themselves"""
    out = [(lo, hi, None) for lo, hi, _ in pieces(name)]
    br = [lo for lo, _, _ in pieces(name)] + [pieces(name)[-1][1]]
    if BASES[name][1] > 0:
        out += [(b, b, b) for b in br]
    return out


def task_defint(t, name, route):
    """definite_integral(spline, a, b): a anywhere, b anywhere (b >= a); linear in the coefficients"""
    k, d = BASES[name]
    n = len(basis(name))
    c, x = symvec('c0', n), R.var('x')
    X = max(abs(float(k[0])), abs(float(k[-1])))
    kind = 'defint' if route == 'num' else 'defint_mx'
    P = PW.spline(k, d, c).integ()
    pcs = pieces(name)
    for b in (float(k[-1]), float(pcs[len(pcs) // 2][0] * F(1, 3) + pcs[len(pcs) // 2][1] * F(2, 3))):
        try:
            if route == 'num':
                with patched(spl.spline_patches()):
                    val = SE.definite_integral(BSpline(basis(name), c.copy()), x, b)
            else:
                m, mc = cas.MX.sym('x'), cas.MX.sym('c', n)
                f = cas.Function('f', [mc, m], [SE.definite_integral(BSpline(basis(name), mc), m, b)])
                val = casx.translate(f, [list(c), [x]])[0][0]
        except expr.Unsupported:
            raise
        except Exception as e:
            cc = case_x(kind, name, {})
            cc['b'] = b
            t.counterexample(kind + ':exception', 'definite_integral raises %r' % e, cc)
            continue
        for lo, hi, pt in cells(name):
            facts = [x > lo, x < hi] if pt is None else [expr.eq(x, R.const(pt))]
            v = resolve([val], facts)[0]
            if pt is not None:
                v = expr.substitute([v], {x: R.const(pt)})[0]
                want = P.at(F(b)) - P.at(pt)
            else:
                cp = [q for l, h, q in P.p if l == lo][0]
                w = R.const(0)
                for e in reversed(cp):
                    w = w * x + e
                want = P.at(F(b)) - w
            r, _ = zero_query([v - want], lambda a: X if a is x else 1, TOL)
            what = '%s of %s from a in [%g,%g] to %g' % (kind, name, float(lo), float(hi), b)
            if r == 'proved':
                t.ok(what)
            elif r == 'refuted':
                box = [band(z <= 1, z >= -1) for z in c]
                d = v - want
                vv, m = prove(box + facts, band(d <= F(1e-6), d >= F(-1e-6)))
                if vv == 'refuted':
                    cc = case_x(kind, name, m)
                    cc['b'] = b
                    t.counterexample('%s:%s' % (kind, name), what, cc)
                elif vv == 'proved':
                    t.ok(what)
                else:
                    t.unknown(what)
            else:
                t.unknown(what)


def tasks(tier, seed):
    q = tier == 'quick'
    step = 16 if q else 48
    out = [('ops %d' % i, ('ops', tier, i, step)) for i in range(step)]
    ev = ['d1n3', 'd2n2', 'd3n5', 'd3nonuni', 'd3mult', 'd3dom', 'd4n3'] if q else list(SMOOTH)
    out += [('eval ' + n, ('eval', n)) for n in ev]
    es = ['d2n2', 'd3n5', 'd3nonuni', 'd3mult', 'd2T'] if q else list(SMOOTH)
    out += [('evalspline %s %s' % (n, r), ('evalspline', n, r)) for n in es for r in ('num', 'mx')]
    di = ['d2n2', 'd3n5', 'd2nonuni', 'd2T'] if q else list(SMOOTH)
    out += [('defint %s %s' % (n, r), ('defint', n, r)) for n in di for r in ('num', 'mx')]
    return out
