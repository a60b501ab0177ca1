"""C02: re-expressing a spline (knots, horizon, interval) preserves the curve."""
from fractions import Fraction as F
import numpy as np
import casadi as cas
from .. import env, expr, casx, ref, spl
from ..env import patched
from ..expr import R, symvec, lift, band, bor
from ..lin import PW, zero_query, point_model, curve_diffs, to_ratio, poly_term
from ..solver import Explorer, check, prove, STATS
from ..spl import BASES, JUMPS, Spec, basis, BSpline, BSplineBasis, S, SE, TOL, uniform, clamp

INFO = dict(
    explanation='the real transformation routines run on symbolic coefficients (and a symbolic shift for the first-knot transformation, symbolic '
                'segments for the concatenation); the new curve is compared with the old one on every knot interval, in Bernstein or blossom form, by z3',
    bounds=['degrees 1-5, 1-10 knot intervals, uniform, non-uniform and repeated knots', 'coefficients: all reals in [-1,1]',
            'first-knot shift: every real shift inside the first knot interval (up to 95% of it)',
            'concatenation: 2-3 segments, 1-2 splines, unequal segment times, continuity of order 0..degree at the joints'],
    outside=['shift_spline is an interpolation: exact at both ends and on polynomials, which is what is claimed',
             'joints whose mismatch is positive but below the 1e-3 relative threshold of the concatenation'],
    stubs=['scipy.linalg.solve on terms = inverse of the numeric matrix times the terms'],
    assumptions=['knot vectors are clamped'])

EXTRA = {
    'd3rep': (clamp([.25, .5, .75, .75], 3, 0., 1.), 3), 'd2rep': (clamp([.5, .5], 2, 0., 1.), 2), 'd3u10': (uniform(4, 3, 0., 10.), 3),
}
BASES.update(EXTRA)


def dot(T, c):
    if isinstance(c, (cas.MX, cas.SX)):
        return cas.mtimes(cas.DM(np.array(T.toarray() if hasattr(T, 'toarray') else T)), c)
    return T.dot(c)


def extended(p, t):
    """last polynomial continued over t more"""
    lo, hi, c = p.p[-1]
    return PW(p.p + [(hi, hi + F(float(t)), c)])


def extra_basis(b, t):
    k, d = b.knots, b.degree
    m = 1
    while k[-d - 2 - m] >= k[-d - 2]:
        m += 1
    return BSplineBasis(np.r_[k[:-d - 1], [k[-1]] * m, [k[-1] + t] * (d + 1)], d)


def first_gap(a):
    k, d = BASES[a]
    return F(float(k[d + 1])) - F(float(k[0]))


def last_gap(a):
    k, d = BASES[a]
    return F(float(k[-1])) - F(float(k[-d - 2]))


def specs(tier):
    q = tier == 'quick'
    out = []
    one = ['d1n3', 'd2n2', 'd3n1', 'd3n5', 'd3n10', 'd3nonuni', 'd3mult', 'd3dom', 'd4n3', 'd3rep'] if q else [b for b in BASES if b not in JUMPS]
    for a in one:
        k, d = BASES[a]
        lo, hi = float(k[0]), float(k[-1])
        at = lambda f, lo=lo, hi=hi: lo + f * (hi - lo)
        same = lambda p: p[0]
        ks = [at(.11), at(.52), at(.77)]
        out.append(Spec('insert_knots(%s)' % a, [a], lambda s, ks=ks: s[0].insert_knots(np.array(ks)), same))
        ks2 = [at(.5), float(k[len(k) // 2])]
        out.append(Spec('insert_known_knots(%s)' % a, [a], lambda s, ks=ks2: s[0].insert_knots(np.array(ks)), same))

        def kins(s, ks):
            T, kn = SE.knot_insertion_T(s[0].basis, ks)
            return BSpline(BSplineBasis(np.array(kn), s[0].basis.degree), dot(T, s[0].coeffs))
        for j, ks3 in enumerate([[at(.3)], [at(.52), at(.11)], [at(.4), at(.4)], [lo + float(first_gap(a)) / 2, at(.9)]]):
            out.append(Spec('knot_insertion_T%d(%s)' % (j, a), [a], lambda s, ks=ks3: kins(s, ks), same))
        mid = float(k[len(k) // 2])
        crops = [(at(.23), at(.81)), (lo, at(.4)), (at(.35), hi), (lo, hi), (at(.31), at(.33))]
        if lo < mid < hi:
            crops += [(mid, hi), (lo, mid), (at(.07), mid)] if mid > at(.07) else [(mid, hi), (lo, mid)]
        for j, (u, v) in enumerate(crops):
            out.append(Spec('crop%d(%s)' % (j, a), [a], lambda s, u=u, v=v: SE.crop_spline(s[0], u, v),
                            lambda p, u=u, v=v: p[0].restrict(F(u), F(v))))
        for j, te in enumerate([] if len(k) == 2 * d + 2 else [(hi - lo) * .3, float(last_gap(a)), (hi - lo) * .05]):
            out.append(Spec('extrapolate%d(%s)' % (j, a), [a],
                            lambda s, te=te: BSpline(extra_basis(s[0].basis, te), SE.extrapolate(s[0].coeffs, te, s[0].basis)) if not isinstance(s[0].coeffs, cas.MX)
                            else BSpline(extra_basis(s[0].basis, te), dot(SE.extrapolate_T(s[0].basis, te), s[0].coeffs)),
                            lambda p, te=te: extended(p[0], te), routes=('num',)))
        for f in (.1, .37) if q else (.01, .1, .25, .37, .5, .9):
            ts = at(f)

            def shsp(s, ts=ts):
                c = SE.shift_spline(s[0].coeffs, ts, s[0].basis)
                n_knots = len(s[0].basis) - s[0].basis.degree + 1
                e = s[0].basis.knots[-1]
                dg = s[0].basis.degree
                b2 = BSplineBasis(np.r_[ts * np.ones(dg), np.linspace(ts, e, n_knots), e * np.ones(dg)], dg)
                return BSpline(b2, c)
            # the curve at both ends
            out.append(Spec('shift_spline_ends%.2f(%s)' % (f, a), [a], lambda s, ts=ts, hi=hi, g=shsp: [g(s).coeffs[0], g(s).coeffs[-1]],
                            lambda p, ts=ts, hi=hi: [p[0].at(F(ts)), p[0].at(F(hi))], routes=('num',)))
            # a single polynomial is reproduced
            out.append(Spec('shift_spline_poly%.2f(%s)' % (f, a), ['poly%d' % d],
                            lambda s, a=a, g=shsp: g([lifted(s[0], a)]),
                            lambda p, a=a, ts=ts, d=d: on(p[0], a).restrict(F(ts), F(float(BASES[a][0][-1]))), routes=('num',), tol=1e-6))
    for a in ['d1n3', 'd2n2', 'd2n5', 'd3n2', 'd3n5', 'd3n10', 'd4n3', 'd5n2', 'd3dom', 'd3u10']:
        k, d = BASES[a]
        g = first_gap(a)
        out.append(Spec('shift_over_knot(%s)' % a, [a], lambda s: BSpline(s[0].basis, dot(SE.shiftoverknot_T(s[0].basis), s[0].coeffs)),
                        lambda p, g=g: shifted_over(p[0], g)))
        out.append(Spec('shift_over_knot_call(%s)' % a, [a], lambda s: BSpline(s[0].basis, SE.shift_over_knot(s[0].coeffs, s[0].basis)),
                        lambda p, g=g: shifted_over(p[0], g), routes=('num',)))
    # basis to basis transformation between nested spaces
    for a, b in [('d3n5', 'd3n10'), ('d2n5', 'd3n5'), ('d1n3', 'd1n3'), ('d2n2', 'd4n4x'), ('d3nonuni', 'd3nonuni')]:
        if b not in BASES:
            BASES[b] = (clamp([.25, .5, .5, .75, .5], 4, 0., 1.), 4)
            BASES[b] = (np.sort(BASES[b][0]), 4)
        if a == 'd2n5':
            BASES['d3n5d'] = (np.sort(clamp([.2, .2, .4, .4, .6, .6, .8, .8], 3, 0., 1.)), 3)
            b = 'd3n5d'
        out.append(Spec('transform(%s,%s)' % (a, b), [a], lambda s, b=b: BSpline(basis(b), basis(b).transform(s[0].basis).dot(s[0].coeffs)), lambda p: p[0]))
    return out


for _d in range(1, 6):
    BASES['poly%d' % _d] = (uniform(1, _d), _d)


def lifted(s, a):
    """the polynomial s (on [0,1]) stretched over the domain of basis a and written there, exactly, by blossoming"""
    k, d = BASES[a]
    lo, hi = F(float(k[0])), F(float(k[-1]))
    p = PW.spline(s.basis.knots, s.basis.degree, list(s.coeffs)).affine(1 / (hi - lo), -lo / (hi - lo)).p[0][2]
    n = len(k) - d - 1
    c = np.empty(n, object)
    for i in range(n):
        c[i] = blossom(p, d, [R.const(F(float(x))) for x in k[i + 1:i + 1 + d]])
    if all(x.isconst for x in c):
        c = np.array([float(x.value) for x in c])
    return BSpline(basis(a), c)


def on(p, a):
    k, d = BASES[a]
    lo, hi = F(float(k[0])), F(float(k[-1]))
    return p.affine(1 / (hi - lo), -lo / (hi - lo))


def blossom(p, d, args):
    """polar form of the degree-d polynomial with term coefficients p at terms args"""
    out = R.const(0)
    # elementary symmetric functions
    e = [R.const(1)] + [R.const(0)] * d
    for a in args:
        for j in range(d, 0, -1):
            e[j] = e[j] + e[j - 1] * a
    for j, c in enumerate(p):
        if j <= d:
            out = out + c * e[j] * F(1, ref.comb(d, j))
    return out


def shifted_over(p, g):
    lo = p.dom[0]
    q = PW([(l, h, c) for l, h, c in p.p if l >= lo + g - F(1, 10**9)])
    last = p.p[-1]
    q = PW(q.p + [(last[1], last[1] + g, last[2])])
    return q.affine(1, g)


def named(name):
    for tier in ('quick', 'thorough'):
        for s in specs(tier):
            if s.name == name:
                return s
    raise KeyError(name)


def task_ops(t, tier, start, step):
    for s in specs(tier)[start::step]:
        spl.run_spec(t, s, 'op')


def replay_op(case):
    return spl.replay(named(case['spec']), case)


# --------------------------------------------------- moving the first knots

def first_poly(a, c):
    return PW.spline(BASES[a][0], BASES[a][1], c).p[0][2]


def ref_fwd(a, c, ts):
    """coefficients after moving the first degree+1 knots to ts: blossoms of the first polynomial"""
    k, d = BASES[a]
    p = first_poly(a, c)
    out = list(c)
    for i in range(d + 1):
        kk = [ts if j <= d else R.const(F(float(k[j]))) for j in range(i + 1, i + 1 + d)]
        out[i] = blossom(p, d, kk)
    return out


def task_knot1(t, a, route):
    k, d = BASES[a]
    n = len(basis(a))
    c, s = symvec('c0', n), R.var('s')
    g = float(first_gap(a)) * .95
    lo = float(k[0])
    dom = [s >= lo, s <= lo + g]
    X = max(abs(lo), abs(lo + g))
    case = lambda m, op: dict(kind='knot1', name=a, route=route, op=op, s=float((m or {}).get('s', lo + g / 3)),
                              c=[float((m or {}).get('c0[%d]' % j, ((j * 37) % 11) / 11. - .5)) for j in range(n)])
    def call(f):
        if route == 'num':
            with patched(spl.spline_patches()):
                return [lift(x) for x in np.ravel(f(c.copy(), basis(a), s))]
        mc, ms = cas.MX.sym('c', n), cas.MX.sym('s')
        fn = cas.Function('f', [mc, ms], [f(mc, basis(a), ms)])
        return casx.translate(fn, [list(c), [s]])[0]
    for op, f in (('fwd', SE.shift_knot1_fwd), ('bwd', SE.shift_knot1_bwd)):
        try:
            got = call(f)
        except expr.Unsupported:
            raise
        except Exception as e:
            t.counterexample('knot1:%s:exception' % op, 'shift_knot1_%s raises %r' % (op, e), case({}, op))
            continue
        if len(got) != n:
            t.counterexample('knot1:%s:shape' % op, 'shift_knot1_%s gives %d coefficients' % (op, len(got)), case({}, op))
            continue
        if op == 'fwd':
            diffs = [x - y for x, y in zip(got, ref_fwd(a, c, s))]
        else:
            # the original coefficients come back: apply the exact forward map to the result
            diffs = [x - y for x, y in zip(ref_fwd(a, got, s), c)]
        for i in range(n):
            # linear in the coefficients: decide each unit vector, so that only s remains
            what = 'shift_knot1_%s(%s) coefficient %d (%s route)' % (op, a, i, route)
            num, den = to_ratio(diffs[i])
            worst = 'proved'
            for j in range(n):
                aid = c[j].id
                nj = num.coeffs_in(aid)
                nj = nj[1] if len(nj) > 1 else None
                if nj is None:
                    continue
                A, D = poly_term(nj), poly_term(den)
                tol = R.const(F(1, 10**8))
                if A.isconst and D.isconst:
                    STATS.queries += 1
                    if abs(A.value) <= tol.value * abs(D.value):
                        STATS.unsat += 1
                        continue
                v, m = prove(dom, A * A <= tol * tol * D * D, 20000)
                if v == 'refuted':
                    m['c0[%d]' % j] = 1.
                    for l in range(n):
                        if l != j:
                            m['c0[%d]' % l] = 0.
                    t.counterexample('knot1:%s' % op, what, case(m, op))
                    worst = 'refuted'
                    break
                if v == 'unknown':
                    worst = 'unknown'
            if worst == 'proved':
                t.ok(what)
            elif worst == 'unknown':
                t.unknown(what)
    v, m = check(dom)
    t.reach(v == 'sat', 'shift range')


def replay_knot1(case):
    a, s, c = case['name'], case['s'], np.array(case['c'])
    f = SE.shift_knot1_fwd if case['op'] == 'fwd' else SE.shift_knot1_bwd
    try:
        if case['route'] == 'num':
            got = np.ravel(f(c, basis(a), s))
        else:
            mc, ms = cas.MX.sym('c', len(c)), cas.MX.sym('s')
            got = np.ravel(np.array(cas.Function('f', [mc, ms], [f(mc, basis(a), ms)])(c, s)))
    except Exception as e:
        return False, 'shift_knot1_%s raised %r' % (case['op'], e)
    cc = [R.const(float(x)) for x in (c if case['op'] == 'fwd' else got)]
    want = [float(x.value) for x in ref_fwd(a, cc, R.const(s))]
    other = got if case['op'] == 'fwd' else c
    if len(want) != len(other):
        return False, 'wrong number of coefficients'
    e = max(abs(x - y) for x, y in zip(want, other))
    return e <= 1e-6, 'shift_knot1_%s(%s, t=%g) of %s: coefficients differ by %.3g from the same curve with moved knots' % (case['op'], a, s, c.tolist(), e)


# --------------------------------------------------------------- concatenation

def seg_continue(a, prev, Tp, Tn, order, name):
    """coefficient terms of a next segment whose derivatives up to `order` match the previous one's end (in real time); the rest is free"""
    k, d = BASES[a]
    n = len(basis(a))
    c = symvec(name, n)
    if order < 0:
        return c
    end = PW.spline(k, d, prev).p[-1][2]
    P0 = ref.basis_polys(list(k), d)[0]
    # derivative r of the new segment at 0 is lower triangular in its coefficients
    for r in range(order + 1):
        dv = _der_at(end, r, F(1)) * (F(float(Tn)) / F(float(Tp)))**r
        rows = [ref.peval(_pder(P0[2][j], r), F(0)) if P0[2][j] else F(0) for j in range(n)]
        acc = dv
        for j in range(r):
            acc = acc - c[j] * rows[j]
        c[r] = acc * (1 / rows[r])
    return c


def _pder(p, r):
    for _ in range(r):
        p = ref.pder(p)
    return p


def _der_at(p, r, x):
    out = R.const(0)
    for e in range(len(p) - 1, r - 1, -1):
        f = 1
        for q in range(r):
            f *= e - q
        out = out * x + p[e] * f
    return out


def order_at(o, i):
    """continuity at joint i (1, 2, ..): one number for all joints, or a list"""
    return o[i - 1] if isinstance(o, (list, tuple)) else o


def concat_case(a, times, orders, nspl):
    segs = []
    for l in range(nspl):
        cs = [symvec('a%d' % l, len(basis(a)))]
        for i in range(1, len(times)):
            cs.append(seg_continue(a, cs[-1], times[i - 1], times[i], order_at(orders[l], i), 'b%d_%d' % (l, i)))
        segs.append(cs)
    return segs      # [spline][segment]


def ref_concat(a, cs, times):
    k, d = BASES[a]
    out, t0 = [], F(0)
    for c, T in zip(cs, times):
        T = F(float(T))
        out += PW.spline(k, d, list(c)).affine(1 / T, -t0 / T).p
        t0 += T
    return PW(out)


def concat_assume(a, segs, times, orders):
    """the first derivative beyond the continuity order differs clearly (else the code may call it continuous)"""
    k, d = BASES[a]
    out = []
    for l, cs in enumerate(segs):
        for i in range(1, len(times)):
            r = order_at(orders[l], i) + 1
            if r > d:
                continue
            u = _der_at(PW.spline(k, d, cs[i - 1]).p[-1][2], r, F(1)) * (1 / F(float(times[i - 1])))**r
            v = _der_at(PW.spline(k, d, cs[i]).p[0][2], r, F(0)) * (1 / F(float(times[i])))**r
            m = (abs(u) + abs(v) + 1) * F(1, 50)
            out.append(bor(u - v >= m, v - u >= m))
    return out


def task_concat(t, a, times, orders, n_insert):
    segs = concat_case(a, times, orders, len(orders))
    atoms = [x for x in expr.topo([y for cs in segs for c in cs for y in c]) if x.op == 'v']
    box = [band(x <= 1, x >= -1) for x in atoms]
    ass = concat_assume(a, segs, times, orders) if n_insert is None else []
    case = lambda m: dict(kind='concat', name=a, times=times, orders=orders, n_insert=n_insert, m={k: float(v) for k, v in (m or {}).items()})
    key = 'concat:%s' % ('auto' if n_insert is None else 'given')
    if any(isinstance(o, list) for o in orders):
        key = 'concat:mixed'

    def go():
        sg = [[BSpline(basis(a), segs[l][i].copy()) for l in range(len(orders))] for i in range(len(times))]
        return SE.concat_splines(sg, list(times), n_insert=n_insert)
    npath = 0
    what = 'concatenation of %s, times %s, continuity %s%s' % (a, times, orders, '' if n_insert is None else ', %d knots given' % n_insert)
    with patched(spl.spline_patches()):
        for pc, res, exc in Explorer(box + ass, timeout=20000, max_paths=300).run(go):
            npath += 1
            if exc is not None:
                t.counterexample(key + ':exception', what + ' raises %r' % exc, case(check(pc)[1]))
                continue
            d = spl.diffs(res, [ref_concat(a, cs, times) for cs in segs])
            if isinstance(d, str):
                t.counterexample(key, what + ': ' + d, case(check(pc)[1]))
                continue
            v, i = zero_query(d, tol=1e-6)
            if v == 'refuted':
                g = band(*[band(x <= F(1e-6), x >= F(-1e-6)) for x in d])
                v, m = prove(pc, g, 30000)
                if v == 'refuted':
                    t.counterexample(key, what, case(m))
                    continue
            if v == 'proved':
                t.ok(what)
            else:
                t.unknown(what)
    t.reach(npath > 0, 'concatenation path')


def replay_concat(case):
    a, times, orders, m = case['name'], case['times'], case['orders'], case['m']
    segs = concat_case(a, times, orders, len(orders))
    envv = {}
    for x in expr.topo([y for cs in segs for c in cs for y in c]):
        if x.op == 'v':
            envv[x.args[0]] = F(m.get(x.args[0], 0.3))
    num = [[np.array([float(v) for v in expr.evaluate(list(c), envv)]) for c in cs] for cs in segs]
    try:
        res = SE.concat_splines([[BSpline(basis(a), num[l][i]) for l in range(len(orders))] for i in range(len(times))], list(times), n_insert=case['n_insert'])
    except Exception as e:
        return False, 'concat_splines raised %r on %s' % (e, num)
    w = spl.compare_float(res, [ref_concat(a, [[R.const(float(v)) for v in c] for c in cs], times) for cs in num])
    if isinstance(w, str):
        return False, w
    return w[0] <= 1e-5, 'concatenating %s with times %s: the curve differs by %.3g at %s' % ([[list(c) for c in cs] for cs in num], times, w[0], w[1])


def tasks(tier, seed):
    q = tier == 'quick'
    step = 16 if q else 48
    out = [('ops %d' % i, ('ops', tier, i, step)) for i in range(step)]
    for a in ['d1n3', 'd2n2', 'd3n5', 'd2n5', 'd3nonuni', 'd3u10'] if q else [b for b in BASES if b not in JUMPS and not b.startswith('poly') and BASES[b][1] <= 4]:
        for r in ('num', 'mx'):
            out.append(('knot1 %s %s' % (a, r), ('knot1', a, r)))
    cc = []
    for a in ['d2n2', 'd3n2'] if q else ['d2n2', 'd3n1', 'd3n2', 'd3n5', 'd4n3', 'd3nonuni']:
        d = BASES[a][1]
        for times in ([1., 1.], [2., 3.], [1.7, 2.3]) if not q else ([1., 1.], [1.7, 2.3]):
            for o in range(-1, d + 1):
                cc.append((a, times, [o], None))
    for a in ['d2n2', 'd3n2']:
        d = BASES[a][1]
        cc.append((a, [2., 3.], [0], None))
        cc.append((a, [1., 2., 1.5], [d - 1], None))
        cc.append((a, [1., 2., 1.5], [-1], None))
        cc.append((a, [1., 2.], [d - 1, 0], None))
        cc.append((a, [1., 2.], [-1, d - 1], None))
        cc.append((a, [2., 1.], [d - 1, -1], None))
        cc.append((a, [1., 2.], [d - 1, d - 1], 1))
        cc.append((a, [1., 2., 3.], [d - 1], 1))
        cc.append((a, [1., 2.], [0], d))
        cc.append((a, [1., 2.], [-1], d + 1))
        cc.append((a, [10.], [-1], None))
        cc.append((a, [1., 2., 1.5], [[-1, d - 1]], None))
        cc.append((a, [1., 2., 1.5], [[d - 1, 0]], None))
    for i, (a, ti, o, n) in enumerate(cc):
        out.append(('concat %d %s' % (i, a), ('concat', a, ti, o, n)))
    return out
