"""Every path of a function of the real code against claims about its result."""
from .expr import liftb, lift, band, bnot
from .solver import Explorer, prove, check
from .env import patched
from .norm import Norm


def decide(t, key, assum, fn, claims, kind, extra=None, patches=(), want=(), timeout=20000, max_paths=4000, normal=False, tag=None):
    """claims(result) -> [(what, more assumptions, goal)] must follow on every path; want: tags that must occur.
    tag(result) names the kind of path (for the reachability twin)"""
    seen = {}
    nm = Norm() if normal else None

    def S(xs):
        return [liftb(x) if nm is None else nm(liftb(x)) for x in xs]

    def case(m):
        return dict(kind=kind, extra=extra, model={k: float(v) for k, v in (m or {}).items()})
    n = 0
    with patched(patches):
        for pc, res, exc in Explorer(list(assum), timeout=timeout, max_paths=max_paths, norm=Norm() if normal else None).run(fn):
            n += 1
            pcs = S(pc)
            if exc is not None:
                v, m = check(pcs, timeout)
                if v == 'sat':
                    t.counterexample('%s:exception:%s' % (key, type(exc).__name__), '%s raises %r' % (key, exc), case(m))
                elif v == 'unknown':
                    t.unknown('%s raises %r on a path' % (key, exc))
                continue
            if tag is not None:
                k = tag(res)
                seen[k] = seen.get(k, 0) + 1
            for what, more, goal in claims(res):
                a, g = S(more), S([goal])[0]
                verdict, m = prove(pcs + a + (nm.side() if nm else []), g, timeout)
                if verdict == 'proved':
                    t.ok('%s: %s' % (key, what))
                elif verdict == 'refuted':
                    t.counterexample('%s:%s' % (key, what.replace(' ', '-')), '%s: %s' % (key, what), case(m))
                else:
                    t.unknown('%s: %s' % (key, what))
    for w in want:
        t.reach(w in seen, '%s: %s' % (key, w))
    t.reach(n > 0, '%s: some path' % key)
    return seen


def same(xs, ys):
    return band(*[liftb(lift(x) == lift(y)) for x, y in zip(xs, ys)])


def close(xs, ys, tol):
    return band(*[c for x, y in zip(xs, ys) for c in (lift(x) - lift(y) <= tol, lift(y) - lift(x) <= tol)])
