"""Running a check: tasks in worker processes, replay of counterexamples, evidence, known findings."""
import os, sys, json, time, traceback, importlib, multiprocessing as mp, hashlib, signal
from fractions import Fraction
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def jsonable(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class T(object):
    """what one task reports"""

    def __init__(self, prop, name, mod):
        self.prop, self.name, self.mod = prop, name, mod
        self.violations = []
        self.inconclusive = []
        self.checked = []
        self.witnesses = 0

    def ok(self, what):
        self.checked.append(what)

    def reach(self, found, what):
        """reachability twin: the assumptions must be satisfiable / the assertion reachable"""
        if found:
            self.witnesses += 1
        else:
            self.inconclusive.append('vacuous: ' + what)

    def unknown(self, what):
        self.inconclusive.append(what)

    def counterexample(self, key, what, case):
        """a solver counterexample: replay on the real code, then report.
        case: dict with 'kind' (function replay_<kind> of the check module) and its inputs"""
        case = jsonable(case)
        fn = replayer(self.mod, case['kind'])
        from . import expr, env
        old = expr._ctx[0]
        expr._ctx[0] = None
        try:
            with env.unpatched():
                ok, msg = fn(case)
        except Exception as e:
            ok, msg = None, 'replay raised %r\n%s' % (e, traceback.format_exc())
        finally:
            expr._ctx[0] = old
        if ok is not None and not ok:
            self.violations.append(dict(key=key, what=what, case=case, observed=msg))
            return True
        self.inconclusive.append('counterexample not reproduced (%s): %s -- %s' % (key, what, msg))
        return False


def replayer(mod, kind):
    return replay_task if kind == 'task' else getattr(mod, 'replay_' + kind)


def replay_task(case):
    """the concrete part of a task again: does the real code raise?"""
    from . import env
    mod = importlib.import_module(case['module'])
    t = T('', '', mod)
    t.tier, t.seed = 'quick', 1
    try:
        getattr(mod, 'task_' + case['args'][0])(t, *case['args'][1:])
    except env.RealCrash as e:
        return False, str(e)
    return True, 'no exception'


class CodeTrace(object):
    """which functions of the code under test ran (for the evidence)"""

    def __init__(self, repo):
        self.repo = os.path.join(repo, 'omgtools')
        self.seen = set()

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(4, 'omgv')
            m.register_callback(4, m.events.PY_START, self._hit)
            m.set_events(4, m.events.PY_START)
        except Exception:
            pass

    def _hit(self, code, off):
        f = code.co_filename
        if f.startswith(self.repo):
            self.seen.add(f[len(self.repo) + 1:] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


def _worker(modname, prop, name, args, tier, seed, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    out = dict(name=name)
    try:
        sys.setrecursionlimit(100000)
        from . import env, solver
        mod = importlib.import_module(modname)
        tr = CodeTrace(env.REPO)
        tr.start()
        t = T(prop, name, mod)
        t.tier, t.seed = tier, seed
        t0 = time.time()
        with env.quiet():
            try:
                getattr(mod, 'task_' + args[0])(t, *args[1:])
            except env.RealCrash as e:
                t.counterexample('crash:%s' % (':'.join(str(a) for a in args)), 'the code raises on valid input: %s' % e,
                                 dict(kind='task', module=modname, args=list(args)))
        out.update(violations=t.violations, inconclusive=t.inconclusive, checked=t.checked, witnesses=t.witnesses,
                   stats=solver.STATS.as_dict(), functions=sorted(tr.seen), wall=round(time.time() - t0, 2),
                   notes=solver.STATS.notes)
    except BaseException as e:
        out.update(error='%r\n%s' % (e, traceback.format_exc()))
    try:
        conn.send(out)
    except Exception as e:
        conn.send(dict(name=name, error='cannot send result: %r' % e))
    conn.close()


def known_keys(prop):
    ks = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                d = line[len('finding:'):].strip()
                parts = d.split(None, 2)
                if parts[0] == 'property=' + prop and parts[1].startswith('key='):
                    ks[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
    return ks


def run(prop, modname, tier, seed, only=None, jobs=None):
    t0 = time.time()
    # workers are forked from here so that the code under test is imported once
    from . import env
    mod = importlib.import_module(modname)
    tasks = mod.tasks(tier, seed)
    if only:
        tasks = [t for t in tasks if only in t[0]]
    jobs = jobs or min(8, os.cpu_count() or 4)
    budget = float(os.environ.get('OMGV_BUDGET', '800' if tier == 'quick' else '7200'))
    ctx = mp.get_context('fork')
    pending = list(tasks)
    running, results = [], []
    while pending or running:
        while pending and len(running) < jobs:
            name, args = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_worker, args=(modname, prop, name, args, tier, seed, b))
            pr.start()
            b.close()
            running.append((name, pr, a, time.time()))
        still = []
        progressed = False
        for name, pr, a, ts in running:
            if a.poll(0):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(dict(name=name, error='worker died'))
                pr.join()
                progressed = True
            elif not pr.is_alive():
                if a.poll(0.2):
                    results.append(a.recv())
                else:
                    results.append(dict(name=name, error='worker died (exit %s)' % pr.exitcode))
                progressed = True
            elif time.time() - t0 > budget:
                pr.kill()
                pr.join()
                results.append(dict(name=name, error='time budget exhausted'))
                progressed = True
            else:
                still.append((name, pr, a, ts))
        running = still
        if time.time() - t0 > budget and pending:
            results.extend(dict(name=n, error='not started: time budget exhausted') for n, _ in pending)
            pending = []
        if not progressed:
            time.sleep(0.02)
    return finish(prop, mod, tier, seed, results, time.time() - t0)


def finish(prop, mod, tier, seed, results, wall):
    tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_time_s=0., paths=0, obligations=0)
    funs, checked, witnesses = set(), 0, 0
    bad, errors, inconc = [], [], []
    samples, per = [], []
    results.sort(key=lambda r: r['name'])
    for r in results:
        if 'error' in r:
            errors.append((r['name'], r['error']))
            continue
        for k in tot:
            tot[k] += r['stats'][k]
        funs.update(r['functions'])
        checked += len(r['checked'])
        witnesses += r['witnesses']
        inconc.extend((r['name'], x) for x in r['inconclusive'])
        bad.extend((r['name'], v) for v in r['violations'])
        per.append(dict(task=r['name'], wall_s=r['wall'], queries=r['stats']['queries'], obligations=len(r['checked'])))
        samples.extend(dict(task=r['name'], obligation=c) for c in r['checked'][:2])
    tot['solver_time_s'] = round(tot['solver_time_s'], 2)
    known = known_keys(prop)
    new, listed = [], []
    for name, v in bad:
        (listed if v['key'] in known else new).append((name, v))
    for key in sorted(set(v['key'] for _, v in listed)):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[key], key))
    rdir = os.path.join(ROOT, 'out', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    seen = set()
    for name, v in new:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        h = hashlib.md5(json.dumps(v['case'], sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, task=name, key=v['key'], what=v['what'], observed=v['observed'], case=v['case'],
                           rerun='cd %s && bin/replay %s' % (ROOT, path)), f, indent=1)
        print('counterexample [%s] %s\n  real code: %s' % (v['key'], v['what'], v['observed']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    status = 'violation' if new else ('inconclusive' if (errors or inconc) else 'held')
    info = getattr(mod, 'INFO', {})
    tf = tot['obligations'] or checked
    cov = dict(explanation=info.get('explanation', ''),
               method='symbolic execution of the real code; every claim decided by z3 over all values within the bounds',
               bounds=info.get('bounds', []), outside=info.get('outside', []), stubs=info.get('stubs', []),
               functions_encoded=sorted(funs), obligations=checked, discharged=checked, queries=tot['queries'], queries_unsat=tot['unsat'],
               queries_sat=tot['sat'], queries_unknown=tot['unknown'], solver_time_s=tot['solver_time_s'],
               paths=tot['paths'], reachability_witnesses=witnesses, tasks=per, samples=samples[:40],
               status=status, known_findings=sorted(set(v['key'] for _, v in listed)),
               inconclusive=[list(x) for x in inconc][:40], errors=[list(x) for x in errors][:20])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 2),
              assumptions=info.get('assumptions', []), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    for l in lines:
        print(l)
    for n, e in errors:
        print('ERROR task %s: %s' % (n, e))
    for n, e in inconc:
        print('INCONCLUSIVE task %s: %s' % (n, e))
    print('%s %s: %s; tasks %d, obligations %d, queries %d (unsat %d, sat %d, unknown %d), paths %d, solver %.1f s, wall %.1f s'
          % (prop, tier, status, len(results), checked, tot['queries'], tot['unsat'], tot['sat'], tot['unknown'],
             tot['paths'], tot['solver_time_s'], wall))
    if new:
        return 1
    # what was explored held; undecided obligations are listed above and in the evidence.  No answer if too much is undecided
    if len(errors) * 2 >= len(results) or checked <= len(inconc):
        return 3
    if checked == 0:
        print('ERROR: nothing was checked')
        return 3
    return 0
