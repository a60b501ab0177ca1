import sys, os, json, importlib


def main():
    mode = sys.argv[1]
    if mode == 'check':
        prop = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
        only = sys.argv[4] if len(sys.argv) > 4 else None
        seed = int(os.environ.get('VERIF_SEED', '1'))
        from omgv import report
        rc = report.run(prop, 'omgv.checks.' + prop.lower(), tier, seed, only)
        sys.stdout.flush()
        os._exit(rc)
    elif mode == 'replay':
        d = json.load(open(sys.argv[2]))
        from omgv import env, report
        mod = importlib.import_module('omgv.checks.' + d['property'].lower())
        ok, msg = report.replayer(mod, d['case']['kind'])(d['case'])
        print('holds' if ok else 'VIOLATED', msg)
        sys.exit(0 if ok else 1)


if __name__ == '__main__':
    main()
