#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on /repo's current working tree."""
import importlib.util
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF + '/lib', VERIF + '/checks']


def main():
    prop = sys.argv[1]
    path = '%s/checks/%s.py' % (VERIF, prop.lower())
    spec = importlib.util.spec_from_file_location('check_' + prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        rp = json.load(open(sys.argv[3]))
        os.environ['VERIF_SEED'] = str(rp.get('seed', 1))
        os.environ['VERIF_TIER'] = rp.get('tier', 'quick')
        return mod.replay(rp) if hasattr(mod, 'replay') else replay(mod, rp)
    return mod.main()


def replay(mod, rp):
    import subprocess
    import build
    import runner
    exes = build.build_many(mod.TARGETS)
    e = dict(os.environ)
    e.update(runner.SAN_ENV)
    e.update(rp.get('env', {}))
    os.makedirs(VERIF + '/build/tmp', exist_ok=True)
    return subprocess.run([exes[rp['harness']], '--seed', str(rp['seed']), '--from', str(rp['case']), '--to',
                           str(rp['case'] + 1), '--tier', rp['tier'], '--verbose', '1', '--tmp', VERIF + '/build/tmp']
                          + rp.get('args', []), env=e).returncode


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
