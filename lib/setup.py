"""Builds the library variants and every harness that the registered checks need."""
import importlib.util
import json
import sys
sys.path[:0] = ['/verif/lib', '/verif/checks']
import build

want = {}
for c in json.load(open(build.VERIF + '/MANIFEST.json'))['checks']:
    p = c['property']
    spec = importlib.util.spec_from_file_location('check_' + p, '%s/checks/%s.py' % (build.VERIF, p.lower()))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for t in getattr(m, 'TARGETS', []):
        want[(t['name'], t['variant'])] = t
build.build_many(list(want.values()))
