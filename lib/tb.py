"""Developer helper: build one harness file and print the executable's path."""
import sys
sys.path.insert(0, '/verif/lib')
import build
n = sys.argv[1]
v = sys.argv[2] if len(sys.argv) > 2 else 'plain'
print(build.build_many([dict(name=n, variant=v, sources=['/verif/harness/%s.cpp' % n], libs=[a for a in sys.argv[3:] if not a.startswith('-I')], flags=[a for a in sys.argv[3:] if a.startswith('-I')])])[n])
