"""Builds webern/mx from /repo's current working tree into /verif/build (ignored by git).

Variants differ in instrumentation. Element sources are compiled in batches (one translation unit that includes many
sources) because that is many times faster; a batch that does not compile is compiled file by file, so a source tree
that is valid but not batch-friendly still builds.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MX_REPO', '/repo')
SRC = REPO + '/Sourcecode/private'
INC = ['-I' + SRC, '-I' + SRC + '/mx/ezxml/src/include', '-I' + SRC + '/mx/ezxml/src/private',
       '-I' + REPO + '/Sourcecode/include']
BASE = ['-std=c++17', '-w', '-include', 'cstdint', '-pthread']
LINK = ['-fuse-ld=lld', '-B/usr/lib/llvm-18/bin', '-pthread']
UB = ('-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero '
      '-fno-sanitize-recover=all').split()
VARIANTS = {
    'plain': ['-O1', '-g1', '-ftrivial-auto-var-init=pattern'],
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_DEBUG'] + UB,
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'fuzz': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=fuzzer-no-link'] + UB,
}
JOBS = os.cpu_count() or 8


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for r, ds, fs in os.walk(SRC + '/mx'):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(r, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for top in (SRC + '/mx', REPO + '/Sourcecode/include'):
        for r, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h


def _env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = VERIF + '/build/ccache'
    e['CCACHE_MAXSIZE'] = '3G'
    e['CCACHE_SLOPPINESS'] = 'time_macros,include_file_mtime,include_file_ctime'
    e['TMPDIR'] = VERIF + '/build/tmp'
    os.makedirs(e['TMPDIR'], exist_ok=True)
    return e


def _cxx():
    return (['ccache'] if shutil.which('ccache') else []) + ['clang++']


def _compile(flags, src, obj, inc, env):
    p = subprocess.run(_cxx() + BASE + flags + inc + ['-c', src, '-o', obj], capture_output=True, text=True, env=env)
    return p.returncode, p.stderr


def _compile_group(flags, files, stem, env):
    """Compile files as one unit; fall back to one by one. Returns object list."""
    if len(files) > 1:
        u = stem + '.cpp'
        text = ''.join('#include "%s"\n' % f for f in files)
        if not os.path.exists(u) or open(u).read() != text:
            with open(u, 'w') as fh:
                fh.write(text)
        rc, err = _compile(flags, u, stem + '.o', INC, env)
        if rc == 0:
            return [stem + '.o']
    objs = []
    for n, f in enumerate(files):
        o = '%s_%d.o' % (stem, n)
        rc, err = _compile(flags, f, o, INC, env)
        if rc:
            raise BuildError('cannot compile %s\n%s' % (f, err[:3000]))
        objs.append(o)
    return objs


class Lock:
    def __enter__(self):
        os.makedirs(VERIF + '/build', exist_ok=True)
        self.f = open(VERIF + '/build/lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_many(wanted, verbose=True):
    """wanted: list of dict(name, variant, sources, flags=[], libs=[], link_flags=[], nolib=False).
    Builds the needed library variants and all the executables with one worker pool. Returns name -> exe path."""
    t0 = time.time()
    res = {}
    with Lock():
        env = _env()
        th = tree_hash()
        files = lib_sources()
        core = [f for f in files if '/core/elements/' in f]
        rest = [f for f in files if '/core/elements/' not in f]
        groups = [[f] for f in sorted(rest, key=lambda f: -os.path.getsize(f))]
        n = 40
        groups = groups[:20] + [core[i:i + n] for i in range(0, len(core), n)] + groups[20:]
        tasks = []  # (kind, key, callable)
        libs = {}
        for w in wanted:
            v = w['variant']
            if v in libs:
                continue
            h = th.copy()
            h.update(repr((VARIANTS[v], BASE)).encode())
            d = '%s/build/%s-%s' % (VERIF, v, h.hexdigest()[:12])
            libs[v] = dict(dir=d, lib=d + '/libmx.a', objs=None)
            if not os.path.exists(d + '/libmx.a'):
                for old in sorted(glob.glob('%s/build/%s-*' % (VERIF, v)), key=os.path.getmtime)[:-2]:
                    shutil.rmtree(old, ignore_errors=True)
                os.makedirs(d, exist_ok=True)
                libs[v]['objs'] = []
                for i, g in enumerate(groups):
                    # the unit's path is independent of the tree hash so that ccache can reuse it
                    os.makedirs('%s/build/units-%s' % (VERIF, v), exist_ok=True)
                    stem = '%s/build/units-%s/u%d' % (VERIF, v, i)
                    tasks.append(('lib', v, (VARIANTS[v], g, stem)))
        exes = {}
        for w in wanted:
            v = w['variant']
            flags = VARIANTS[v] + ['-I' + VERIF + '/harness'] + w.get('flags', [])
            d = libs[v]['dir']
            exes[w['name']] = dict(w=w, objs=[], exe='%s/%s' % (d, w['name']))
            for k, s in enumerate(w['sources']):
                o = '%s/%s.%d.o' % (d, w['name'], k)
                os.makedirs(d, exist_ok=True)
                exes[w['name']]['objs'].append(o)
                tasks.append(('exe', w['name'], (flags, s, o)))

        def run(t):
            kind, key, a = t
            if kind == 'lib':
                return _compile_group(a[0], a[1], a[2], env)
            rc, err = _compile(a[0], a[1], a[2], INC, env)
            if rc:
                raise BuildError('cannot compile harness %s\n%s' % (a[1], err[:4000]))
            return []

        tasks.sort(key=lambda t: 0 if t[0] == 'exe' else 1)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(t, ex.submit(run, t)) for t in tasks]
            for t, f in futs:
                r = f.result()
                if t[0] == 'lib':
                    libs[t[1]]['objs'] += r
        for v, l in libs.items():
            if l['objs'] is not None:
                tmp = l['lib'] + '.tmp'
                if os.path.exists(tmp):
                    os.remove(tmp)
                subprocess.run(['ar', 'qcs', tmp] + l['objs'], check=True)
                os.rename(tmp, l['lib'])
                for o in l['objs']:
                    os.remove(o)
        def link(e):
            w = e['w']
            v = w['variant']
            cmd = ['clang++'] + [f for f in VARIANTS[v] if f != '-fsanitize=fuzzer-no-link'] + LINK + e['objs']
            if not w.get('nolib'):
                cmd += [libs[v]['lib']]
            cmd += w.get('link_flags', []) + w.get('libs', []) + ['-o', e['exe']]
            p = subprocess.run(cmd, capture_output=True, text=True, env=env)
            if p.returncode:
                raise BuildError('cannot link %s\n%s' % (w['name'], p.stderr[:4000]))
            return w['name'], e['exe']
        with cf.ThreadPoolExecutor(4) as ex:
            for nme, exe in ex.map(link, exes.values()):
                res[nme] = exe
    if verbose:
        print('build: %d executables, %.1f s' % (len(res), time.time() - t0), file=sys.stderr)
    return res


if __name__ == '__main__':
    src = VERIF + '/harness/empty.cpp'
    t = time.time()
    for v in sys.argv[1:]:
        build_many([dict(name='empty', variant=v, sources=[src])])
    print(time.time() - t)
