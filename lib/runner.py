"""Runs harness processes in shards, attributes crashes and hangs, merges what the monitors observed, writes the
evidence file and prints the verdict."""
import array
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = VERIF + '/known_findings.txt'

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:'
                    'detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:malloc_context_size=20',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4',
    'LSAN_OPTIONS': 'exitcode=98',
}


class HarnessError(Exception):
    pass


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def crash_key(err):
    """A signature for a sanitizer report or a signal: kind plus the innermost functions of the library."""
    kind = None
    m = re.search(r'ERROR: (\w+Sanitizer): ([\w-]+)', err)
    if m:
        kind = m.group(2)
    if not kind:
        m = re.search(r'runtime error: ([^\n]+)', err)
        if m:
            kind = 'ub:' + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", 'N', m.group(1))[:80]
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
        if m:
            kind = 'tsan:' + m.group(1).strip()
    if not kind:
        kind = 'terminate' if 'terminate called' in err else 'crash'
    frames = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\n|$)', err):
        if '/Sourcecode/' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1))
            if fn not in frames:
                frames.append(fn)
        if len(frames) == 2:
            break
    return re.sub(r'\s+', '_', '%s@%s' % (kind, '<'.join(frames) if frames else '?'))


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.stats = {}
        self.samples = []
        self.viol = {}   # key -> (message, replay dict)
        self.nviol = 0
        self.errors = []
        self.notes = {}
        base = VERIF + '/build/tmp'
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + '.', dir=base)
        self.distinct = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add_violation(self, key, msg, replay):
        self.nviol += 1
        if key not in self.viol:
            self.viol[key] = (msg, replay)

    def _shard(self, name, exe, lo, hi, step, args, env, timeout, watchdog):
        """Run one shard to the end, restarting after a crashing case."""
        start = lo
        restarts = 0
        outs = []
        hung_before = set()
        while start < hi:
            tag = '%s.%d.%d' % (name, lo, restarts)
            status = '%s/%s.status' % (self.tmp, tag)
            tdir = '%s/%s.d' % (self.tmp, tag)
            os.makedirs(tdir, exist_ok=True)
            cmd = [exe, '--seed', str(self.seed), '--from', str(start), '--to', str(hi), '--step', str(step),
                   '--tier', self.tier, '--status', status, '--tmp', tdir, '--distinct', '%s/%s.dist' % (self.tmp, tag),
                   '--watchdog', str(watchdog)] + args
            e = dict(os.environ)
            e.update(SAN_ENV)
            e.update(env)
            with open('%s/%s.out' % (self.tmp, tag), 'wb') as fo, open('%s/%s.err' % (self.tmp, tag), 'wb') as fe:
                try:
                    rc = subprocess.run(cmd, stdout=fo, stderr=fe, env=e, cwd=tdir, timeout=timeout).returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
            out = open('%s/%s.out' % (self.tmp, tag), 'rb').read().decode('utf-8', 'replace')
            err = open('%s/%s.err' % (self.tmp, tag), 'rb').read().decode('utf-8', 'replace')
            shutil.rmtree(tdir, ignore_errors=True)
            done = out.endswith('DONE\n') or '\nDONE\n' in out
            case, stage = start, ''
            try:
                b = open(status, 'rb').read()
                case = struct.unpack('q', b[:8])[0]
                stage = b[16:].split(b'\0')[0].decode('utf-8', 'replace')
            except (OSError, struct.error):
                pass
            outs.append(dict(rc=rc, out=out, err=err, done=done, case=case, stage=stage, start=start))
            if rc == 0 and done:
                break
            if rc == 'timeout':
                raise HarnessError('%s: shard %d exceeded %d s (case %d, %s)' % (name, lo, timeout, case, stage))
            if rc == 97:  # watchdog: run the case again alone with a larger budget
                if case not in hung_before:
                    hung_before.add(case)
                    one = subprocess.run([exe, '--seed', str(self.seed), '--from', str(case), '--to', str(case + 1), '--tier',
                                          self.tier, '--tmp', self.tmp, '--watchdog', str(watchdog * 4)] + args,
                                         capture_output=True, env=e, cwd=self.tmp)
                    o1 = one.stdout.decode('utf-8', 'replace')
                    if one.returncode == 97:
                        outs[-1]['hang'] = stage
                    else:
                        outs.append(dict(rc=one.returncode, out=o1, err=one.stderr.decode('utf-8', 'replace'),
                                         done='DONE\n' in o1, case=case, stage=stage, start=case))
            if done:
                break    # exit status of a process that finished its cases (leak report, race report)
            restarts += 1
            if restarts > 40:
                break
            start = case + step
        return outs

    def run(self, name, exe, cases, args=(), env=None, shards=None, timeout=800, watchdog=60, crash_is_violation=True,
            crash_key_prefix=''):
        t1 = time.time()
        shards = shards or (os.cpu_count() or 8)
        shards = max(1, min(shards, cases))
        args = list(args)
        with cf.ThreadPoolExecutor(shards) as ex:
            futs = [ex.submit(self._shard, name, exe, i, cases, shards, args, env or {}, timeout, watchdog)
                    for i in range(shards)]
            results = [o for f in futs for o in f.result()]
        for o in results:
            for l in o['out'].splitlines():
                if l.startswith('V '):
                    _, case, rest = l.split(' ', 2)
                    key, _, msg = rest.partition('\t')
                    self.add_violation(key, msg, self._replay(name, exe, case, args, env))
                elif l.startswith('S '):
                    _, k, v = l.split(' ', 2)
                    self.stats[k] = self.stats.get(k, 0) + int(v)
                elif l.startswith('X ') and len(self.samples) < 6:
                    self.samples.append(l[2:])
            if 'hang' in o:
                self.add_violation('hang:' + (o['hang'] or '?'), 'no end within the processor-time budget in case %d (%s)'
                                   % (o['case'], o['hang']), self._replay(name, exe, o['case'], args, env))
            elif o['rc'] not in (0, 97):
                if not crash_is_violation:
                    raise HarnessError('%s: exit %s in case %d (%s)\n%s' % (name, o['rc'], o['case'], o['stage'], o['err'][-2000:]))
                if 'vf: harness error' in o['err']:
                    raise HarnessError(o['err'][-2000:])
                reports = re.split(r'(?m)^=================+$', o['err']) if 'ThreadSanitizer' in o['err'] else [o['err']]
                for r in reports:
                    if 'ThreadSanitizer' in o['err'] and 'WARNING: ThreadSanitizer' not in r:
                        continue
                    k = crash_key_prefix + crash_key(r)
                    if k.startswith(('requested@', 'allocation-size-too-big@', 'out-of-memory@')):
                        # the allocator of the sanitizer refused the size; the library asked, which is not unsafe
                        self.stats['cases_ended_by_allocation_limit'] = self.stats.get('cases_ended_by_allocation_limit', 0) + 1
                        continue
                    rp = self._replay(name, exe, o['case'], args, env)
                    rp['stderr'] = r[:6000]
                    self.add_violation(k, 'exit %s during case %d (%s): %s' % (
                        o['rc'], o['case'], o['stage'], ' '.join(r.split())[:700]), rp)
        self._collect_distinct()
        print('%s: %d cases, %.1f s' % (name, cases, time.time() - t1), file=sys.stderr)
        return results

    def _collect_distinct(self):
        for f in os.listdir(self.tmp):
            if f.endswith('.dist'):
                p = self.tmp + '/' + f
                a = array.array('Q')
                with open(p, 'rb') as fh:
                    a.frombytes(fh.read())
                self.distinct.update(a)
                os.remove(p)

    def _replay(self, name, exe, case, args, env):
        return dict(property=self.prop, harness=name, case=int(case), seed=self.seed, tier=self.tier, args=list(args),
                    env=env or {})

    def finish(self, extra=None):
        known = known_keys(self.prop)
        fresh = {k: v for k, v in self.viol.items() if k not in known}
        cov = dict(evaluations=int(self.stats.get('evaluations', self.stats.get('cases', 0))),
                   distinct_nontrivial=int(self.stats.get('distinct', len(self.distinct))),
                   rule=self.rule, samples=self.samples[:6] or ['none'])
        cov['observed'] = {k: v for k, v in sorted(self.stats.items())}
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]))
        if fresh:
            d = VERIF + '/replays'
            os.makedirs(d, exist_ok=True)
            for n, (k, (msg, rp)) in enumerate(sorted(fresh.items())[:20]):
                path = '%s/%s-%d.json' % (d, self.prop, n)
                with open(path, 'w') as f:
                    json.dump(dict(rp, key=k, message=msg), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  key=%s %s' % (k, msg[:600]))
            return 1
        if cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0:
            print('%s: nothing was observed; inconclusive' % self.prop, file=sys.stderr)
            return 2
        print('%s held on %d evaluations (%d distinct), %.0f s' % (self.prop, cov['evaluations'], cov['distinct_nontrivial'],
                                                                 time.time() - self.t0))
        return 0
