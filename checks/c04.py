import build
import c02
import c03
import runner
TARGETS = c03.TARGETS


def hashes(results):
    return {l.split()[1]: l.split()[2] for o in results for l in o['out'].splitlines() if l.startswith('P ')}


def main():
    e = build.build_many(TARGETS)
    c = runner.Check('C04', 'exploration', 'documents generated from the schema, damaged documents that are still tolerated, the files of the '
                     'repository and random scores are written twice, to a stream and to a file, created twice, loaded again and '
                     'written again, and written by separate processes with differently filled memory; distinct = distinct outputs')
    c02.docs(c, e['docs'], 'fixpoint', 200000 if c.thorough else 20000)
    args = ['--mode', 'fixpoint', '--schema', build.VERIF + '/schema']
    c.run('scores', e['apidocs'], 12000 if c.thorough else 900, args)
    p, n = c02.corpus()
    c.run('file scores', e['apidocs'], n, args + ['--files', p])
    # the same scores from processes whose fresh memory holds different bytes and which saw other scores before
    k = 6000 if c.thorough else 1000
    a = c.run('score hashes', e['apidocs'], k, args + ['--print', '1'], env={'MALLOC_PERTURB_': '85'})
    b = c.run('score hashes again', e['apidocs'], k, args + ['--print', '1'], env={'MALLOC_PERTURB_': '190'}, shards=3)
    a, b = hashes(a), hashes(b)
    if len(a) != k or len(b) != k:
        if not c.viol:
            raise runner.HarnessError('score hashes: %d and %d of %d cases' % (len(a), len(b), k))
    for case in a:
        if case in b and a[case] != b[case]:
            c.add_violation('process', 'score %s is written with different bytes by two processes' % case,
                            {'exe': e['apidocs'], 'case': case, 'args': args})
    return c.finish(dict(hashes_compared=len(a)))
