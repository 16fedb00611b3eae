import build
import c02
import runner
TARGETS = [dict(name='isolate', variant='plain', sources=[build.VERIF + '/harness/isolate.cpp'])]


def main():
    exe = build.build_many(TARGETS)['isolate']
    c = runner.Check('C12', 'exploration', 'random histories of creating, querying, writing, converting, re-creating and destroying up to six documents (scores, generated '
                     'and damaged documents, files) with failing loads and writes in between; after every call a document that stays must give the bytes and the data '
                     'its untouched twin gave; distinct = distinct sequences of operations')
    p, n = c02.corpus()
    c.run('histories', exe, 20000 if c.thorough else 2400, ['--schema', build.VERIF + '/schema', '--files', p])
    return c.finish()
