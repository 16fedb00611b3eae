import build
import c02
import runner
TARGETS = [dict(name='forms', variant='plain', sources=[build.VERIF + '/harness/forms.cpp'], **c02.XML)]


def main():
    exe = build.build_many(TARGETS)['forms']
    c = runner.Check('C10', 'exploration', 'random scores, generated documents (uneven parts, parts in any order, both forms) and the files of '
                     'the repository are converted again and again; every written form is compared with a transposition of the '
                     'libxml2 tree, and the score data of both forms with each other; distinct = distinct documents')
    a = ['--schema', build.VERIF + '/schema', '--mode']
    c.run('scores', exe, 12000 if c.thorough else 1200, a + ['score'])
    c.run('documents', exe, 60000 if c.thorough else 5000, a + ['doc'])
    p, n = c02.corpus()
    c.run('files', exe, n, a + ['doc', '--files', p])
    return c.finish()
