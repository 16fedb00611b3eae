import build
import c02
import runner
TARGETS = [dict(name='hostile', variant='asan', sources=[build.VERIF + '/harness/hostile.cpp'], **c02.XML)]


def main():
    exe = build.build_many(TARGETS)['hostile']
    c = runner.Check('C01', 'exploration', 'hand-made inputs, schema-generated documents with poisoned values and structure, and files of the '
                     'repository changed as trees or as bytes are loaded, queried, written, converted, written again and rewritten '
                     'under AddressSanitizer and UndefinedBehaviorSanitizer; distinct = distinct inputs')
    p, n = c02.corpus()
    c.run('hostile', exe, 240000 if c.thorough else 16000, ['--schema', build.VERIF + '/schema', '--files', p])
    return c.finish()
