import build
import c02
import runner
TARGETS = c02.TARGETS + [dict(name='apidocs', variant='plain', sources=[build.VERIF + '/harness/apidocs.cpp'], **c02.XML),
                          dict(name='apidocs_asan', variant='asan', sources=[build.VERIF + '/harness/apidocs.cpp'], **c02.XML)]


def main():
    e = build.build_many(TARGETS)
    c = runner.Check('C03', 'exploration', 'random scores, the scores read from the files of the repository, and documents generated from the '
                     'schema are written (partwise and converted to timewise) and validated by libxml2 against the MusicXML 3.0 '
                     'schema, part of them under AddressSanitizer, UndefinedBehaviorSanitizer and the checked '
                     'containers of libstdc++; distinct = distinct outputs')
    c02.docs(c, e['docs'], 'schema', 200000 if c.thorough else 20000)
    args = ['--mode', 'schema', '--schema', build.VERIF + '/schema']
    c.run('scores', e['apidocs'], 60000 if c.thorough else 4000, args)
    p, n = c02.corpus()
    c.run('file scores', e['apidocs'], n, args + ['--files', p])
    c.run('scores under sanitizers', e['apidocs_asan'], 20000 if c.thorough else 1500, args)
    return c.finish()
