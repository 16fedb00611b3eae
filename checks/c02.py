import build
import runner
import glob
XML = dict(flags=['-I/usr/include/libxml2'], libs=['-lxml2'])
TARGETS = [dict(name='docs', variant='plain', sources=[build.VERIF + '/harness/docs.cpp'], **XML)]


def corpus():
    files = [f for f in sorted(glob.glob('/repo/Resources/**/*.xml', recursive=True)) if '/expected/' not in f and '/testOutput/' not in f]
    p = build.VERIF + '/build/corpus.txt'
    open(p, 'w').write('\n'.join(files) + '\n')
    return p, len(files)


def docs(c, exe, mode, cases):
    args = ['--mode', mode, '--schema', build.VERIF + '/schema']
    c.run('documents', exe, cases, args)
    p, n = corpus()
    c.run('files', exe, n, args + ['--files', p])


def main():
    exe = build.build_many(TARGETS)['docs']
    c = runner.Check('C02', 'exploration', 'documents generated from the MusicXML 3.0 schema (every element type with every attribute and every '
                     'enumeration value once, then random documents) and the documents of the repository are loaded and written; an '
                     'independent parser compares elements, attributes, text and processing instructions by schema type; distinct = '
                     'distinct (element, value) pairs')
    docs(c, exe, 'lossless', 300000 if c.thorough else 40000)
    return c.finish()
