import build
import runner
import c02
TARGETS = [dict(name='text', variant='plain', sources=[build.VERIF + '/harness/text.cpp'], **c02.XML)]


def main():
    exe = build.build_many(TARGETS)['text']
    c = runner.Check('C19', 'exploration', 'random Unicode texts (all planes, markup, quotes, white space, long ones) in every text field of scores and every text '
                     'and text attribute of documents, spelled raw, as references or as CDATA; every text is compared after writing and reading, and looked up in the '
                     'written XML by an independent parser; documents are loaded again in nine encoding forms and must write the same bytes; '
                     'distinct = distinct (field, text) pairs')
    args = ['--schema', build.VERIF + '/schema']
    c.run('scores', exe, 40000 if c.thorough else 5000, args + ['--mode', 'scores'])
    c.run('documents', exe, 60000 if c.thorough else 9000, args + ['--mode', 'docs'])
    return c.finish()
