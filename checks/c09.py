import build
import c02
import c08
import runner
TARGETS = c08.TARGETS


def main():
    exe = build.build_many(TARGETS)['timeline']
    c = runner.Check('C09', 'exploration', 'generated documents (changing and differing divisions, chords, backups, forwards, offsets, staves, '
                     'voices, both forms) and the files of the repository are read, and an independent interpreter over the libxml2 '
                     'tree computes the same timeline; distinct = distinct (note, position, length, staff)')
    c.run('generated', exe, 400000 if c.thorough else 20000, ['--mode', 'read'])
    p, n = c02.corpus()
    c.run('files', exe, n, ['--mode', 'read', '--files', p])
    return c.finish()
