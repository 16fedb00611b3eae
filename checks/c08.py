import build
import c02
import runner
TARGETS = [dict(name='timeline', variant='plain', sources=[build.VERIF + '/harness/timeline.cpp'], **c02.XML)]


def main():
    exe = build.build_many(TARGETS)['timeline']
    c = runner.Check('C08', 'exploration', 'random scores are written (partwise and timewise) and an independent interpreter of divisions, '
                     'duration, chord, backup, forward and offset over the libxml2 tree computes where everything sounds; every '
                     'note, direction, clef and key is compared with the score data; distinct = distinct (tick, length, staff, voice)')
    c.run('timeline', exe, 60000 if c.thorough else 6000, ['--mode', 'write'])
    return c.finish()
