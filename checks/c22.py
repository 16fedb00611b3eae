import build
import c02
import runner
TARGETS = [dict(name='meaning', variant='plain', sources=[build.VERIF + '/harness/meaning.cpp'], **c02.XML)]


def main():
    exe = build.build_many(TARGETS)['meaning']
    c = runner.Check('C22', 'exploration', 'random scores are written, and documents generated from the MusicXML vocabulary by a second generator are '
                     'read; tables of facts (what the score data say, what the elements say) made independently from both sides are '
                     'compared for every note, direction, measure, part and header; distinct = distinct facts')
    c.run('written', exe, 60000 if c.thorough else 5000, ['--mode', 'write'])
    c.run('read', exe, 60000 if c.thorough else 4000, ['--mode', 'read', '--schema', build.VERIF + '/schema'])
    return c.finish()
