import build
import runner
TARGETS = [dict(name='rt', variant='plain', sources=[build.VERIF + '/harness/rt.cpp'])]


def main():
    exe = build.build_many(TARGETS)['rt']
    c = runner.Check('C05', 'exploration', 'random scores using the supported features of the area "notes" are created, written, loaded '
                     'and read; every leaf value of the area is compared before and after; distinct = distinct (field, value) pairs')
    c.run('rt', exe, 25000 if c.thorough else 2500, args=['--area', 'notes'])
    return c.finish()
