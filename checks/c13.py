import build
import runner
TARGETS = [dict(name='c13', variant='plain', sources=[build.VERIF + '/harness/c13.cpp'])]


def main():
    exe = build.build_many(TARGETS)['c13']
    c = runner.Check('C13', 'exploration', 'random values of every public structure; each possible single-leaf change '
                     '(flag, number, text, enumerator, container length, map key, optional) is applied to a copy and compared '
                     'both ways; distinct = distinct (structure, changed leaf path without indices)')
    c.run('c13', exe, 2400 if c.thorough else 240)
    return c.finish()
