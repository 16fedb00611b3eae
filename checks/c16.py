import build
import runner
TARGETS = [dict(name='elements', variant='asan', sources=[build.VERIF + '/harness/elements.cpp'] + [build.VERIF + '/harness/elements%d.cpp' % k for k in range(8)])]


def main():
    exe = build.build_many(TARGETS)['elements']
    c = runner.Check('C16', 'exploration', 'for each of the element classes in turn, random sequences of set (also null), flag, add, remove, clear, choice, attribute and value '
                     'calls; after each call every getter is compared with a model (identities, flags, sequences, choice), and regularly what is written with what the '
                     'model says is present, under AddressSanitizer and UndefinedBehaviorSanitizer; distinct = distinct texts written')
    c.run('elements', exe, 416 * (12000 if c.thorough else 1200), [])
    return c.finish()
