import build
import runner
TARGETS = [dict(name='values', variant='asan', sources=[build.VERIF + '/harness/values.cpp'])]


def main():
    exe = build.build_many(TARGETS)['values']
    c = runner.Check('C15', 'exploration', 'random constructions, assignments, settings and parsings of every value type of the document model, each compared with an '
                     'independent model of its documented range and texts, and printed and parsed again, under AddressSanitizer and '
                     'UndefinedBehaviorSanitizer; distinct = distinct printed values and texts')
    c.run('values', exe, 120000 if c.thorough else 6000, [])
    return c.finish()
