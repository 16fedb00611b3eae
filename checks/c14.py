import build
import runner
TARGETS = [dict(name='c14', variant='plain', sources=[build.VERIF + '/harness/c14.cpp'])]


def main():
    exe = build.build_many(TARGETS)['c14']
    c = runner.Check('C14', 'exploration', 'random scores with clefs, directions and notes of up to 90 (thorough 300) events per '
                     'sequence and eight tick patterns (ties, reversed, extremes); the result is compared with an insertion-sort '
                     'reference on fully flattened values; distinct = distinct tick sequences of two or more events')
    c.run('c14', exe, 3000 if c.thorough else 400)
    return c.finish()
