import build
import runner
WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'free', 'calloc', 'realloc')]
TARGETS = [dict(name='faults', variant='asan', sources=[build.VERIF + '/harness/faults.cpp'], link_flags=WRAP)]


def main():
    exe = build.build_many(TARGETS)['faults']
    c = runner.Check('C18', 'exploration', 'each manager operation is run with its N-th (or N-th and every later) memory request refused, with streams that break off, throw '
                     'or lie about their length, with files that cannot be read or written, and with rejected inputs, under AddressSanitizer and a ledger of '
                     'all memory; distinct = distinct (operation, refused request) pairs')
    c.run('faults', exe, 2500 if c.thorough else 160, ['--schema', build.VERIF + '/schema'])
    return c.finish()
