import build
import runner
WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'free', 'calloc', 'realloc')]
TARGETS = [dict(name='balance', variant='plain', sources=[build.VERIF + '/harness/balance.cpp'], link_flags=WRAP)]


def main():
    exe = build.build_many(TARGETS)['balance']
    c = runner.Check('C20', 'exploration', 'random histories of creating, loading, converting, querying, writing, failing and destroying are run against a ledger of all memory: '
                     'nothing is left when all documents are destroyed, queries of a living document add nothing, and new contents leave nothing; distinct = '
                     'distinct histories')
    c.run('balance', exe, 12000 if c.thorough else 900, ['--schema', build.VERIF + '/schema'])
    return c.finish()
