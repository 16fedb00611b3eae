import build
import runner
SRC = [build.VERIF + '/harness/conc.cpp']
WRAP = ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock']
TARGETS = [dict(name='conc', variant='tsan', sources=SRC, link_flags=WRAP), dict(name='conc_plain', variant='plain', sources=SRC, link_flags=WRAP)]


def main():
    e = build.build_many(TARGETS)
    c = runner.Check('C11', 'exploration', 'fresh processes of two to eight threads that create, read, write, look up and destroy documents of the shared manager, with '
                     'delays at every lock; ThreadSanitizer watches, and the recorded history of every id is checked to be explainable by one order of its '
                     'calls; distinct = distinct orders in which the calls of all threads returned')
    args = ['--schema', build.VERIF + '/schema']
    # few processes at a time, so that the threads of each run in parallel
    c.run('histories under ThreadSanitizer', e['conc'], 2500 if c.thorough else 200, args, shards=4)
    c.run('histories', e['conc_plain'], 12000 if c.thorough else 1000, args, shards=4)
    return c.finish()
