import os
import subprocess
import build
import runner
TARGETS = [dict(name='env', variant='plain', sources=[build.VERIF + '/harness/env.cpp'])]
LOCALES = [('de_DE', 'ISO-8859-1'), ('tr_TR', 'ISO-8859-9'), ('hi_IN', 'UTF-8'), ('fr_CH', 'UTF-8'), ('fa_IR', 'UTF-8'), ('pt_BR', 'UTF-8')]


def locales():
    """Locales of the system with other punctuation, made from their sources where those are there."""
    d = build.VERIF + '/build/locales'
    os.makedirs(d, exist_ok=True)
    for name, charmap in LOCALES:
        out = '%s/%s.%s' % (d, name, charmap)
        if not os.path.exists(out + '/LC_NUMERIC'):
            try:
                subprocess.run(['localedef', '--no-archive', '-c', '-i', name, '-f', charmap, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except (OSError, subprocess.TimeoutExpired):
                pass
    return d


def main():
    exe = build.build_many(TARGETS)['env']
    c = runner.Check('C21', 'exploration', 'every case loads, creates, writes and reads several documents in two fresh processes, one as it starts and one with another global '
                     'C++ locale, another C locale, streams full of formatting state and another directory; what comes out must be the same and the environment '
                     'must be as it was after every call; distinct = distinct (environment, result) pairs')
    c.run('environments', exe, 9000 if c.thorough else 1500, ['--schema', build.VERIF + '/schema', '--locales', locales()])
    return c.finish()
