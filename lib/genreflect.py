"""Writes harness/reflect_gen.h from the public headers. Run by hand when the public structures change; the result is
committed so that a check never derives its expectations from the tree it is judging."""
import glob
import re
import sys

H = '/repo/Sourcecode/include/mx/api/'
SKIP = {'DocumentManager', 'MeasureLocation', 'LyricData', 'Version'}
enums, structs = {}, {}
for f in sorted(glob.glob(H + '*.h')):
    t = open(f).read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    for m in re.finditer(r'enum\s+class\s+(\w+)\s*(?::\s*\w+\s*)?\{(.*?)\}', t, re.S):
        vals = [re.sub(r'=.*', '', x, flags=re.S).strip() for x in m.group(2).split(',')]
        enums[m.group(1)] = [v for v in vals if v]
    for m in re.finditer(r'\b(?:class|struct)\s+(\w+)\s*\{', t):
        if re.search(r'enum\s+$', t[:m.start()]):
            continue
        name = m.group(1)
        if name in SKIP or name in enums:
            continue
        i, depth, body = m.end(), 1, ''
        while depth:
            c = t[i]
            if c == '{':
                depth += 1
            elif c == '}':
                depth -= 1
                if depth == 1:
                    body += ';'
            elif depth == 1:
                body += c
            i += 1
        body = re.sub(r'\b(public|private)\s*:', '', body)
        mem = []
        for s in body.split(';'):
            s = ' '.join(s.split())
            if not s or '(' in s or s.startswith((':', ',', 'static', 'using', 'inline', 'constexpr', 'explicit', 'const ')):
                continue
            mm = re.fullmatch(r'(\w.*?)\s+(\w+)', s)
            if mm:
                mem.append((mm.group(1), mm.group(2)))
        structs[name] = mem
order = []


def deps(n):
    return [s for ty, _ in structs[n] for s in re.findall(r'\w+', ty) if s in structs]


def visit(n):
    if n in order:
        return
    for d in deps(n):
        if d != n:
            visit(d)
    order.append(n)


for n in structs:
    visit(n)
out = ['// generated by lib/genreflect.py from the public headers; committed', '#pragma once', '#include "mx/api/ScoreData.h"',
       '#include "mx/api/MiscData.h"', 'namespace rf {', 'using namespace mx::api;',
       'template<class E> struct EnumInfo;']
for e, vals in enums.items():
    if e == 'SoundID':
        pass
    out.append('template<> struct EnumInfo<%s> { static const std::vector<std::pair<%s,const char*>>& all() { '
               'static const std::vector<std::pair<%s,const char*>> v{ %s }; return v; } };'
               % (e, e, e, ', '.join('{%s::%s,"%s"}' % (e, v, v) for v in vals)))
out.append('template<class T> struct IsStruct { static constexpr bool value = false; };')
for n in order:
    out.append('template<> struct IsStruct<%s> { static constexpr bool value = true; static const char* name() { return "%s"; } };' % (n, n))
    out.append('template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,%s>> fields( X& x, F&& f ) { %s }'
               % (n, ' '.join('f( "%s", x.%s );' % (m, m) for _, m in structs[n])))
out.append('}')
open('/verif/harness/reflect_gen.h', 'w').write('\n'.join(out) + '\n')
for n in order:
    print(n, structs[n])
