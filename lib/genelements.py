"""writes harness/elements.inc: one registration per element class, from the public accessors the headers declare and the occurrences documented beside them"""
import os, re, sys

REPO = os.environ.get('MX_REPO', '/repo')
DIR = REPO + '/Sourcecode/private/mx/core/elements'
PARTS = 8


def low(s):
    return s[0].lower() + s[1:]


def main(out):
    classes, attrs, skipped = [], {}, []
    for f in sorted(os.listdir(DIR)):
        if not f.endswith('.h'):
            continue
        t = open(DIR + '/' + f, errors='replace').read()
        for m in re.finditer(r'(?:struct|class) (\w+) : public AttributesInterface\s*\{(.*?)\n        \};', t, re.S):
            body = m.group(2)
            fields = re.findall(r'^\s+(?!virtual|bool |return)(?:const )?([\w:]+) (\w+)(?: = [^;]*|\{[^;]*\})?;', body, re.M)
            flags = re.findall(r'^\s+bool (\w+);', body, re.M)
            consts = re.findall(r'^\s+const bool (\w+)', body, re.M)
            attrs[m.group(1)] = (f, [x for x in fields if x[0] not in ('bool', 'private', 'public')], flags, consts)
        for m in re.finditer(r'class (\w+) : public ElementInterface\s*\{(.*?)\n        \};', t, re.S):
            c, body = m.groups()
            if not re.search(r'inline %sPtr make%s\(' % (c, c), t):
                skipped.append(c); continue
            pub = body
            occ = {}
            for o in re.finditer(r'/\* _+ ([\w:]+)\s+minOccurs = (\d+), max\w*Occurs = (\w+) _+ \*/(.*?)(?=/\* _+|\Z)', pub, re.S):
                for g in re.findall(r'\b(?:set|add)(\w+)\(', o.group(4)):
                    occ[g] = (int(o.group(2)), -1 if o.group(3) == 'unbounded' else int(o.group(3)))
            ones = [g for g in re.findall(r'void set(\w+)\( ?const (?:\w+Ptr)& \w+ ?\)', pub) if re.search(r'\bget%s\(\s*\) const' % g, pub)]
            only = [g for ty, g in re.findall(r'(\w+)Ptr get(\w+)\(\s*\) const', pub) if g not in ones and ty == g and 'getHas' + g not in pub]
            types = {g: re.search(r'void set%s\( ?const (\w+)Ptr&' % g, pub).group(1) for g in ones}
            colls = [(g, ty) for g, ty in re.findall(r'void add(\w+)\( ?const (\w+)Ptr& \w+ ?\)', pub)]
            flags = [g for g in re.findall(r'void setHas(\w+)\(', pub)]
            ch = re.search(r'enum class Choice\s*\{(.*?)\}', pub, re.S)
            choices = re.findall(r'(\w+)\s*=\s*(\d+)', ch.group(1)) if ch and re.search(r'void setChoice\(', pub) else []
            vals = re.findall(r'void set(Value|Text)\( ?const ([\w:]+)&? \w+ ?\)', pub)
            classes.append(dict(name=c, file=f, ones=[(g, types[g]) for g in ones], flags=flags, colls=colls, only=only, occ=occ, choices=choices, vals=vals, body=pub))
    n = len(classes)
    total = dict(classes=n, ones=0, flags=0, colls=0, choices=0)
    for k in range(PARTS):
        with open('%s/elements%d.inc' % (out, k), 'w') as o:
            mine = classes[k::PARTS]
            o.write('// written by lib/genelements.py\n')
            for c in sorted({c['file'] for c in mine} | {attrs[a][0] for c in mine for g, a in c['ones'] if a in attrs} | {t + '.h' for c in mine for g, t in c['ones'] + c['colls'] + [(x, x) for x in c['only']] if os.path.exists(DIR + '/' + t + '.h')}):
                o.write('#include "mx/core/elements/%s"\n' % c)
            o.write('using namespace mx::core;\nvoid registerElements%d( std::vector<el::Klass>& all )\n{\n' % k)
            for c in mine:
                T = c['name']
                o.write('KLASS( %s )\n' % T)
                for g, ty in c['ones']:
                    if g == 'Attributes':
                        o.write('  ATTRS( %s, %s )\n' % (T, ty))
                        if ty in attrs:
                            _, fields, flags, consts = attrs[ty]
                            for ft, fn in fields:
                                h = 'has' + fn.rstrip('_')
                                h2 = [x for x in flags if x.lower() == h.lower()]
                                o.write('  FIELD%s( %s, %s, %s%s )\n' % ('' if h2 else '0', T, ty, fn, ', ' + h2[0] if h2 else ''))
                        continue
                    total['ones'] += 1
                    if g in c['flags']:
                        total['flags'] += 1
                        o.write('  OPT( %s, %s, %s )\n' % (T, g, ty))
                    else:
                        o.write('  ONE( %s, %s, %s )\n' % (T, g, ty))
                for g in c['only']:
                    o.write('  READ( %s, %s )\n' % (T, g))
                for g, ty in c['colls']:
                    lo, hi = (1, -1) if (T, g) == ('PartwisePart', 'PartwiseMeasure') else c['occ'].get(g, (0, -1)); total['colls'] += 1  # the comment there is wrong: the schema and the class require one
                    byi = re.search(r'\bget%s\(\s*const \w+Iter' % g, c['body'])
                    o.write('  COLL'+('' if byi else 'N')+'( %s, %s, %s, %d, %d )\n' % (T, g, ty, lo, hi))
                if c['choices']:
                    total['choices'] += 1
                    o.write('  CHOICE( %s, %s )\n' % (T, ', '.join('{ "%s", %s }' % x for x in c['choices'])))
                for v, ty in c['vals']:
                    o.write('  VALUE( %s, %s )\n' % (T, v))
                o.write('END\n')
            o.write('}\n')
    print(total, 'skipped', skipped)


main(sys.argv[1] if len(sys.argv) > 1 else os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness')
