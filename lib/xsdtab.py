"""Flattens Documents/musicxml.xsd into a table that the C++ generator walks (harness/xsdgen.h). xsdtab.py XSD OUT"""
import sys
import xml.etree.ElementTree as ET
X = '{http://www.w3.org/2001/XMLSchema}'


class Tab:
    def __init__(self, path):
        self.root = ET.parse(path).getroot()
        self.named = {}
        for e in self.root:
            if e.get('name'):
                self.named[(e.tag[len(X):], e.get('name'))] = e
        self.out = []
        self.simple = {}
        self.types = {}
        self.nsimple = self.ntype = self.nnode = 0
        self.todo = []

    # simple types: S id name kind base lo hi ; then V lines for the enumeration
    def simple_ref(self, name):
        if name in self.simple:
            return self.simple[name]
        i = self.simple[name] = self.nsimple
        self.nsimple += 1
        e = self.named.get(('simpleType', name))
        if e is None:
            self.out.append('S %d %s builtin - - -' % (i, name))
            return i
        self.simple_body(i, name, e)
        return i

    def simple_body(self, i, name, e):
        r = e.find(X + 'restriction')
        if r is None:
            u = e.find(X + 'union')
            members = [self.simple_ref(m) for m in (u.get('memberTypes') or '').split()]
            for n, k in enumerate(u.findall(X + 'simpleType')):
                members.append(self.simple_anon(name + '.' + str(n), k))
            self.out.append('S %d %s union %s - -' % (i, name, ','.join(map(str, members))))
            return
        base = self.simple_ref(r.get('base'))
        lo = hi = '-'
        for f in r:
            t = f.tag[len(X):]
            if t == 'minInclusive':
                lo = f.get('value')
            if t == 'minExclusive':
                lo = '>' + f.get('value')
            if t == 'maxInclusive':
                hi = f.get('value')
        en = [f.get('value') for f in r.findall(X + 'enumeration')]
        self.out.append('S %d %s %s %d %s %s' % (i, name, 'enum' if en else 'restriction', base, lo, hi))
        for v in en:
            self.out.append('V %d %s' % (i, v))

    def simple_anon(self, name, e):
        i = self.nsimple
        self.nsimple += 1
        self.simple_body(i, name, e)
        return i

    # complex types: T id simpleId|-1 node|-1 name ; then A typeId name required simpleId fixed
    def type_ref(self, name):
        if ('simpleType', name) in self.named or name.startswith('xs:'):
            key = 'simple:' + name
            if key not in self.types:
                self.types[key] = self.ntype
                self.ntype += 1
                self.out.append('T %d %d -1 %s' % (self.types[key], self.simple_ref(name), name))
            return self.types[key]
        return self.type_elem(name, self.named[('complexType', name)])

    def type_elem(self, name, e):
        if name in self.types:
            return self.types[name]
        i = self.types[name] = self.ntype
        self.ntype += 1
        attrs = {}
        simple, node = self.content(e, attrs)
        self.out.append('T %d %d %d %s' % (i, simple, node, name))
        for n, (req, s, fixed) in attrs.items():
            self.out.append('A %d %s %d %d %s' % (i, n, req, s, fixed or '-'))
        return i

    def content(self, e, attrs):
        simple = node = -1
        for c in e:
            t = c.tag[len(X):]
            if t in ('simpleContent', 'complexContent'):
                ext = c.find(X + 'extension')
                base = ext.get('base')
                b = self.named.get(('complexType', base))
                if b is not None:
                    simple, node = self.content(b, attrs)
                else:
                    simple = self.simple_ref(base)
                s2, n2 = self.content(ext, attrs)
                if n2 >= 0:
                    assert node < 0
                    node = n2
            elif t in ('sequence', 'choice', 'group'):
                node = self.node(c)
            elif t in ('attribute', 'attributeGroup'):
                self.attribute(c, attrs)
        return simple, node

    def attribute(self, c, attrs):
        if c.tag == X + 'attributeGroup':
            for k in self.named[('attributeGroup', c.get('ref'))]:
                if k.tag in (X + 'attribute', X + 'attributeGroup'):
                    self.attribute(k, attrs)
            return
        req = int(c.get('use') == 'required')
        if c.get('ref'):
            attrs[c.get('ref')] = (req, self.simple_ref('@' + c.get('ref')), c.get('fixed'))
        else:
            attrs[c.get('name')] = (req, self.simple_ref(c.get('type')), c.get('fixed'))

    # particles: N id kind min max (type name | children)
    def node(self, c):
        t = c.tag[len(X):]
        lo, hi = int(c.get('minOccurs', 1)), c.get('maxOccurs', '1')
        hi = -1 if hi == 'unbounded' else int(hi)
        if t == 'group':
            g = self.named[('group', c.get('ref'))]
            body = [k for k in g if k.tag in (X + 'sequence', X + 'choice')][0]
            child = self.node(body)
            if (lo, hi) == (1, 1):
                return child
            kind, rest = 'seq', [child]
        elif t == 'element':
            name = c.get('name')
            inner = c.find(X + 'complexType')
            if c.get('ref'):
                raise Exception('ref')
            ty = self.type_elem('%' + name + str(id(c)), inner) if inner is not None else self.type_ref(c.get('type'))
            i = self.nnode
            self.nnode += 1
            self.out.append('N %d elem %d %d %d %s' % (i, lo, hi, ty, name))
            return i
        else:
            kind = 'seq' if t == 'sequence' else 'cho'
            rest = [self.node(k) for k in c if k.tag in (X + 'sequence', X + 'choice', X + 'group', X + 'element')]
        i = self.nnode
        self.nnode += 1
        self.out.append('N %d %s %d %d %s' % (i, kind, lo, hi, ' '.join(map(str, rest))))
        return i

    def run(self):
        for name in ('score-partwise', 'score-timewise'):
            e = self.named[('element', name)]
            i = self.type_elem('%' + name, e.find(X + 'complexType'))
            self.out.append('R %s %d' % (name, i))
        return '\n'.join(self.out) + '\n'


if __name__ == '__main__':
    t = Tab(sys.argv[1])
    import re
    s = t.run()
    ids = {}
    s = re.sub(r'%([a-z-]+)(\d+)', lambda m: '%' + m.group(1) + str(ids.setdefault(m.group(2), len(ids))), s)
    open(sys.argv[2], 'w').write(s)
