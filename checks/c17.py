import build
import runner
TARGETS = [dict(name='dom', variant='asan', sources=[build.VERIF + '/harness/dom.cpp'], flags=['-I/usr/include/libxml2'], libs=['-lxml2'])]


def main():
    exe = build.build_many(TARGETS)['dom']
    c = runner.Check('C17', 'exploration', 'random operations on documents, elements, attributes and iterators of the XML layer, mirrored in a plain ordered tree, under '
                     'AddressSanitizer; after every operation the whole tree is compared forwards and backwards, and what is saved is read by libxml2 and by '
                     'the layer itself; distinct = distinct loaded texts')
    c.run('operations', exe, 60000 if c.thorough else 5000, [])
    return c.finish()
