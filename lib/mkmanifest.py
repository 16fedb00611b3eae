"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os
V = '/verif'
LEVEL = 'exploration'
CHECKS = {
 'C01': ('AddressSanitizer and UndefinedBehaviorSanitizer over load, query, write, convert and rewrite of hostile inputs: hand-made, generated and poisoned, repository files mutated as trees and as bytes, other encodings',
         'Sampled inputs up to some 100 kB; an allocation the sanitizer refuses for its size is not counted as unsafe.'),
 'C02': ('read-write monitor: schema-generated and collected documents through the loader and the writer, compared with the input by an independent parser (libxml2) by schema type',
         'Every element type with every attribute and enumeration value once, then random documents; processing instructions at random places; known losses are listed one by one in known_findings.txt.'),
 'C03': ('schema validation of every output by libxml2: random scores, read-back scores of the collection, generated documents, each also after conversion',
         'The xlink prefix is declared by the DTD and added before validation; sampled, not exhaustive.'),
 'C04': ('byte comparison across repeated writes, streams and files, repeated creation, reload generations, damaged but tolerated documents and separate processes with differently filled memory',
         'Sampled documents and scores; one machine and one C library.'),
 'C05': ('round-trip monitor: random note data through createFromScore, writeToStream, createFromStream and getData, compared leaf by leaf',
         'Random scores restricted to the note features the API supports (documented in DESIGN.md); a symmetric defect of writer and reader is left to C08 and C09.'),
 'C06': ('round-trip monitor: random header, part, group, defaults and layout data through write and read, compared leaf by leaf',
         'Random scores restricted to the header features the API supports (documented in DESIGN.md); sampled, not exhaustive.'),
 'C07': ('round-trip monitor: random attributes, barlines, directions and chord symbols through write and read, compared leaf by leaf',
         'Random scores restricted to the measure features the API supports (documented in DESIGN.md); sampled, not exhaustive.'),
 'C08': ('independent MusicXML timeline interpreter over the libxml2 tree of every written score compared with the score data',
         'Sampled scores; voices are in time order but may overlap, have gaps and be numbered with gaps.'),
 'C09': ('independent MusicXML timeline interpreter over generated and collected documents compared with the score data the library reads',
         'Whole-number divisions and durations; parts listed in the part list; voices by number are compared where no voice resumes after a backup.'),
 'C10': ('conversion monitor: every converted document compared with an independent transposition of the libxml2 tree, again and again; score data of both forms compared',
         'Documents whose measure attributes agree in all parts, whose parts are those of the part list and which carry no processing instructions; a part that pauses comes back with empty measures.'),
 'C11': ('ThreadSanitizer and an offline history checker: fresh processes of 2 to 8 threads on the shared manager with delays injected at every lock; each id must be explainable by one order of its calls',
         'Sampled schedules; library state is cold in every process, so first-use races are met; readers walk shared documents through const getters only.'),
 'C12': ('history monitor with a shadow model: random histories over the manager; untouched twins tell what each document must give after every call',
         'Sampled histories of up to 22 calls over six documents; a conversion through the document pointer counts as a change of that document; data is stable from the second re-creation on (from the first for supported scores).'),
 'C13': ('mutation oracle: every single-leaf change of random values must be noticed by ==/!= on the real structures',
         'Every leaf of every public structure is changed in random values; assumes the committed field list (harness/reflect_gen.h) names all fields.'),
 'C14': ('runtime differential monitor of ScoreData::sort against a stable insertion-sort reference',
         'Random scores with ties, reversed and extreme ticks, sequences up to 90/300 events; sampled, not exhaustive.'),
 'C18': ('fault injection: each memory request of each manager operation refused in turn, streams that break off or throw, unusable files and rejected inputs, under AddressSanitizer and a ledger of all memory; twins tell what every document must still give',
         'Requests are refused one at a time or from one on; at most some dozens of points per operation are sampled in the quick tier; destroyDocument is exempt from refusals.'),
 'C19': ('text monitor: wild Unicode texts in every text field and attribute, spelled in every lexical form, compared after reading, and looked up in the written XML by libxml2; nine encoding forms compared by bytes',
         'Fields of token type keep the text but not the amount of white space.'),
 'C20': ('memory ledger around malloc: random manager histories end with exactly the blocks and bytes they began with; queries, writes and conversions of a living document add none',
         'Sampled histories; what the library makes on first use is warmed up first.'),
 'C15': ('models of every value type (ranges, texts, calendars, digit arithmetic in 128-bit floats) compared with random constructions, settings and parsings under AddressSanitizer and UndefinedBehaviorSanitizer',
         'random values and texts with edges, not every one; decimal exponents are left unspecified'),
 'C16': ('generated drivers call the public accessors of all 416 element classes in random sequences; a model of identities, flags, sequences and choices is compared after each call and with what is written, under AddressSanitizer and UndefinedBehaviorSanitizer',
         'random call sequences; the order between different children is left to C03'),
 'C17': ('random sequences of DOM operations on real documents and on a plain ordered tree, compared after every step and, saved, through libxml2, under AddressSanitizer and UndefinedBehaviorSanitizer',
         'random sequences; no mixed content, unique attribute names'),
 'C21': ('paired fresh processes: the same calls in a plain environment and under hostile C and C++ locales, stream formatting state and another directory; outputs, score data and the environment itself compared',
         'Locales made of numpunct and ctype facets and system locales built by localedef; facets that replace the number formatting itself are not used.'),
 'C22': ('random score data written and documents generated independently of the library read; tables of musical facts made from the score data and from the XML tree by separate code are compared',
         'Facts the score data cannot hold, and facts a document leaves for the reader to guess, are outside; see DESIGN.md.'),
}
NA = {}
try:
    exec(open(V + '/lib/manifest_extra.py').read())
except FileNotFoundError:
    pass
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 lib/setup.py',
         checks=[dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p,
                      technique=CHECKS[p][0], level=CHECKS[p][2] if len(CHECKS[p]) > 2 else LEVEL, level_note=CHECKS[p][1])
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in CHECKS],
         notes='Fixes of genuine defects are separate fix: commits in /repo; no hooks are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
