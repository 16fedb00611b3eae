#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))
S = 'Sourcecode/private/mx/'
A = 'Sourcecode/include/mx/api/'

prop('C01', 'Loading any bytes is memory-safe: it yields a document or an exception',
 'For every byte sequence given to the stream or file loader, the library either returns a document id or throws a standard exception; it never reads or writes out of bounds, uses freed memory, executes undefined behaviour, recurses or loops without end, or leaks. Whatever was loaded can afterwards be queried as score data, converted, written and destroyed under the same guarantee.',
 ['inputs'], 'every byte sequence: well-formed or not, schema-valid or not, any encoding, any element nesting, any numeric text',
 'Tests load a few dozen well-formed files on an uninstrumented build; an overrun, a signed overflow or an out-of-range conversion on an unusual value does not fail them.',
 [S+'ezxml/src/private/private/PugiDoc.cpp', S+'core/FromXElement.cpp', S+'core/Integers.cpp', S+'core/Decimals.cpp', S+'impl/MeasureReader.cpp', S+'impl/ScoreReader.cpp', S+'impl/TimeReader.cpp', S+'impl/TupletReader.cpp', S+'api/DocumentManager.cpp'],
 [('parse status turned into an exception', S+'ezxml/src/private/private/PugiDoc.cpp loadStream'),
  ('value types clamp what they parse', S+'core/Integers.cpp, Decimals.cpp'),
  ('assertions on staff and voice indices', S+'impl/MeasureReader.cpp MX_ASSERT')],
 ['DocumentManager::createFromStream', 'DocumentManager::getData', 'DocumentManager::writeToStream'])

prop('C02', 'Reading then writing a MusicXML document keeps its content',
 'For every MusicXML 3.0 document that the loader accepts and that the schema allows, writing the loaded document produces the same elements, attributes, character data and processing instructions in the same order. Only lexical form may differ: white space between elements, the number format of equal numbers, XML declaration, doctype, comments and attribute order.',
 ['inputs'], 'every schema-valid partwise or timewise document, over all element types, attributes, choices, repetitions and enumerated or numeric values of the schema',
 'The per-file import round-trip tests are constructed but never run any more, and the core unit tests stream a few hand-made objects per class; no test crosses the combinations of optional, repeated and alternative children with attributes.',
 [S+'core/elements/', S+'core/FromXElement.cpp', S+'core/FromXElement.h', S+'core/ElementInterface.cpp', S+'core/Document.cpp', S+'core/Enums.cpp', S+'core/Decimals.cpp'],
 [('each element class parses what it streams', S+'core/elements/*.cpp fromXElementImpl / streamContents'),
  ('group import with look-ahead', S+'core/FromXElement.cpp importGroup'),
  ('processing instructions kept beside their element', S+'core/ElementInterface.cpp')],
 ['DocumentManager::createFromStream then writeToStream'])

prop('C03', 'Every document written from score data is well-formed and schema-valid',
 'For every score built from the public score structures with values in their documented ranges, creating a document and writing it never produces anything but a well-formed XML document that is valid against the MusicXML 3.0 schema. The same holds for a document that was loaded schema-valid, and for what is written after a partwise/timewise conversion.',
 ['inputs', 'programs'], 'every score data value with in-range fields, every schema-valid loaded document',
 'No test validates output against the schema; the order of children, required attributes and value ranges are only compared with fixed strings for a handful of scores.',
 [S+'impl/', S+'core/elements/', S+'core/Document.cpp', 'Documents/musicxml.xsd'],
 [('element classes emit children in schema order and default-construct required ones', S+'core/elements/*.cpp streamContents'),
  ('bounded value types', S+'core/Integers.h, Decimals.h, Enums.h')],
 ['DocumentManager::writeToStream output against Documents/musicxml.xsd'])

prop('C04', 'Output is deterministic and saving reaches a fixpoint',
 'Writing the same document always gives the same bytes, to a file as to a stream, however often it is written and whatever other documents exist. Loading what was written and writing it again reproduces those bytes exactly, for every document that can be loaded or created, including ones that were not schema-valid when loaded.',
 ['inputs', 'histories'], 'every loadable document (valid or merely tolerated) and every creatable score; any number and order of writes and reloads',
 'Tests compare a first-generation output with an expectation; nothing re-loads and re-writes output for tolerated, malformed or unusual inputs, or compares file with stream output.',
 [S+'core/Document.cpp', S+'ezxml/src/private/private/PugiDoc.cpp', S+'core/Decimals.cpp', S+'core/XsString.cpp', S+'api/DocumentManager.cpp'],
 [('text and attribute escaping', S+'core/XsString.cpp'), ('canonical number format', S+'core/Decimals.cpp'), ('one serializer for file and stream', S+'api/DocumentManager.cpp')],
 ['bytes of writeToStream and writeToFile over generations'])

prop('C05', 'Notes survive being written and read back',
 'For every score whose notes use supported features, getting the score data back from the written and re-loaded document returns the same notes: pitch, accidental, octave, rest or unpitched kind, duration name, dots, time modification, tick position and length, ties, beams, stem, notehead, grace and cue type, chord membership, staff and voice, and their attached marks, curves, tuplets and lyrics-free notations. Notes are neither lost, duplicated, reordered nor moved to another voice, staff, measure or part.',
 ['inputs'], 'every combination of note fields, voices, staves, measures and parts inside the supported range',
 'Tests round-trip single notes with one feature at a time; interactions between chords, voices, staves, backups, tuplets and marks are not sampled.',
 [S+'impl/NoteWriter.cpp', S+'impl/NoteReader.cpp', S+'impl/NoteFunctions.cpp', S+'impl/NotationsWriter.cpp', S+'impl/MeasureWriter.cpp', S+'impl/MeasureReader.cpp', S+'impl/Converter.cpp', S+'impl/TupletReader.cpp', S+'impl/ArticulationsFunctions.cpp', S+'impl/OrnamentsFunctions.cpp', S+'impl/TechnicalFunctions.cpp'],
 [('writer and reader use one table of enum pairs', S+'impl/Converter.cpp'), ('cursor kept by writer and reader', S+'impl/Cursor.cpp')],
 ['DocumentManager::createFromScore, writeToStream, createFromStream, getData'])

prop('C06', 'Score header, parts, groups, defaults and layout survive write and read',
 'For every score, titles, numbers, creators, copyright, encoding data, miscellaneous fields, page text, default layout (scaling, page size, margins, system and staff distances, appearance, fonts), part names, instruments and MIDI data, transposition, part groups, and the per-measure page and system layout come back unchanged from the written and re-loaded document. Each field is independent: setting one never changes, hides or overwrites another.',
 ['inputs'], 'every combination of present and absent header, part, group, default and layout fields with arbitrary values',
 'Tests check one field at a time against one value; cross-talk between fields and absent/present combinations are not explored.',
 [S+'impl/ScoreReader.cpp', S+'impl/ScoreWriter.cpp', S+'impl/PartReader.cpp', S+'impl/PartWriter.cpp', S+'impl/LayoutFunctions.cpp', S+'impl/EncodingFunctions.cpp', S+'impl/PageTextFunctions.cpp', S+'api/SoundID.cpp'],
 [('header writer and reader mirror each other', S+'impl/ScoreWriter.cpp, ScoreReader.cpp'), ('layout map keyed by measure index', S+'impl/LayoutFunctions.cpp')],
 ['DocumentManager round trip, ScoreData equality per field'])

prop('C07', 'Measure attributes, barlines and directions survive write and read',
 'For every score, each measure\'s number, width, implicit flag, time signature, keys (traditional or not), clefs, barlines with endings and repeats, and each staff\'s directions (dynamics, words, tempos, wedges, ottavas, brackets, dashes, pedals, segnos, codas, rehearsal marks, chord symbols) come back from the written and re-loaded document with the same values, the same staff and the same tick position, and in the same order.',
 ['inputs'], 'every combination of measure-level events on any staff at any tick position in the measure, including before, between, inside and after notes',
 'Tests place one event in a simple measure; positions relative to multi-voice, multi-staff note streams and mixtures of events are not sampled.',
 [S+'impl/MeasureWriter.cpp', S+'impl/MeasureReader.cpp', S+'impl/PropertiesWriter.cpp', S+'impl/DirectionWriter.cpp', S+'impl/DirectionReader.cpp', S+'impl/TimeReader.cpp', S+'impl/MetronomeReader.cpp', S+'impl/StaffFunctions.cpp'],
 [('events are emitted when the cursor reaches their tick', S+'impl/MeasureWriter.cpp'), ('reader stamps events with the cursor', S+'impl/MeasureReader.cpp')],
 ['DocumentManager round trip'])

prop('C08', 'The written timeline puts every note where the score data says',
 'Interpreting the written document by the rules of MusicXML (divisions, duration, chord, backup, forward) puts every note at the measure, tick position and length that the score data gave it, in the part, staff and voice it was given. The written cursor never goes below zero, and durations and cursor movements are positive whole numbers of divisions.',
 ['inputs'], 'every arrangement of notes, chords, rests, grace notes, gaps and overlapping voices over any number of staves and parts',
 'Tests compare text or read back with the library\'s own reader, so a mistake made by both writer and reader is invisible; no independent interpretation exists.',
 [S+'impl/MeasureWriter.cpp', S+'impl/NoteWriter.cpp', S+'impl/PartWriter.cpp', S+'impl/Cursor.cpp'],
 [('forward/backup before each note', S+'impl/MeasureWriter.cpp writeForwardOrBackupIfNeeded'), ('cursor advance except inside chords', S+'impl/MeasureWriter.cpp advanceCursorIfNeeded')],
 ['written XML, decoded by an independent interpreter'])

prop('C09', 'The timeline read from a document is the one the document defines',
 'For every loaded document, the tick position and length of every note in the score data equal those defined by the document\'s divisions, durations, chords, backups and forwards, scaled exactly to the score\'s ticks per quarter, in the right part, measure, staff and voice order. Changes of divisions anywhere, and different divisions in different parts, do not shift or stretch anything.',
 ['inputs'], 'every document: any divisions values and changes, any sequence of notes, chords, backups, forwards and other events, multiple parts and staves',
 'Tests read documents with one division value; the least-common-multiple scaling over parts and mid-part changes is covered by one or two files.',
 [S+'impl/MeasureReader.cpp', S+'impl/ScoreReader.cpp', S+'impl/PartReader.cpp', S+'impl/Cursor.cpp', S+'impl/LcmGcd.cpp', S+'impl/NoteReader.cpp'],
 [('global ticks are the lcm of all divisions', S+'impl/ScoreReader.cpp findMaxDivisionsPerQuarter, LcmGcd.cpp'), ('duration scaling', S+'impl/Cursor.cpp convertDurationToGlobalTickScale')],
 ['DocumentManager::getData against an independent interpreter of the same XML'])

prop('C10', 'Partwise and timewise forms are interchangeable without loss',
 'Converting a document between partwise and timewise keeps the header, every part, every measure with its attributes, and all music of every part and measure in order; converting twice gives the original document back. A timewise document yields the same score data as its partwise equivalent, and a score created as timewise writes the same music as when created as partwise, for any numbers of parts and measures.',
 ['inputs', 'histories'], 'every document and score with any number of parts (in any header order, in groups) and measures, any number of conversions',
 'Two tests convert one small regular score; uneven measure counts, part order and repeated conversion are not covered.',
 [S+'core/ScoreConversions.cpp', S+'core/Document.cpp', S+'api/DocumentManager.cpp'],
 [('matrix transposition by part id and measure index', S+'core/ScoreConversions.cpp')],
 ['Document::convertContents, DocumentManager::createFromScore with timewise type'])

prop('C11', 'The document manager is linearizable and race-free under concurrent use',
 'Under any interleaving of create, query, write and destroy calls from any number of threads on the shared manager, every call behaves as if the calls ran one at a time: document ids and unique ids are never given out twice, a live id always gives the content it was created with, a destroyed or unknown id gives an empty result, and no data race occurs, including when threads read the same document.',
 ['schedules', 'histories'], 'every interleaving of manager calls by any number of threads over shared and private documents',
 'No test uses the manager from more than one thread.',
 [S+'api/DocumentManager.cpp', S+'utility/Lock.h', S+'impl/ScoreReader.cpp', S+'impl/Converter.cpp'],
 [('one mutex around the document map', S+'api/DocumentManager.cpp LOCK_DOCUMENT_MANAGER'), ('no shared mutable state in readers and writers', S+'impl/')],
 ['DocumentManager public calls with call/return timestamps'], state=[('document map and id counters', 'live documents and next ids', S+'api/DocumentManager.cpp Impl')])

prop('C12', 'Queries do not change documents; re-created scores are stable',
 'Getting score data, writing, or looking up a document never changes what any later get or write returns, for this or any other document, even when a call fails. Creating a document from score data that was read from a document and reading it again gives equal score data from then on (where that re-creation had to split simultaneous notes of one voice into several voices, the voice numbers the notes request settle one re-creation later), and documents never share state: changing or destroying one, or the structures passed in, never affects another.',
 ['inputs', 'histories'], 'every loadable document and score; any sequence of manager calls over several documents',
 'Tests call each operation once on a fresh document; repeated and interleaved use, timewise documents (which are converted in place during a query) and failing queries are not covered.',
 [S+'api/DocumentManager.cpp', S+'impl/ScoreReader.cpp', S+'impl/ScoreWriter.cpp', S+'core/ScoreConversions.cpp'],
 [('timewise documents are converted back after a query', S+'api/DocumentManager.cpp getData')],
 ['bytes written and data returned before and after every call'])

prop('C13', 'Score data equality is exact',
 'Two score data values compare equal if and only if all their fields are equal (decimal fields within the documented tolerance): every copy equals its original, equality is symmetric, and changing any single field anywhere in the structure makes the values unequal, with == and != always opposite.',
 ['inputs'], 'every pair of score data values; every single-field difference at every depth of the structure',
 'Tests use equality as an oracle; a field left out of a comparison makes them weaker instead of failing.',
 [A+'ApiEquality.h', A+'ScoreData.h', A+'NoteData.h', A+'PartData.h', A+'MeasureData.h', A+'DirectionData.h', A+'MarkData.h', A+'DefaultsData.h', A+'PositionData.h'],
 [('member list macros', A+'ApiEquality.h MXAPI_EQUALS_MEMBER')],
 ['operator== and operator!= of every mx::api structure'])

prop('C14', 'Sorting a score orders events by time and changes nothing else',
 'Sorting a score puts the clefs, directions and notes of every staff and voice in ascending tick order, keeps every event exactly once and unmodified, keeps simultaneous events in their given order, and is idempotent. A score written after sorting therefore contains exactly the events it was given.',
 ['inputs'], 'every score with any number of events per staff and voice in any initial order, with ties in time',
 'No test sorts more than a few events, below the size where an unstable sort shows.',
 [S+'api/ScoreData.cpp'], [('per-staff and per-voice sort by tick', S+'api/ScoreData.cpp sort')], ['ScoreData::sort'])

prop('C15', 'Core values stay in range, and printing then parsing is the identity',
 'For every numeric, enumerated, union, date, colour, list and string value type of the document model, whatever is constructed, set or parsed leaves the value inside the range its type documents; printing a value and parsing the text gives the same value back; parsing accepts exactly the documented texts and a failed parse reports failure and leaves a defined value.',
 ['inputs'], 'every text and every number given to every value type, including extremes, overlong digits, exponents, blanks and non-numbers',
 'Tests try a few numbers and each enumerator once; extremes, near-miss texts and print/parse over the whole range are not covered.',
 [S+'core/Integers.cpp', S+'core/Decimals.cpp', S+'core/Enums.cpp', S+'core/EnumsBuiltin.cpp', S+'core/Color.cpp', S+'core/Date.cpp', S+'core/FontSize.cpp', S+'core/NumberOrNormal.cpp', S+'core/PositiveIntegerOrEmpty.cpp', S+'core/YesNoNumber.cpp', S+'core/CommaSeparatedPositiveIntegers.cpp', S+'core/CommaSeparatedText.cpp', S+'core/XsID.cpp', S+'core/XsToken.cpp'],
 [('clamping constructors and setters', S+'core/Integers.cpp, Decimals.cpp'), ('enum string tables', S+'core/Enums.cpp')],
 ['getValue, setValue, parse, toString of each value type'])

prop('C16', 'Every element class honours the documented accessor contract',
 'For every element of the document model and any sequence of calls: setting a child to null changes nothing, so no getter ever returns null; an optional child appears in the output exactly when its flag is set, and the flag does not alter the child; collections never shrink below their minimum or grow beyond their maximum, and keep order; and exactly the chosen alternative of a choice is written.',
 ['programs', 'histories'], 'every element class and every sequence of set, add, remove, clear, flag and choice calls',
 'Unit tests cover two or three fixed configurations per class and never exercise nulls, bounds or removal across the classes.',
 [S+'core/elements/', S+'core/ElementInterface.cpp', 'README.md'],
 [('null checks in setters', S+'core/elements/*.cpp set*'), ('min/max checks in add/remove/clear', S+'core/elements/*.cpp')],
 ['public accessors and toStream of each element class'])

prop('C17', 'The XML DOM layer behaves like an ordered tree of elements and attributes',
 'For any sequence of document and element operations (load, append, prepend, insert, remove, set name, value, attributes, doctype, declaration, iterate forwards and backwards, with or without processing instructions), what the DOM reports and saves equals what a plain ordered tree would hold. Iterators visit every child exactly once in order, and saving then loading gives an equal tree in every supported encoding.',
 ['programs', 'histories', 'inputs'], 'every sequence of DOM operations on every document',
 'The DOM layer has no tests in this repository at all beyond being used by the loader.',
 [S+'ezxml/src/private/private/PugiElement.cpp', S+'ezxml/src/private/private/PugiDoc.cpp', S+'ezxml/src/private/private/PugiElementIterImpl.cpp', S+'ezxml/src/private/private/PugiAttributeIterImpl.cpp', S+'ezxml/src/private/private/PugiAttribute.cpp', S+'ezxml/src/private/private/XElementIterator.cpp', S+'ezxml/src/private/private/XAttributeIterator.cpp'],
 [('wrapper over pugixml nodes', S+'ezxml/src/private/private/PugiElement.cpp')],
 ['ezxml::XDoc, XElement, XAttribute and their iterators'])

prop('C18', 'A failing operation leaves no trace',
 'When memory allocation fails at any point, a stream or file fails, or an input is rejected, the operation ends with a standard exception or an ordinary result, leaks nothing and corrupts nothing: no id is handed out for a failed load, every other document still gives the same data and bytes, and the manager accepts further calls from any thread.',
 ['fault_sequences', 'inputs'], 'every allocation failure point, failing input and output streams, unreadable and unwritable paths, rejected documents, in any sequence',
 'No test injects a failure; the only failing operations tested are a missing file and a compressed file.',
 [S+'api/DocumentManager.cpp', S+'ezxml/src/private/private/PugiDoc.cpp', S+'core/Document.cpp'],
 [('RAII ownership and lock guards', S+'api/DocumentManager.cpp'), ('document inserted only after a complete parse', S+'api/DocumentManager.cpp')],
 ['DocumentManager calls with an allocator that fails on the N-th request'])

prop('C19', 'Every text survives, whatever characters it contains',
 'Any XML-legal Unicode text in any text field or attribute of a score or document (titles, names, words, identifiers used as text, miscellaneous fields) is written as well-formed XML and read back as the same text, including markup characters, quotes, entities, leading and inner white space as XML preserves it, and non-Latin scripts. A document means the same whether it arrives in UTF-8, UTF-16 or UTF-32, with or without byte order mark.',
 ['inputs'], 'every sequence of XML-legal characters in every text-carrying field; every supported input encoding',
 'Test texts are plain ASCII words apart from one or two file names; quotes inside attributes and markup in values are not tried.',
 [S+'core/XsString.cpp', S+'core/AttributesInterface.h', S+'core/XsToken.cpp', S+'ezxml/src/private/private/PugiDoc.cpp', S+'ezxml/src/private/private/PugiElement.cpp'],
 [('escaping on output', S+'core/XsString.cpp toStream'), ('entity decoding on input', S+'ezxml/src/private/private/pugixml.cpp')],
 ['writeToStream output parsed independently; round-tripped ScoreData strings'])

prop('C20', 'Destroying documents gives everything back',
 'Over any history of creating, loading, converting, querying, writing and destroying documents, the memory held by the library depends only on the documents currently alive: destroying a document releases everything belonging to it, and failed or repeated operations accumulate nothing.',
 ['histories'], 'every sequence of manager operations of any length',
 'Tests destroy what they create but never measure memory; a reference cycle or a cache that grows per call passes them.',
 [S+'api/DocumentManager.cpp', S+'core/elements/', S+'ezxml/src/private/private/PugiElement.cpp'],
 [('shared_ptr tree without back references', S+'core/elements/*.h'), ('weak document references in DOM elements', S+'ezxml/src/private/private/PugiElement.cpp')],
 ['live allocation count at quiescent points'])

prop('C21', 'Results do not depend on the process environment',
 'The bytes written and the data read are the same whatever global C or C++ locale, numeric grouping, current directory or stream formatting state the program has set, and reading or writing leaves that state, and the formatting state of the caller\'s streams, as it was.',
 ['configurations'], 'every global locale with any decimal point and grouping, every stream formatting state',
 'Tests run in the classic locale with fresh streams only.',
 [S+'core/Decimals.cpp', S+'core/Integers.cpp', S+'core/Document.cpp', S+'ezxml/src/private/private/PugiDoc.cpp'],
 [('numbers are formatted through string streams', S+'core/Decimals.cpp, Integers.cpp')],
 ['bytes written under hostile locales'])

prop('C22', 'Score data and documents say the same in the vocabulary of MusicXML',
 'Every musical fact in the score data (pitch, accidental, duration type, dots, notehead, stem, beams, ties, slurs, articulations, ornaments, technical marks, tuplets, clefs, keys, times, barlines, directions, dynamics, chord symbols, layout, parts, groups, credits and header data) is written as the MusicXML element, attribute and value which means exactly that, and a document which states such a fact, whoever wrote it, is read into the data which means it; a fact is neither invented nor given to another note, part, staff or measure.',
 ['inputs'], 'all representable score data and all schema-valid documents in the vocabulary the score data can represent',
 'Round-trip tests cannot see a mapping that is wrong in the same way in both directions, and value tables are only sampled.',
 [S+'impl/Converter.cpp', S+'impl/NoteWriter.cpp', S+'impl/NoteReader.cpp', S+'impl/NotationsWriter.cpp', S+'impl/DirectionWriter.cpp', S+'impl/DirectionReader.cpp', S+'impl/PropertiesWriter.cpp', S+'impl/MeasureReader.cpp', S+'impl/ScoreReader.cpp', S+'impl/ScoreWriter.cpp'],
 [('tables between api and core enumerations', S+'impl/Converter.cpp'), ('element construction and reading', S+'impl/*Writer.cpp, *Reader.cpp')],
 ['documents written, score data read'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
