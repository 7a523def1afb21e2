#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
S = 'src/avb/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': hook or None}})


prop('C01', 'Saving a document and reopening it preserves every field of every object',
     'For every object kind, every combination of present optional fields and every representable field value, saving a document and opening the result gives an equal object graph, whether the objects were loaded from a file or built with the create factory, and in either byte order; times are kept to the second. A value the format cannot represent makes the save raise; it is never silently altered.',
     ['inputs', 'programs'], 'all object kinds x both byte orders x all subsets of optional field groups x boundary values of every field (singly and in pairs)',
     'The tests round trip the objects of a few sample files; each kind has 2^k optional layouts and hundreds of boundary values no sample contains.',
     ['core.py', 'file.py', 'ioctx.py', 'components.py', 'trackgroups.py', 'essence.py', 'misc.py', 'bin.py', 'attributes.py'],
     [('object write methods', 'write() of every registered class'), ('object read methods', 'read() of every registered class'), ('AVBFile.write / AVBFile.read_object', 'file.py')],
     [('property_data', 'typed fields of an object', 'core.py AVBObject')],
     ['AVBFile(path)', 'AVBFile.write(path)'])
prop('C02', 'Opening a file yields exactly the values its bytes encode',
     'For every well formed document in the AVB layout, in either byte order, every field read through the object model equals the value encoded in the file, optional fields absent in the file are absent from the object, and references resolve to the object the file names.',
     ['inputs'], 'all documents holding one object of each kind, over all optional layouts, list lengths and boundary values, both byte orders',
     'Read/write symmetric mistakes (swapped fields, wrong width or sign in both directions) survive every round trip test; the sample files exercise one value per field.',
     ['file.py', 'ioctx.py', 'components.py', 'trackgroups.py', 'essence.py', 'misc.py', 'bin.py', 'attributes.py'],
     [('object read methods', 'read() of every registered class'), ('AVBIOContext.read_*', 'ioctx.py')],
     observe=['AVBFile(fileobject)', 'attributes of the objects'])
prop('C03', 'Saved files follow the documented AVB layout byte for byte',
     'For every object kind and value, the bytes a save produces are the AVB layout of that value: the same tags, field order, widths, signs, byte order, optional blocks and terminator as Media Composer files have, with the object count and root recorded in the header. A loaded, unmodified, canonically encoded object is reproduced byte for byte.',
     ['inputs'], 'all object kinds x optional layouts x boundary values x both byte orders',
     'A reader that mirrors the writer accepts any self consistent layout; only an independent layout model notices that another application could not read the file.',
     ['file.py', 'ioctx.py', 'components.py', 'trackgroups.py', 'essence.py', 'misc.py', 'bin.py', 'attributes.py'],
     [('object write methods', 'write() of every registered class'), ('AVBIOContext.write_*', 'ioctx.py'), ('AVBFile.write_header', 'file.py')],
     observe=['AVBFile.write(path)'])
prop('C04', 'Any chain of little/big endian conversions is lossless',
     'Saving a document in one byte order, reopening it and saving it in the other, any number of times and in any order, leaves every field of every object unchanged, and saving back in the original order reproduces the same object bytes.',
     ['histories', 'inputs'], 'all byte order sequences up to the bound applied to documents of every object kind and to mixed graphs',
     'Errors in one byte order often cancel in a single round trip; they appear only when the order changes between read and write.',
     ['ioctx.py', 'file.py'], [('AVBIOContext', 'ioctx.py'), ('AVBFile.write', 'file.py')], observe=['AVBFile.write(path, byte_order)'])
prop('C05', 'A save writes each reachable object once and keeps the reference graph',
     'Saving a document writes every object reachable from its content exactly once, children before the objects that refer to them and the root last, drops unreachable objects, and every reference (including null and shared ones) in the reopened file leads to the corresponding object. A cyclic graph makes the save raise.',
     ['programs'], 'all object graphs up to the size bound over the reference-carrying containers (fields, lists, parameter lists, attributes, tracks, bin items, control items)',
     'Tests have a few tree shaped graphs; sharing, nulls and cycles are structural combinations that have to be enumerated.',
     ['core.py', 'file.py', 'ioctx.py'], [('walk_references', 'core.py'), ('AVBFile.write', 'file.py'), ('AVBIOContext.write_object_ref', 'ioctx.py')],
     [('ref_mapping', 'old instance id to new index', 'file.py')], ['AVBFile.write(path)'])
prop('C06', 'Saving a graph that contains another document\'s object is refused',
     'If any object reachable from the content being saved belongs to a different document, wherever in the graph it sits and whatever its instance number, the save raises instead of writing a file in which that object is missing, mixed up or copied. (Helper records such as tracks and control points are plain values that belong to no document; what they refer to is what counts.)',
     ['programs', 'histories'], 'all placements of a foreign object in small graphs x all instance number collisions x document states',
     'Collisions between the private numbering of two documents depend on how many objects each created; the tests use one arrangement.',
     ['file.py', 'ioctx.py'], [('AVBFile.write', 'file.py'), ('AVBFile.write_object', 'file.py')], observe=['AVBFile.write(path)'])
prop('C07', 'Every edit made through the object model reaches the saved file',
     'Every change made to a loaded or new object before a save (attribute assignment, list and attribute-dictionary operations, edits of the small helper records such as tracks and control points) is present in the file saved afterwards, regardless of which Python references the program dropped, when garbage was collected, and what else was read or saved in between. (Writing into the raw property_data dictionary of an object, bypassing the object model, is not covered.)',
     ['histories', 'schedules'], 'all histories of load / edit / drop reference / collect / save operations up to the depth bound, over every kind of editable container, with both readers',
     'The object cache is weak: whether an edit survives depends on the interleaving of garbage collection with loads, which tests never vary.',
     ['core.py', 'attributes.py', 'file.py', 'utils.py'], [('mark_modified', 'core.py, attributes.py'), ('AVBFile.add_modified', 'file.py'), ('AVBRefList mutators', 'core.py')],
     [('object_cache', 'weak map of loaded objects', 'file.py'), ('modified_objects', 'strong map of edited objects', 'file.py')], ['AVBFile.write(path)'])
prop('C08', 'Reading changes nothing and saving is deterministic and repeatable',
     'No sequence of reading operations (attribute access, iteration, lookups, repr, walking chunks, failed reads) changes what a following save writes or marks anything modified; saving twice gives identical bytes; and reopening and saving a file this library wrote reproduces its bytes.',
     ['histories'], 'all sequences of read-only operations up to the bound between open and save, on every object kind',
     'Tests compare one save after one full traversal, not the order and subset of objects that happened to be loaded.',
     ['file.py', 'core.py', 'components.py', 'trackgroups.py', 'bin.py'], [('AVBFile.read_object', 'file.py'), ('AVBFile.write', 'file.py'), ('walk_references', 'core.py')],
     [('reading', 'flag that suppresses modification marks', 'file.py')], ['AVBFile.write(path)', 'AVBFile.modified_objects'])
prop('C09', 'An object of a file is one Python object while anyone holds it',
     'However an object of an open file is reached (different references to it, the reference list, class iteration, direct index), the same Python object is returned as long as it is held or has been edited, and its values do not depend on access order or on which other objects were loaded, dropped or failed to load before.',
     ['histories', 'schedules'], 'all sequences of access / hold / drop / collect operations up to the bound on small graphs with shared references',
     'Identity depends on the weak cache and on collection timing.',
     ['file.py', 'utils.py', 'core.py'], [('AVBFile.read_object', 'file.py'), ('AVBObjectRef.value', 'utils.py')],
     [('object_cache', 'weak map of loaded objects', 'file.py')], ['AVBFile.read_object', 'reference attributes'])
prop('C10', 'A failed or interrupted save never damages data',
     'If saving fails (an unwritable value, a full disk, an I/O error or interrupt at any point) the file previously at the destination is intact and the open document can be saved again with correct content; saving over the file the document was opened from gives the correct content; and a file left by a save that was cut off at any point is either refused on open or is a complete document, the old one or the new one.',
     ['crash_points', 'fault_sequences'], 'every write/seek/close step of the save, every failure position, every truncation point, and every destination (new, existing, the source itself)',
     'Tests only save successfully to a fresh path.',
     ['file.py'], [('AVBFile.write', 'file.py'), ('AVBFile.__init__', 'file.py')], [('octx', 'set only while a save runs', 'file.py')], ['AVBFile.write(path)', 'AVBFile(path)'])
prop('C11', 'Damaged object data is rejected, never misread',
     'An object whose data is truncated, padded, has a corrupted tag, length, version, magic or reference number, or is of an unknown kind raises when it is accessed; it never yields an object whose fields disagree with the bytes, never hangs or exhausts memory, and the other objects of the file stay readable with correct values.',
     ['inputs', 'fault_sequences'], 'every truncation, every one byte extension and every single byte corruption of a canonical chunk of every kind, both byte orders',
     'There are tens of thousands of one byte corruptions; tests contain none.',
     ['file.py', 'ioctx.py', 'components.py', 'trackgroups.py', 'essence.py', 'misc.py', 'bin.py', 'attributes.py'],
     [('read_assert_tag', 'ioctx.py'), ('AVBFile.read_object', 'file.py'), ('AVBIOContext.read_object_ref', 'ioctx.py')], observe=['AVBFile.read_object'])
prop('C12', 'The compiled reader and the Python reader give identical objects',
     'For every well formed object of every kind that has an accelerated reader, reading with the extension enabled and disabled yields objects of the same class with the same fields, values and Python types, the same references, and the same bytes when saved.',
     ['inputs', 'configurations'], 'all kinds with an accelerated reader x optional layouts x boundary values, both readers',
     'The extension re-implements a third of the format in C++; the tests run the same samples through it once.',
     ['_ext.pyx', '_ext_core.cpp', 'file.py'], [('READERS', '_ext.pyx'), ('read_* structs', '_ext_core.cpp'), ('AVBFile use_ext', 'file.py')], observe=['AVBFile(path, use_ext=True/False)'])
prop('C13', 'The compiled reader refuses damaged data exactly as the Python reader does',
     'For every truncated, extended or corrupted object, opening it with the extension enabled raises whenever the Python reader raises, and otherwise yields the same values; it never crashes the process, reads outside the object, or hangs.',
     ['inputs', 'fault_sequences'], 'every truncation, extension and single byte corruption of canonical chunks of every accelerated kind',
     'Memory-unsafe parsing bugs need adversarial bytes, which the tests never supply.',
     ['_ext.pyx', '_ext_core.cpp'], [('Buffer / BufferIterator reads', '_ext_core.cpp'), ('READERS', '_ext.pyx')], observe=['AVBFile(path, use_ext=True)'])
prop('C14', 'Copying an object gives an equal, fully independent object',
     'Copying an object into the same or another document yields a tree with equal fields (a child referenced twice is copied once per reference) whose save succeeds there and equals the original\'s; afterwards no edit of the copy, nested records, lists and binary data included, is visible in the original or its document, nor the other way round.',
     ['inputs', 'histories'], 'all object kinds x optional layouts x target documents x every single edit of every mutable part of either side',
     'Aliasing shows only when one particular nested value is edited after the copy.',
     ['core.py', 'attributes.py', 'trackgroups.py', 'bin.py'], [('AVBObject.copy', 'core.py'), ('AVBRefList.copy', 'core.py'), ('Attributes.copy', 'attributes.py')], observe=['obj.copy(document)'])
prop('C15', 'Reference lists behave like Python lists of objects',
     'Under any sequence of list operations a reference list (parameter lists, sequence components, tracker lists and the like), whether loaded from a file or built new, holds, iterates, slices, searches and compares exactly as a Python list of the same objects would, never exposing raw reference numbers, and the state it shows is the one saved.',
     ['histories'], 'all sequences of list operations up to the depth bound, on loaded and new lists',
     'Loaded lists mix unresolved references with objects; the behaviour depends on the operation sequence.',
     ['core.py', 'attributes.py'], [('AVBRefList', 'core.py'), ('ParameterList, TimeCrumbList', 'attributes.py')], observe=['AVBRefList methods'])
prop('C16', 'Attribute dictionaries are ordered, typed maps that survive saving',
     'Under any sequence of dictionary operations an attribute dictionary behaves as an insertion ordered map of text keys to integers, text, binary data and objects, never exposing raw references; saving and reopening gives the same keys in the same order with the same types and values, and a value of a type or size the format cannot hold makes the save raise.',
     ['histories', 'inputs'], 'all operation sequences up to the bound over all value types and boundary values',
     'Order, type tags and sentinels interact over histories of inserts and deletes.',
     ['attributes.py', 'core.py'], [('Attributes', 'attributes.py'), ('AVBPropertyData', 'core.py')], observe=['Attributes methods'])
prop('C17', 'Bin lookups and filters always reflect the bin\'s current contents',
     'After any history of adding, inserting, removing and replacing bin items, re-identifying mobs and looking mobs up, find_by_mob_id returns a mob currently in the bin with that id or None if there is none, and the mob, top level, composition and master mob iterations list exactly the matching current items in order, items without an object (null) excepted.',
     ['histories'], 'all operation histories up to the depth bound on small bins, new and loaded',
     'The lookup is cached; staleness needs a lookup, then an edit, then a lookup.',
     ['bin.py'], [('Bin.find_by_mob_id', 'bin.py'), ('Bin.add_mob', 'bin.py')], [('_mob_dict', 'lookup cache', 'bin.py')], ['Bin.find_by_mob_id', 'Bin.mobs', 'Bin.toplevel'])
prop('C18', 'Dependent mob listing is complete, duplicate free, ordered and terminates',
     'For any network of mobs linked by source clips (shared, missing and circular links included), listing a mob\'s dependencies yields each transitively referenced mob exactly once, never the mob itself, terminates, and where the links are acyclic lists every mob after those it depends on.',
     ['programs'], 'all mob link graphs up to the size bound, with missing and duplicate links',
     'Depth first ordering bugs and non-termination depend on graph shape.',
     ['trackgroups.py', 'components.py', 'core.py'], [('TrackGroup.dependant_mobs', 'trackgroups.py'), ('SourceClip.mob', 'components.py')], observe=['Composition.dependant_mobs()'])
prop('C19', 'Sequence positions and lengths add up over any mix of transitions',
     'For every sequence of clips and overlapping transitions, the reported length equals clip lengths minus transition overlaps, component positions are the running sums with each transition starting before the cut, and looking up the component at any position returns the one covering it, a transition taking precedence over the clips it overlaps.',
     ['inputs'], 'all sequences of clips and transitions up to the length bound x small lengths x all positions',
     'Off by one errors live in particular alternations of clips and transitions.',
     ['components.py'], [('Sequence.length / positions / nearest_component_at_time', 'components.py')], observe=['Sequence'])
prop('C20', 'Keyframe evaluation is total, exact at keyframes and selects the right segment',
     'For every set of keyframes with increasing times, evaluating a parameter at any time returns a value: exactly the keyframe value at keyframes, the value of the first or last keyframe outside, and inside the interpolant of the kind of the parameter (constant, linear, Bezier with handles cut off at the segment, cubic spline) between the two neighbouring keyframes; other kinds are refused.',
     ['inputs'], 'all small keyframe sets over a value grid x interpolation kinds x extrapolation kinds x handle positions x evaluation times',
     'Degenerate handles, equal values and boundary times form combinations tests do not reach.',
     ['components.py', 'interpolation.py'], [('ParamClip.value_at', 'components.py'), ('bezier_interpolate / cubic_interpolate', 'interpolation.py')], observe=['ParamClip.value_at'])
prop('C21', 'Speed curves integrate to consistent source positions',
     'Integrating a speed curve over any frame range yields one sample per half frame from the start, with positions that equal the trapezoidal sum of the curve, are exact for constant curves, do not depend on how the range is split, and never fail for an empty or single frame range.',
     ['inputs'], 'all small speed curves x ranges x centre frames',
     'Ranges on the boundary and left and right of the centre take different code paths.',
     ['components.py', 'interpolation.py'], [('ParamClip.integrate', 'components.py'), ('integrate_iter', 'interpolation.py')], observe=['ParamClip.integrate'])
prop('C22', 'All representations of a mob id agree and convert without loss',
     'For every 32 byte mob id, the raw bytes, URN text, integer, dictionary and field views agree; setting any one view updates all the others; equality, hashing and ordering follow the bytes; and freshly generated ids are distinct and well formed.',
     ['inputs', 'histories'], 'byte patterns covering every byte position and value, all field setters in sequences up to the bound',
     'A swapped or dropped byte shows only for values where the bytes differ.',
     ['mobid.py'], [('MobID', 'mobid.py')], observe=['avb.mobid.MobID'])
prop('C23', 'Edit rates and other decimal floats survive saving exactly',
     'Every rate with up to six decimals that fits the format\'s 32 bit mantissa is read back exactly equal after saving, in every field that stores one, a rate with more digits is stored to the precision of the format, and a rate too large for it makes the save raise rather than write another rate.',
     ['inputs'], 'all mantissa/exponent pairs of an exhaustive grid including every common rate and the limits',
     'Accumulated floating point error in the encoder affects isolated values.',
     ['ioctx.py'], [('write_exp10_encoded_float', 'ioctx.py'), ('read_exp10_encoded_float', 'ioctx.py')], observe=['edit_rate after AVBFile.write and reopen'])
prop('C24', 'Documents and objects never share mutable state',
     'Objects created by or loaded into different documents, or twice in one document, share no mutable value: editing any default list, column table, colour, dictionary or record of one changes nothing in any other, nor the defaults of objects created later.',
     ['programs', 'histories'], 'all object kinds x every mutable default x edits x creation orders',
     'Shared defaults show only when one object is edited and another one inspected or created afterwards.',
     ['core.py', 'bin.py', 'components.py', 'misc.py', 'essence.py', 'trackgroups.py'], [('AVBObject.__init__ defaults', 'core.py'), ('default_bin_columns', 'bin.py')], observe=['create.<Kind>()'])
prop('C25', 'New objects get unique identities and the factory builds the kind asked for',
     'Every object created in a document receives an instance number different from every object of the file and every other created object, in any interleaving of creating, copying, loading and saving; and each factory attribute builds the class of that name with its documented arguments and defaults, no matter how factory calls are interleaved.',
     ['histories'], 'all interleavings of create / copy / load / save operations up to the bound, all factory names',
     'Identity clashes depend on the interleaving of loading and creating.',
     ['file.py'], [('AVBFactory', 'file.py'), ('next_object_id', 'file.py')], [('next_object_id', 'instance number counter', 'file.py')], ['AVBFile.create'])
prop('C26', 'Timestamps survive saving in every time zone and across clock changes',
     'A creation, modification or save time that was read from a file is written back as the same number of seconds in every time zone, including times inside the repeated hour at the end of daylight saving, and a time set by the user is read back equal.',
     ['inputs', 'configurations'], 'time zones with and without daylight saving x timestamps around every transition of a year and the limits',
     'The tests run in one zone with ordinary times.',
     ['ioctx.py', 'trackgroups.py', 'file.py'], [('read_datetime / write_datetime', 'ioctx.py')], observe=['last_modified', 'creation_time', 'AVBFile.last_save'])
prop('C27', 'The header and chunk directory are read strictly and agree with the bytes',
     'Opening accepts every file with a correct header and consistent chunk table and reports the saved time, creator and root it encodes; a file with a wrong signature, byte order mark, format version, header terminator, root number or truncated chunk table is refused when opened, and one whose chunk table is damaged elsewhere when the affected chunk is accessed; the raw chunk listing, chunk data, hex dump and class iteration agree with the bytes of the file; and documents opened from a path or a file object, with any buffering, behave identically.',
     ['inputs'], 'every truncation and single byte corruption of a header, chunk directories up to the bound, both byte orders',
     'The header is only ever tested with valid sample files.',
     ['file.py'], [('AVBFile.__init__', 'file.py'), ('AVBFile.read_chunk / chunks / iter_class_ids', 'file.py'), ('AVBChunk', 'file.py')], observe=['AVBFile(fileobject)', 'AVBFile.chunks()'])
prop('C28', 'Source clips resolve to the mob and track they name',
     'For every arrangement of mobs and tracks (missing, duplicate and partially filled tracks included), a source clip\'s mob is the bin mob with its mob id or none, and its track is the track of that mob with the clip\'s track number and media kind or none; neither fails.',
     ['programs'], 'all small arrangements of mobs, tracks and clip fields',
     'Tracks with optional parts missing occur in real files but not in the tests.',
     ['components.py', 'trackgroups.py', 'bin.py'], [('SourceClip.mob / track', 'components.py'), ('Track.media_kind', 'trackgroups.py')], observe=['SourceClip.mob', 'SourceClip.track'])
prop('C31', 'Symbolic names and stored codes convert both ways without loss',
     'For every code a file can hold, the symbolic view (media kind, mob type, usage, and similar) names exactly that code, an unknown code is reported as unknown or raises and is unharmed by saving, and setting a symbolic name stores the code that reads back as that name or raises for a name that does not exist.',
     ['inputs'], 'every value of each code field and every name, including unknown ones',
     'Lookup tables with one wrong entry pass every test that does not use that entry.',
     ['components.py', 'trackgroups.py', 'misc.py', 'essence.py'], [('Component.media_kind', 'components.py'), ('Composition.mob_type / usage', 'trackgroups.py')], observe=['media_kind', 'mob_type', 'usage'])
prop('C32', 'Text survives saving for every character the format can encode',
     'Every text value built from characters of the field\'s encoding (all MacRoman characters, all Unicode characters for UTF-8 fields), up to the maximal length, is read back identical after saving, and text the field cannot hold makes the save raise.',
     ['inputs'], 'every code point singly in each encoding, boundary lengths around the 16 bit limit',
     'The tests use ASCII text.',
     ['ioctx.py', 'bin.py', 'misc.py'], [('read_string / write_string', 'ioctx.py')], observe=['text fields after AVBFile.write and reopen'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
