#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

CORE='ebmlite/core.py'; ENC='ebmlite/encoding.py'; DEC='ebmlite/decoding.py'; UT='ebmlite/util.py'
XC='ebmlite/xml_codecs.py'; TF='ebmlite/threaded_file.py'; TOOLS='ebmlite/tools/'

p('C01', 'Structured data written through a schema reads back as the same data',
  'Encoding any structured data the schema allows (dictionaries or ordered name/value pairs, to any nesting depth, with elements named by name or by numeric ID, lists or tuples of values for repeatable elements, optionally with the default document header) and loading the resulting bytes with the same schema yields exactly the elements that were written: same identities, same nesting, same order and the same values. '
  'Values are preserved up to the documented representation only: a fixed length declared in the schema pads or (for text) cuts at a character boundary, a floating-point element whose declared length is 4 bytes rounds to single precision, and dates keep microseconds. '
  'Writing to a stream, obtaining a byte string, and encoding each top-level item separately and concatenating all give the same document.',
  ['inputs', 'configurations'],
  'every schema (element types, nesting, recursion, repeatable elements, declared lengths), every data structure conforming to it, every accepted shape of that structure, with and without headers',
  'Tests encode a handful of fixed dictionaries; the set of nestings, value types, boundary sizes (payloads crossing the 127/16383-byte size widths) and container shapes is unbounded, and encoder and decoder errors that cancel out are invisible to encode-then-decode tests of one value.',
  [CORE, ENC, DEC],
  [('payload and header assembly of scalar, repeatable and master elements', CORE+': Element.encode, MasterElement.encodePayload, MasterElement.encode'),
   ('document assembly and default headers', CORE+': Document.encode, Document._createHeaders, Schema.encode(s)'),
   ('reading back', CORE+': MasterElement.parseElement, Document.__iter__')],
  [('output bytes', 'the encoded document', 'stream given to Schema.encode / return of Schema.encodes')],
  ['Schema.encode', 'Schema.encodes', 'Schema.loads', 'Document.__iter__', 'MasterElement.__iter__', 'Element.value', 'Element.dump'])

p('C02', 'Reported structure tiles the bytes: identity, position, extent of every element',
  'For every well-formed document, the elements reported while reading are exactly the elements encoded in the bytes, in order and with the right parent: each has the encoded ID, an offset and payload position equal to where its header and payload begin in the stream, and a size equal to its payload length. '
  'Siblings follow each other without gap or overlap, the children of a container exactly fill it, and the raw bytes (with or without header) returned for an element are exactly that slice of the stream. '
  'This holds for every combination of ID width (1 to 4 bytes), size-descriptor width (1 to 8 bytes, including non-minimal ones and empty payloads) and for streams that are not at position zero when the document is opened.',
  ['inputs'],
  'every well-formed EBML byte string for the schema, every element in it, every starting position of the stream',
  'Tests check offsets of a few elements in sample files, which use only a few header widths; an off-by-one tied to one width, to empty containers or to a non-zero start is not reached.',
  [CORE, DEC],
  [('element header decoding', DEC+': readElementID, readElementSize'),
   ('element placement', CORE+': MasterElement.parseElement, MasterElement.__iter__, Document.__iter__'),
   ('raw access', CORE+': Element.getRaw, Element.getRawValue')],
  [('offset/payloadOffset/size', 'extent of an element within the stream', CORE+': Element.__init__')],
  ['Element.offset', 'Element.payloadOffset', 'Element.size', 'Element.getRaw', 'Element.getRawValue', 'MasterElement.__iter__'])

p('C03', 'Size descriptors are canonical, invertible, and never silently altered',
  'Every size from 0 to 2^56-2 is encoded in the minimum number of bytes and decodes to itself with that width, and decoding any descriptor of 1 to 8 bytes gives its numeric value and width. '
  'When a width is requested, the result has exactly that width and decodes to the same size, or the request is refused; in particular a size that does not fit, or whose representation would be the reserved all-ones pattern, is never written as something else. '
  'The all-ones pattern of every width, and only that pattern, decodes as the unknown size, and asking for an unknown size yields it (one byte when no width is requested).',
  ['inputs'],
  'every size 0..2^56-2, every requested width (including invalid ones), every descriptor byte pattern of each width',
  'Tests sample a few values; the reserved all-ones values (127, 16383, ...) and explicit widths at each of the eight boundaries are where silent corruption happens.',
  [ENC, DEC],
  [('size encoding', ENC+': encodeSize, getLength'), ('size decoding', DEC+': readElementSize, decodeIntLength')],
  [], ['encoding.encodeSize', 'encoding.getLength', 'decoding.readElementSize', 'Element.encode with lengthSize'])

p('C04', 'Element IDs: encoding, decoding, validity and generation agree',
  'A valid element ID is written as exactly its own bytes and read back as the same ID with its width, and a first byte that cannot start an ID is refused. '
  'ID validation accepts exactly the IDs in the four documented class ranges and refuses every other number, including negative and oversized ones. '
  'Generated IDs are always distinct, valid, of the requested class, inside the requested inclusive bounds, absent from the schema and from the exclusions, given in increasing order starting at the lowest candidate, and as many as requested unless fewer qualify.',
  ['inputs', 'configurations'],
  'every integer as candidate ID, every byte string as encoded ID, every schema, class, exclusion set, bounds and count',
  'Tests try a few IDs per class; class boundaries, reserved patterns, the width/first-byte relation and interactions of exclusions with bounds and count need exhaustive boundary enumeration.',
  [UT, ENC, DEC],
  [('ID codec', ENC+': encodeId; '+DEC+': readElementID, decodeIDLength'), ('validation', UT+': validateID'), ('generation', UT+': createID')],
  [], ['encoding.encodeId', 'decoding.readElementID', 'util.validateID', 'util.createID'])

p('C05', 'Integer payloads round-trip over the whole 64-bit range or are refused',
  'Every signed integer in [-2^63, 2^63-1] and every unsigned integer in [0, 2^64-1], encoded without a length or with any length from its minimum up to 8, decodes to the same value; without a length the signed and unsigned encodings use the fewest bytes (at least one) that decode to the value. '
  'A value outside the range, a negative value for an unsigned element, or a length too short for the value is refused, never truncated. '
  'Any payload of 0 to 8 bytes decodes to its big-endian two\'s-complement (signed) or plain (unsigned) value, an empty payload meaning zero.',
  ['inputs'],
  'every 64-bit value, every requested length, every payload of 0..8 bytes',
  'Tests sample values; sign-bit boundaries at each byte width, padding direction, and refusal at each width are individually easy to get wrong.',
  [ENC, DEC, CORE],
  [('integer encoding', ENC+': encodeInt, encodeUInt'), ('integer decoding', DEC+': readInt, readUInt'), ('element binding', CORE+': IntegerElement, UIntegerElement')],
  [], ['encoding.encodeInt', 'encoding.encodeUInt', 'decoding.readInt', 'decoding.readUInt', 'IntegerElement.value', 'UIntegerElement.value'])

p('C06', 'Floating-point and date payloads keep their value bit for bit',
  'Every floating-point number, infinities and NaN included, encoded in 8 bytes decodes to the same double, and encoded in 4 bytes decodes to the nearest single-precision number or is refused when it overflows; zero without a length encodes as an empty payload, which decodes as 0.0, and payloads of any other length are refused when written and when read. '
  'Every date-time representable as a 64-bit count of nanoseconds since 2001-01-01 decodes to the same microsecond it was encoded from, including dates before 2001, and sub-microsecond nanoseconds are rounded down. '
  'Date payloads of any length other than 8 bytes are refused when written and when read.',
  ['inputs'],
  'every double bit pattern, every single-precision bit pattern, every requested length, every representable date-time, every 8-byte date payload within the calendar',
  'Tests sample a few floats and dates; rounding, subnormals, signed zero, dates before the epoch and lengths are only reachable systematically.',
  [ENC, DEC, CORE],
  [('float codec', ENC+': encodeFloat; '+DEC+': readFloat'), ('date codec', ENC+': encodeDate; '+DEC+': readDate')],
  [], ['encoding.encodeFloat', 'decoding.readFloat', 'encoding.encodeDate', 'decoding.readDate', 'FloatElement.value', 'DateElement.value'])

p('C07', 'Text and binary payloads are preserved, padded and cut exactly as documented',
  'Binary data is stored verbatim and read back verbatim, printable ASCII text in a string element and any NUL-free Unicode text in a UTF-8 element read back unchanged, and a character a string element cannot hold is stored as a question mark in its place. '
  'With an explicit length the payload has exactly that many bytes: shorter data is padded on the right with NUL bytes, longer text is cut to the length, and longer binary data is refused. '
  'Text read from a payload ends at its first NUL byte, and NUL padding never shows up in the text.',
  ['inputs'],
  'every text, every byte string, every requested or schema-declared length, every payload bytes',
  'Tests use short literals; the alphabet, multi-byte characters at the cut, embedded NULs and every length relation are unbounded.',
  [ENC, DEC, CORE],
  [('text and binary encoding', ENC+': encodeString, encodeUnicode, encodeBinary'), ('text decoding', DEC+': readString, readUnicode'), ('declared length', CORE+': Element.encode, Schema.addElement')],
  [], ['encoding.encodeString', 'encoding.encodeUnicode', 'encoding.encodeBinary', 'decoding.readString', 'decoding.readUnicode', 'Element.value'])

p('C08', 'A container of unknown size reads exactly like the same container of known size',
  'A document in which any containers (nested ones, the last one in the file, empty ones) are written with the unknown size reads as the same elements with the same children, values, order and computed sizes as the document with explicit sizes, whenever the element that follows each such container cannot be its child according to the schema. '
  'Such a container ends exactly before the first element that is neither a declared child nor a global element (a container type without declared children has none), or at the end of the data, and the elements after it are reported at the right place and level. '
  'The result is the same whichever of size, length, children or following siblings is asked for first.',
  ['inputs', 'histories'],
  'every document, every subset of its containers written with unknown size (any marker width), every order of queries on them',
  'The test-suite covers one or two hand-made infinite elements; nesting, global elements, trailing position and query order multiply.',
  [CORE, DEC, ENC],
  [('size discovery', CORE+': MasterElement.size, MasterElement._isValidChild'), ('iteration', CORE+': MasterElement.__iter__, __len__')],
  [('discovered size', 'cached size and child count of an unknown-size container', CORE+': MasterElement._size/_length')],
  ['MasterElement.size', 'len()', 'MasterElement.__iter__', 'Document.__iter__', 'MasterElement.encode with infinite'])

p('C09', 'Elements the schema does not know, and padding, are opaque and harmless',
  'An element whose ID is not in the schema is reported at its place as an unknown element with its own ID, position, size and exact payload bytes, and a padding (Void) element is reported with its size and raw content but an empty value. '
  'Inserting, removing or changing the content of such elements between other elements of the document or of containers of explicit size never changes the identities, values, nesting or order of the other elements, whatever bytes the payload contains, even bytes that look like elements. '
  'Many unknown elements with different IDs in the same document keep their own IDs and contents independently of each other. '
  'A handler a caller substitutes for unknown elements (Schema.UNKNOWN) makes every one of them, and nothing else.',
  ['inputs'],
  'every document, every position, every unknown ID of every width, every payload',
  'Tests include one unknown element; independence for all positions, payloads and neighbours is a quantified statement.',
  [CORE],
  [('fallback for unknown IDs', CORE+': MasterElement.parseElement, UnknownElement'), ('padding', CORE+': VoidElement, Schema.__init__')],
  [], ['UnknownElement.id', 'UnknownElement.value', 'VoidElement.value', 'Element.getRawValue', 'MasterElement.__iter__'])

p('C10', 'A file cut at any byte still yields everything before the cut, and stops',
  'For a well-formed document cut after any number of bytes, reading terminates and reports every element that lies completely before the cut with the same identity, nesting, position, size and value as in the complete document. '
  'After them, each level yields at most one further element, the one containing the cut, and then either ends or raises an error; it never invents further elements and never repeats any. '
  'This includes cuts inside an ID, inside a size, inside a payload, and inside containers of known or unknown size.',
  ['inputs', 'crash_points'],
  'every well-formed document, every cut position (the crash point of the writer)',
  'No test truncates files at every byte; the result depends on which of ID, size, payload, or nesting level is cut.',
  [CORE, DEC],
  [('end-of-data handling', CORE+': MasterElement.__iter__, Document.__iter__, MasterElement.size'), ('header reads at end of data', DEC+': readElementID, readElementSize')],
  [], ['Document.__iter__', 'MasterElement.__iter__', 'Element.value'])

p('C11', 'What a document says does not depend on the order or repetition of access',
  'On an unchanged stream, any sequence of iterating (completely, partially, or several iterators interleaved), indexing, taking lengths, reading values and raw bytes, dumping, and clearing caches at any level returns at each step the same results as doing only that step on a freshly opened document. '
  'Once read, a value is not read again until its cache is cleared; after clearing, it is read from the stream again, and the number returned by clearing is the number of cached values that were dropped. '
  'Elements obtained earlier stay usable and correct after any other access to the document.',
  ['histories'],
  'every document and every finite sequence of accesses through its public interface',
  'Tests access elements once in document order; bugs here need interleavings of two iterators, cache clears and moved stream positions.',
  [CORE],
  [('lazy values', CORE+': Element.value, MasterElement.value, Element.gc, MasterElement.gc'), ('stream positioning', CORE+': MasterElement.__iter__, Document.__iter__, Document.__getitem__')],
  [('cached value', 'payload already read for an element', CORE+': Element._value'), ('cached length/size', 'child count and discovered size', CORE+': MasterElement._length/_size'), ('stream position', 'shared file position', 'Element.stream')],
  ['Element.value', 'Element.gc', 'Document.__getitem__', 'MasterElement.__getitem__', 'len()', 'Element.dump', 'Element.getRaw'])

p('C12', 'Reading is lazy: payloads are touched only when asked for, and only their own',
  'Opening a document and walking its structure reads only element headers and the payloads of elements marked for pre-reading (numbers and dates unless the schema says otherwise); the payload of a text, binary, unknown or padding element, and of any element whose schema disables pre-reading, is not read until its value is requested. '
  'Walking the top level does not descend into containers of known size. '
  'Reading one element\'s value or raw bytes reads no byte outside that element. (Opening may read all of a leading EBML header; finding the end of a container of unknown size may read the headers up to and including the one that ends it.)',
  ['inputs', 'histories'],
  'every document, every schema pre-read setting, every sequence of structural accesses and value reads',
  'Tests never observe which bytes are read; laziness is what makes huge files usable and is invisible in results.',
  [CORE],
  [('pre-read decision', CORE+': MasterElement.parseElement (precache, nocache), Schema.addElement'), ('lazy read', CORE+': Element.value')],
  [('byte ranges read', 'what was requested from the stream', 'wrapper around the stream handed to Schema.load')],
  ['stream.read/seek calls', 'Document.__iter__', 'MasterElement.__iter__', 'Element.value', 'Element.getRawValue'])

p('C13', 'Documents honour their source: headers, start position, ownership, metadata',
  'A document may be opened from a path (string or path object), an open file, an in-memory stream or any object that can read, tell and seek, and reads identically from all of them, starting at the stream\'s current position. '
  'The contents of a leading EBML header are always available as the document\'s information, document type and version; the header appears among the root elements exactly when requested, and a document without a header, or empty, opens with empty information and all of its elements. '
  'Closing a document, directly or by leaving its context, closes a file the document opened itself and never a stream supplied by the caller; an object that is no stream is refused.',
  ['inputs', 'configurations', 'histories'],
  'every kind of source, every start position, header options, documents with, without or with partial headers, every sequence of open, use and close',
  'Tests open sample files by name; combinations of source kind, header option and start offset are not sampled.',
  [CORE],
  [('document construction', CORE+': Document.__init__'), ('header information', CORE+': Document.info/type/version'), ('ownership', CORE+': Document.close, __enter__, __exit__'), ('entry points', CORE+': Schema.load, Schema.loads, Schema.__call__')],
  [('ownership of the stream', 'whether close() closes it', CORE+': Document._ownsStream'), ('header position', 'where root elements begin', CORE+': Document.payloadOffset')],
  ['Schema.load', 'Schema.loads', 'Document.info', 'Document.type', 'Document.version', 'Document.close', 'stream.closed'])

p('C14', 'Threads sharing one thread-aware file never disturb each other',
  'When several threads use the reading and positioning methods of the same thread-aware file (or of what entering its context gives), or parse documents from it, every operation of every thread returns exactly what it would return if that thread alone had its own freshly opened file. '
  'This holds for every interleaving of the threads, including while other threads open, close or clean up their own streams. '
  'No operation fails because of what another thread does to its own stream.',
  ['schedules', 'histories'],
  'every set of per-thread operation sequences and every interleaving of them',
  'The tests start a few threads and hope; the interleavings that matter (two first accesses, close during another thread\'s first access) are rarely scheduled by chance.',
  [TF],
  [('per-thread streams', TF+': ThreadAwareFile.getThreadStream'), ('housekeeping', TF+': cleanup, close, closeAll')],
  [('stream table', 'map from thread to its own open stream', TF+': ThreadAwareFile.threads')],
  ['ThreadAwareFile.read', 'seek', 'tell', 'readline(s)', 'iteration', 'close', 'Schema.load over a ThreadAwareFile'])

p('C15', 'A thread-aware file is read-only and closes exactly what it says',
  'A thread-aware file refuses every mode that could write, however the mode is given, without touching the file, and refuses write, writelines and truncate, so the file\'s contents never change. '
  'Closing it, or leaving its context, ends only the calling thread\'s stream: that thread then sees it closed, other threads keep reading from where they were, and closing does not fail; closing all ends every thread\'s stream, also while other threads are opening and reading theirs. '
  'Wrapping an already open file hands that same stream (with its position) to the wrapping thread and gives every other thread its own; wrapping a wrapped file returns it, and wrapping a non-file is refused.',
  ['histories', 'configurations', 'schedules'],
  'every mode in every calling form, every history of open, wrap, read, write attempts, close, close-all and clean-up across threads',
  'Tests open with one mode positionally and barely close; the mode forms and close histories across threads are combinatorial.',
  [TF],
  [('mode check', TF+': ThreadAwareFile.__init__'), ('closing', TF+': close, closeAll, cleanup, closed'), ('wrapping', TF+': makeThreadAware')],
  [('stream table', 'open and closed streams per thread', TF+': ThreadAwareFile.threads')],
  ['ThreadAwareFile()', 'makeThreadAware', 'close', 'closeAll', 'closed', 'write', 'writelines', 'truncate', 'file contents'])

p('C16', 'A schema file means what it says: types, options, children, reuse, conflicts',
  'Loading a schema definition yields exactly the elements it defines, reachable by name and by ID, each with the defined type, repeatability, mandatory flag, pre-read setting, fixed length and default, the defined parent/child relation and global elements; unspecified options take the documented defaults, and the older flat schema format gives the same elements. '
  'Mentioning an already defined element again, by ID and/or name, adds it as a child of the new parent without changing it, while a redefinition with different attributes or a different type is refused, as are definitions without ID or name, with an invalid name, or of an unknown type. '
  'The schema\'s name, version and document type follow its defaults, and two schemas are equal exactly when their element definitions match.',
  ['inputs', 'configurations'],
  'every schema definition (elements, attributes, nesting, repeated mentions, order of mentions), in both schema formats',
  'Tests load the bundled schemas; sharing, recursion, conflicting attributes and option spellings are not enumerated.',
  [CORE],
  [('schema parsing', CORE+': Schema.__init__, _parseSchema, _parseLegacySchema'), ('element definition and reuse', CORE+': Schema.addElement'), ('lookup', CORE+': Schema.__getitem__, __contains__, get, __eq__')],
  [('element tables', 'definitions by ID and by name, raw attributes, globals, children', CORE+': Schema.elements/elementsByName/elementInfo/globals/children')],
  ['parseSchema', 'loadSchema', 'Schema.elements', 'Schema.elementsByName', 'Schema.children', 'Schema.globals', 'Schema.version', 'Schema.type', 'Schema.name'])

p('C17', 'Schema loading is cached, reloadable, and a failure leaves no trace',
  'Loading a schema again by the same file or the same name, without asking for a reload, returns the very same schema object as the last successful load under it, whichever of the file\'s names (short, relative or absolute) was used and even if the file has changed since. '
  'Asking for a reload always yields a new schema reflecting the current definition, which later loads under that name return, while schemas and documents obtained earlier keep working unchanged. '
  'A load that fails (missing file, malformed or conflicting definition) raises an error, registers nothing and leaves every previously loaded schema as it was.',
  ['histories', 'fault_sequences'],
  'every sequence of loading, re-loading, defining by text under a name, editing and removing schema files, and failing loads',
  'Tests load and reload once; aliasing between names, reload after edits, and failures in the middle need histories.',
  [CORE],
  [('registry', CORE+': loadSchema, parseSchema, SCHEMATA')],
  [('registry', 'schema object per name and per absolute path', CORE+': SCHEMATA')],
  ['loadSchema', 'parseSchema', 'ebmlite.core.SCHEMATA'])

p('C18', 'Schema search honours the path order, and the listing agrees with loading',
  'A bare schema file name is looked up in the current directory and then in the search path entries in order (plain directories, modules in braces with or without a sub-directory), and the first one found is loaded; entries that do not exist are skipped, a name not found anywhere raises an error, and a caller-supplied list of paths replaces the default one. '
  'Listing schemas over the same paths reports for each file name exactly the schema files found there, in search order and nothing that is not a schema definition, so that when the current directory does not itself hold the file the first listed is the one that loads. '
  'Paths named by the EBMLITE_SCHEMA_PATH environment variable when the library is first imported come after the default ones, in their order. '
  'Neither looking up, listing nor printing changes the search path or the lists passed in.',
  ['configurations', 'histories'],
  'every assignment of files (schema, other XML, broken XML, absent) to directories and modules, every search path over them, every current directory',
  'Tests list the bundled directory only; precedence, missing entries and module notation are not combined.',
  [CORE, UT],
  [('path expansion', CORE+': _expandSchemaPath'), ('search', CORE+': loadSchema'), ('listing', CORE+': listSchemata; '+UT+': printSchemata')],
  [('search path', 'ordered list of directories and modules', CORE+': SCHEMA_PATH')],
  ['loadSchema', 'listSchemata', 'printSchemata', 'ebmlite.core.SCHEMA_PATH'])

p('C19', 'EBML to XML and back preserves every element and value',
  'Converting any document (its header included) to XML and back with the same schema gives a document with the same elements, nesting, order and values, for every element type (numbers including infinities and NaN, dates, any text that its element can hold and XML can carry, binary data, elements unknown to the schema) and every binary text encoding that keeps the data. '
  'This holds whether or not offsets, sizes, types and IDs are included in the XML (IDs being needed for unknown elements), through an XML file as well as in memory, and with containers of any size. '
  'Padding elements survive as padding of the same size when sizes are included, and the conversions modify neither the source document nor later conversions.',
  ['inputs', 'configurations'],
  'every document whose text XML can represent, every combination of conversion options and binary encodings',
  'Tests convert three sample files and compare some fields; most value types, special values and option combinations are not in them.',
  [UT, XC, CORE],
  [('to XML', UT+': toXml'), ('from XML', UT+': xmlElement2ebml, xml2ebml, loadXml'), ('binary text', XC+': Base64Codec, HexCodec')],
  [], ['util.toXml', 'util.xml2ebml', 'util.loadXml'])

p('C20', 'XML to EBML writes exactly what the XML says and reports the true size',
  'For any XML whose elements the schema defines (or unknown ones carrying an ID, when allowed), the written EBML parses back as exactly those elements in that order, comments ignored, every container\'s size matching its content, and the returned number equals the bytes written. '
  'A requested size-descriptor width, per element or as a default for containers, is honoured exactly or the conversion is refused; the default document header is added exactly when requested and absent from the XML; unknown elements without an ID, or when not allowed at any depth, are refused. '
  'Output starts at the stream\'s current position and leaves the bytes before it untouched, and one conversion never influences later parsing or conversions.',
  ['inputs', 'configurations', 'histories'],
  'every XML tree over the schema, every combination of width attributes, defaults, header and unknown options, every start position',
  'Tests convert XML produced by the library itself; width options, overflow at a width, unknown elements at depth and start offsets are absent.',
  [UT, ENC],
  [('recursive writer', UT+': xmlElement2ebml'), ('document writer', UT+': xml2ebml')],
  [('size patching', 'container size written after its children', UT+': xmlElement2ebml')],
  ['util.xml2ebml', 'util.xmlElement2ebml', 'output stream'])

p('C21', 'Binary text encodings are lossless under every layout option',
  'Data encoded as base64 or hexadecimal text with any column count (including none), word width, offset column, starting offset and indentation decodes to the same bytes, as does the same text re-indented or re-wrapped between words. '
  'The layout is what was asked for: every line but the last carries exactly the requested columns and the last no more, a column count of zero or none gives one unbroken line, hexadecimal words have the requested width except where a line or the data ends, every line is indented, and offset columns show the running offset. '
  'Encoding or decoding to a stream writes exactly what the returned form contains and returns the number of characters or bytes written, and the ignoring encoding produces nothing.',
  ['inputs', 'configurations'],
  'every byte string, every option combination, returned or streamed',
  'Tests use one sample and two layouts; boundaries of length modulo columns, widths and empty data are where encoders break.',
  [XC],
  [('base64', XC+': Base64Codec'), ('hexadecimal', XC+': HexCodec'), ('ignore', XC+': IgnoreCodec')],
  [], ['Base64Codec.encode/decode', 'HexCodec.encode/decode', 'IgnoreCodec.encode/decode'])

p('C22', 'All views of a document agree',
  'For any document, direct iteration, indexing, length, the cached list of children, flat iteration, the nested-dictionary dump, the XML form and the printed listing all describe the same elements with the same values in the same order, and the same holds for the views of a single element and its part of the document. '
  'The XML form and the listing carry exactly the details (offsets, sizes, types, IDs, values, encodings of binary data) asked for, for elements at every depth. '
  'Containers are indexed like lists: from either end and by slices, with an error beyond the ends. '
  'Flat iteration without a depth limit yields every element exactly once, parents before children in document order, and with a depth limit exactly those down to that depth. '
  'The dump groups repeatable elements into lists in order and holds the last value of others; the listing shows every element once with its own offset, size, ID and value, and child counts equal to the number of children.',
  ['inputs', 'histories'],
  'every document and schema, every depth limit, every printing and conversion option',
  'Tests compare golden files for two documents; the views are separate traversals that can diverge on nesting, repetition or emptiness.',
  [UT, CORE],
  [('flat iteration', UT+': flatiter'), ('listing', UT+': pprint'), ('dump', CORE+': MasterElement.dump'), ('XML', UT+': toXml'), ('indexing and length', CORE+': Document.__getitem__, __len__, MasterElement.__getitem__, __len__')],
  [], ['util.flatiter', 'util.pprint', 'util.toXml', 'MasterElement.dump', 'Document.__getitem__', 'len()'])

p('C23', 'Encoding is faithful or refuses: nothing is written that says something else',
  'An element name or ID absent from the schema, several values for an element that is not repeatable, a value of the wrong type, an unencodable number, a length or size width that cannot hold the value, and the unknown size on a non-container are refused with an error. '
  'Whenever encoding succeeds, the bytes are well-formed EBML whose declared sizes equal the actual payload sizes, an explicitly requested payload length or size width is exactly the one present, and they read back as the given value in its documented representation. '
  'Containers requested with unknown size carry the unknown-size marker and the same children. '
  'When encoding to a stream is refused, what has reached the stream consists of complete top-level elements of the data.',
  ['inputs', 'configurations'],
  'every data structure (valid or not), every schema, every explicit length and width, known or unknown size',
  'Tests check a few refusals; combinations of type, explicit length and width, and container form are not enumerated.',
  [CORE, ENC],
  [('element encoding', CORE+': Element.encode, MasterElement.encode, MasterElement.encodePayload'), ('value encoders', ENC)],
  [], ['Element.encode', 'MasterElement.encode', 'Schema.encodes', 'exceptions raised'])

p('C24', 'The command-line tools match the library and never destroy existing files',
  'Converting EBML to XML, XML to EBML, viewing a file and listing schemas from the command line produce exactly what the library calls produce for the same input, schema and options, whether written to a file or to standard output. '
  'The converters and the viewer leave an existing output file byte for byte untouched unless overwriting is requested, and then it is completely replaced; a missing input or unknown schema ends with a non-zero status and creates or changes no file. '
  'Success ends with status zero, and inputs are never modified.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'every tool, every option combination, every state of the input and output files, every sequence of invocations',
  'Tests run each tool once on fresh outputs; refusals, overwriting, standard output and option combinations are not covered.',
  [TOOLS+'utils.py', TOOLS+'ebml2xml.py', TOOLS+'xml2ebml.py', TOOLS+'view_ebml.py', TOOLS+'list_schemata.py'],
  [('file handling', TOOLS+'utils.py: load_files'), ('tools', TOOLS+'*.py: main')],
  [('output file', 'absent, existing, written', 'file system')],
  ['exit status', 'output file contents', 'standard output', 'input file contents'])

p('C25', 'Documents, schemas and conversions in one process do not influence each other',
  'With any number of documents, schemas and conversions used alternately in one process, each gives the results it gives alone in a fresh process, including documents of different schemas that define the same IDs or names differently. '
  'Failed operations, conversions of unknown elements, reloads of a schema, and reading or clearing another document leave existing documents, schemas, element definitions, search path and codec tables unchanged. '
  'Data structures passed in for encoding or conversion are not modified.',
  ['histories', 'programs'],
  'every interleaving of operations on several documents and schemas in one process',
  'Tests run in one process but never compare against a fresh one; leaks through class-level state appear only after particular histories.',
  [CORE, UT, ENC, DEC, XC],
  [('per-schema element classes', CORE+': Schema.addElement, Schema.__init__'), ('unknown elements', CORE+': UnknownElement; '+UT+': xmlElement2ebml'), ('process-wide tables', CORE+': SCHEMATA, SCHEMA_PATH; '+XC+': BINARY_CODECS')],
  [('class-level state', 'attributes of shared classes', CORE+': Element subclasses'), ('registries', 'process-wide tables', CORE+': SCHEMATA, SCHEMA_PATH')],
  ['all public operations', 'fresh-process reference results'])

p('C26', 'Verification accepts exactly the data the schema fully explains',
  'Verifying bytes against a schema succeeds exactly when every element down to the deepest level is known to the schema and every payload can be decoded as its type. '
  'An unknown element at any depth, an undecodable payload, or an invalid element header anywhere raises an error. '
  'Whatever the library itself encodes with a schema is accepted by that schema.',
  ['inputs'],
  'every byte string (well-formed documents, documents with unknown elements at any depth, corrupted payloads and headers) and every schema',
  'Tests verify one good and one bad example; the quantifier is over depth, position and kind of defect.',
  [CORE],
  [('recursive check', CORE+': Schema.verify')],
  [], ['Schema.verify'])

p('C27', 'Arbitrary bytes never hang, misplace or silently drop data',
  'Reading any byte string whatsoever as a document terminates, with every reported element starting exactly where its predecessor (or its container\'s payload) says, positions strictly increasing, and every header reported being the one present at that position. '
  'Everything up to the first malformed element header (or undecodable pre-read payload) is reported exactly as in the well-formed prefix. '
  'A byte that cannot begin an element ID, and an unknown size on an element that is not a container, raise an error when reached instead of being skipped or ending the document as if it were complete.',
  ['inputs', 'fault_sequences'],
  'every byte string, every schema, including corruptions of well-formed documents by any single or multiple byte changes',
  'Tests feed well-formed files; the behaviour on every corruption is a universally quantified safety statement.',
  [CORE, DEC],
  [('header decoding', DEC+': readElementID, readElementSize, decodeIDLength'), ('iteration', CORE+': MasterElement.__iter__, Document.__iter__, MasterElement.size')],
  [], ['Document.__iter__', 'MasterElement.__iter__', 'exceptions raised'])

p('C28', 'Read and write failures are reported and leave no trace',
  'When the underlying stream fails while it is read (or has been closed), the access that needed it raises an error instead of ending early or returning less, values already read stay available, and once the stream works again every access gives what it would have given without the failure (opening a document may put off the error). '
  'The same goes for conversions, listings, schema loading, and a thread-aware file that cannot be opened by a further thread for a while. '
  'When the output of an encoding, conversion, listing or command fails, that is reported as an error (non-zero status), never as success, and doing it again on a working stream writes the complete result.',
  ['fault_sequences', 'histories'],
  'every history of accesses and conversions with a failure of any call of the stream in it, once or lasting',
  'Tests never let a stream fail; each call of the stream in each operation is a place for a failure, and its consequences show only in later accesses.',
  [CORE, UT, XC, TF, 'ebmlite/tools'],
  [('reading', CORE+': Element.value, MasterElement.size, MasterElement.__iter__, Document.__iter__'), ('writing', CORE+': Document.encode; '+UT+': xml2ebml, pprint, printSchemata; '+XC), ('commands', 'ebmlite/tools')],
  [('cached values', 'values, lengths and sizes of element objects', CORE+': Element._value, MasterElement._length, MasterElement._size'), ('registry', 'loaded schemas', CORE+': SCHEMATA')],
  ['all element accesses', 'exceptions raised', 'exit status of the command-line tools'])

p('C29', 'Equality of elements and schemas means what it says, in both directions',
  'Two element objects compare equal exactly when they are the same object, or are both unknown with the same ID and payload (wherever they are), or have the same ID, offset, size and equal schemas and, unless they are binary, padding or containers, the same value (0.0 equals -0.0; NaN is left open). '
  'Schemas are equal when they define the same elements (same names, IDs, types and attributes), whichever objects they are. '
  'Comparing with anything else is False without an error, inequality is the negation, and what has been read, cached or cleared before makes no difference. Two different document objects are not covered.',
  ['inputs', 'histories'],
  'every pair of elements of every two documents, read with the same, a reloaded or a slightly different schema',
  'Tests compare a few hand-made elements; equality must be an equivalence over all kinds of elements, positions, schemas and cache states.',
  [CORE],
  [('element equality', CORE+': Element.__eq__, IntegerElement.__eq__, FloatElement.__eq__, StringElement.__eq__, UnknownElement.__eq__'), ('schema equality', CORE+': Schema.__eq__')],
  [], ['==', '!='])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=True) + '\n')
    print(len(P), 'properties')
