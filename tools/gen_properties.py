#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here so that the text is easy to
edit); run it to rewrite the file."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe), 'hook_needed': None}})


B = 'src/hwp5/'

prop('R01', 'Record headers use the 10/10/12-bit HWP layout in both directions',
     '''Decoding a record header takes the tag from bits 0-9, the level from
     bits 10-19 and the size from bits 20-31 of one little-endian 32-bit word,
     and reads a second 32-bit word for the size exactly when the 12-bit size
     is 0xfff. Encoding writes the same layout, with the extended size word
     exactly when the payload is 0xfff bytes or longer.''',
     ['inputs'], 'every header word and every payload length',
     '''The tests decode a handful of fixture records and two encoded ones; no
     fixture has a payload near 4095 bytes in the encoder, nor tag and level
     values that use all their bits.''',
     [B + 'recordstream.py'],
     [('header decoder', B + 'recordstream.py decode_record_header'),
      ('header encoder', B + 'recordstream.py encode_record_header')],
     ['read_record / dump_record'])

prop('R02', 'Record streams are framed exactly by their headers',
     '''Every record read from a stream carries exactly the number of payload
     bytes its header announces, records follow each other with consecutive
     sequence numbers starting at 0, and reading stops only at a clean end of
     the stream. A stream that ends inside a record is reported as an error
     and never yields a short record; a record with an empty payload is a
     record like any other.''',
     ['inputs', 'fault_sequences'], 'every byte stream, including truncated ones',
     '''Fixtures contain only whole records with non-empty payloads; truncation
     at each byte position and empty payloads are not sampled.''',
     [B + 'recordstream.py', B + 'dataio.py'],
     [('payload read', B + 'recordstream.py read_record'),
      ('stream loop', B + 'recordstream.py read_records'),
      ('exact read', B + 'dataio.py readn'),
      ('record writer', B + 'recordstream.py dump_record')])

prop('R03', 'Record tag numbers and the models they select follow the format',
     '''Every tag number has the name and value the HWP 5.0 format assigns to
     it, no two names share a number, and each record tag selects one single
     record model whose tag number is a known one.''',
     ['inputs', 'programs'], 'every tag number a file may contain',
     '''Fixtures use a subset of the tags; a renumbered or doubly claimed tag
     which no fixture contains passes every test.''',
     [B + 'tagids.py', B + 'binmodel/_shared.py', B + 'binmodel/__init__.py'],
     [('tag table', B + 'tagids.py tagnames'),
      ('model registry', B + 'binmodel/_shared.py tag_models')])

prop('R04', 'Record models read the members the file format lays down',
     '''For every record and structure, the members are read in the order, with
     the widths, signedness, byte order, element counts, version gates and
     presence conditions which the HWP 5.0 format lays down for them.''',
     ['inputs', 'configurations'], 'every record of every file of every format version',
     '''A wrong width, order or version gate only shows in a file that carries
     the record in the affected version; the fixtures cover one or two
     versions and a fraction of the records.''',
     [B + 'binmodel/', B + 'filestructure.py', B + 'msoleprops.py',
      B + 'dataio.py'],
     [('member lists', B + 'binmodel/*.py attributes()'),
      ('primitive formats', B + 'dataio.py Primitive'),
      ('version gates', 'member version tuples')])

prop('R05', 'Bit fields and enumerations decode the bits the format assigns',
     '''Every bit field of a flags word covers exactly the bit range the format
     assigns to it, lies inside the word and overlaps no sibling, its mask
     keeps exactly those bits, and every enumeration maps each raw value to
     the one name the format gives it.''',
     ['inputs'], 'every raw flag word and enum value',
     '''Tests check a few fields of a few words; a field shifted by one bit or
     a swapped enum value is invisible unless a fixture has these bits set.''',
     [B + 'dataio.py', B + 'binmodel/'],
     [('bit field descriptor', B + 'dataio.py BitGroupDescriptor'),
      ('flags syntax', B + 'dataio.py _parse_flags_args'),
      ('enumerations', B + 'dataio.py EnumType')])

prop('R06', 'A member depends only on members that were read before it',
     '''Whenever the presence, element count or variant of a member is computed
     from other members, these were read earlier in the same record (or in
     its parent record), under every format version and condition under which
     the dependent member is read, and have the flag that is looked at.''',
     ['inputs', 'configurations'], 'every combination of version and flag values',
     '''A forward or version-dependent reference raises only for the flag and
     version combination that reaches it.''',
     [B + 'binmodel/', B + 'bintype.py', B + 'dataio.py'],
     [('references', B + 'dataio.py ref_member, ref_member_flag'),
      ('conditions', 'condition functions of the record models')])

prop('R07', 'Members are gated by the version of the document being read',
     '''A member introduced in a given format version is read exactly when the
     version in the file header is that version or a later one, and the
     version used for every record of a document is the one of its own file
     header, also when several documents of different versions are read in
     one process.''',
     ['inputs', 'configurations', 'histories'], 'every document version and every order of reading documents',
     '''Tests read one document per process with the fixture's version; a
     version lost on one path or a cache shared between versions stays
     unnoticed.''',
     [B + 'bintype.py', B + 'binmodel/__init__.py', B + 'filestructure.py',
      B + 'recordstream.py', B + 'xmlmodel.py'],
     [('version filter', B + 'bintype.py filter_with_version'),
      ('compiled definition cache', B + 'bintype.py versioned_typedefs'),
      ('context construction', B + 'binmodel/__init__.py')])

prop('R08', 'Control, list-header and control-data records resolve unambiguously',
     '''Every control id, every (parent, position) pair of a list header and
     every parent of a control-data record selects at most one model, the
     selection key is computed in the form under which models are registered,
     and ids without a model fall back to the generic model.''',
     ['inputs'], 'every control id and parent a file may contain',
     '''Fixtures contain few control types and no unknown ones.''',
     [B + 'binmodel/'],
     [('registries', 'control_models, list_header_models, control_data_models'),
      ('resolution', B + 'binmodel/__init__.py resolve_model_events')])

prop('R09', 'A damaged record surfaces as a parse error that names its place',
     '''Whatever goes wrong while a record payload is decoded - data missing in
     any kind of member, an undecodable value - reaches the caller as the one
     parse-error exception of the package, carrying the cause, the stream
     path, the record and the byte offset; no decoding failure is swallowed
     and none escapes as another exception from the reporting machinery.''',
     ['inputs', 'fault_sequences'], 'every truncation and corruption of every member',
     '''The tests provoke one parse error in one member type.''',
     [B + 'bintype.py', B + 'binmodel/__init__.py', B + 'dataio.py'],
     [('error conversion', B + 'bintype.py read_type_events'),
      ('event pipeline', B + 'bintype.py resolve_values_from_stream'),
      ('model parsing', B + 'binmodel/__init__.py parse_model')])

prop('R10', 'Every command reports failure by its exit status',
     '''When a command line tool cannot do what it was asked - not an HWP file,
     a parse error, a failing conversion - it terminates with a non-zero exit
     status and writes the reason to standard error or the log; it exits with
     status 0 only after the requested output was produced.''',
     ['inputs', 'fault_sequences'], 'every failing input and subcommand',
     '''The command line tests run successful conversions and one invalid
     file.''',
     [B + 'hwp5proc.py', B + 'hwp5odt.py', B + 'hwp5html.py',
      B + 'hwp5txt.py', B + 'proc/'],
     [('error handlers', 'main() of each command')])

prop('S01', 'Only valid HWP v5 containers are opened as documents',
     '''A document object is only ever constructed over an OLE container that
     has a file header stream whose signature is exactly the HWP v5
     signature; anything else is refused with the package's invalid-file
     error, raised before any other part of the container is interpreted.''',
     ['inputs'], 'every input file',
     'Tests try one or two invalid files.',
     [B + 'filestructure.py', B + 'storage/ole.py', B + 'plat/'],
     [('validity check', B + 'filestructure.py Hwp5FileBase.__init__'),
      ('signature test', B + 'filestructure.py storage_is_hwp5file')])

prop('S02', 'Streams are unwrapped exactly as the file header flags say',
     '''Password-protected documents are passed through untouched; otherwise
     the scripts and view-text streams of distribution documents are
     decrypted, and after that the body text, view text, binary data, document
     info and script streams of compressed documents are inflated, in this
     order and only when the respective header flag is set. Every other
     stream is delivered byte for byte, and the text of a distribution
     document is taken from the view text, of any other from the body
     text.''',
     ['inputs', 'configurations'], 'every combination of the three header flags and every stream name',
     '''Fixtures cover a few flag combinations; not all streams are compared
     in each.''',
     [B + 'filestructure.py'],
     [('layer composition', B + 'filestructure.py Hwp5File.__init__'),
      ('per-name conversion', B + 'filestructure.py resolve_conversion_for')])

prop('S03', 'Distribution streams are decrypted with the prescribed key schedule',
     '''The 256-byte head record of a distribution stream is unmasked with the
     prescribed 32-bit linear congruential generator seeded by its first four
     bytes, the AES-128 key is the 16 bytes found at the seed-dependent offset,
     and the rest of the stream is decrypted with it in ECB mode, whatever
     cryptography backend is in use; a head of any other size is refused.''',
     ['inputs', 'configurations'], 'every seed, key and backend',
     'One fixture document, one seed and one backend are tested.',
     [B + 'distdoc.py', B + 'plat/__init__.py'],
     [('generator and unmasking', B + 'distdoc.py'),
      ('backends', B + 'plat/__init__.py get_aes128ecb_decrypt')])

prop('S04', 'Compressed streams are raw deflate data, complete in both directions',
     '''All compressed streams of a document are inflated as raw deflate data
     without a zlib header, by every reader in the package, and the reader
     delivers all the data, including what the decompressor still holds at the
     end of its input.''',
     ['inputs'], 'every compressed stream of any length',
     'Fixture streams are small; most fit a single read.',
     [B + 'compressed.py', B + 'zlib_raw_codec.py', B + 'proc/rawunz.py'],
     [('window bits', B + 'compressed.py, zlib_raw_codec.py'),
      ('final flush', B + 'zlib_raw_codec.py')])

prop('S05', 'All storages honour one container protocol',
     '''In every storage, looking up a name that iteration delivers succeeds
     and looking up a missing name raises KeyError; wrapping layers neither
     hide nor invent names of the storage they wrap, and every item is either
     a storage or a stream that can be opened from its beginning any number of
     times.''',
     ['inputs', 'histories', 'configurations'], 'every container and every backend',
     '''Each backend is tested with one container and known names.''',
     [B + 'storage/', B + 'plat/olefileio.py', B + 'plat/gir_gsf.py',
      B + 'plat/jython_poifs.py', B + 'filestructure.py'],
     [('wrappers', B + 'storage/__init__.py'),
      ('backends', B + 'plat/*.py OleStorage')])

prop('S06', 'Unpacking never writes outside the chosen directory',
     '''Extracting a document writes only below the directory given by the
     user: no name stored in the document, whatever it contains, selects a
     path outside of it.''',
     ['inputs'], 'every stream and storage name a crafted file may contain',
     'No fixture has hostile names.',
     [B + 'storage/__init__.py', B + 'proc/unpack.py', B + 'hwp5html.py'],
     [('extraction', B + 'storage/__init__.py unpack')])

prop('S07', 'Temporary files and OS handles are released on every exit',
     '''Every temporary file or directory the package creates is removed, and
     every file, pipe or process handle it opens for its own use is closed,
     on every way out of the operation that made it, errors included, unless
     the handle is handed over to the caller.''',
     ['fault_sequences', 'inputs'], 'every failure point between acquisition and release',
     '''Tests only take the successful path and do not look for leftovers.''',
     [B + 'utils.py', B + 'transforms/', B + 'plat/', B + 'proc/',
      B + 'xmlmodel.py', B + 'hwp5odt.py', B + 'hwp5html.py'],
     [('release', 'try/finally and context managers around acquisitions')])

prop('X01', 'XML output is well-formed for every document content',
     '''Every piece of document content that is written to XML output passes
     through the escaping for the position it is written to, characters that
     XML 1.0 does not allow are removed or replaced, and what is written to a
     byte stream is encoded in the encoding the XML declaration states.''',
     ['inputs'], 'every text a document may contain',
     '''Fixture text contains almost no markup characters and no control
     characters.''',
     [B + 'xmlformat.py', B + 'xmldump_flat.py', B + 'xmlmodel.py'],
     [('serializer', B + 'xmlformat.py'), ('flat dump', B + 'xmldump_flat.py')])

prop('X02', 'Event streams are balanced and properly nested',
     '''Every event stream produced by a model or a transformation of the
     document tree contains, for each start event, exactly one matching end
     event in proper nesting, provided its input does.''',
     ['inputs'], 'every document structure',
     '''Fixtures exercise the common nesting of controls only.''',
     [B + 'treeop.py', B + 'xmlmodel.py', B + 'binmodel/__init__.py',
      B + 'bintype.py', B + 'xmlformat.py'],
     [('generators of events', 'STARTEVENT / ENDEVENT producers')])

prop('X03', 'Tree transformations lose no document content',
     '''Each transformation of the event stream forwards, regroups or replaces
     every event it takes from its input on every path; no event is silently
     dropped or delivered twice, and text that is split keeps every
     character.''',
     ['inputs'], 'every document structure and text',
     '''Fixtures check a few shapes of input and not their completeness.''',
     [B + 'xmlmodel.py', B + 'treeop.py'],
     [('event loops', 'generators of xmlmodel.py')])

prop('X04', 'Output is a function of the document alone',
     '''Converting the same document with the same options twice yields the
     same output: nothing on the way from the file to the XML, text, HTML or
     ODF content depends on the clock, random numbers, process identity,
     hash-order of sets or state left behind by an earlier conversion.''',
     ['histories', 'configurations'], 'every document, run and sequence of conversions',
     '''Tests convert each document once per process and compare with no second
     run.''',
     [B + 'xmlmodel.py', B + 'xmlformat.py', B + 'hwp5odt.py',
      B + 'hwp5html.py', B + 'bintype.py'],
     [('purity', 'conversion pipeline')])

prop('X05', 'Stylesheets address only what the XML model produces',
     '''Every element and attribute name by which the bundled stylesheets
     match or select document XML is one that the XML model can produce, every
     named template, key, parameter or included stylesheet they use exists,
     and the parameters passed from the program are declared by the
     stylesheet.''',
     ['inputs', 'programs'], 'every template and path of every stylesheet',
     '''XSLT silently selects nothing for a misspelt or renamed element, and
     fixtures do not reach every template.''',
     [B + 'xsl/', B + 'binmodel/', B + 'xmlmodel.py', B + 'xmlformat.py',
      B + 'hwp5odt.py', B + 'hwp5html.py', B + 'hwp5txt.py'],
     [('vocabulary', 'model and attribute names; xsl/*.xsl')])

prop('X06', 'ODF packages list exactly the parts they contain',
     '''Every part written into an ODF package is entered in the manifest with
     its path and media type and the manifest is written on close, the
     mimetype entry is the first one and stored uncompressed, styles.xml and
     content.xml are made by the stylesheets for styles and content, and
     embedded images are stored, in packages and HTML directories, under the
     path by which the content refers to them.''',
     ['inputs'], 'every document and its embedded files',
     'Tests open the package but do not compare it with its manifest.',
     [B + 'hwp5odt.py'],
     [('package', B + 'hwp5odt.py ODTPackage')])

prop('C01', 'Command options and subcommands are wired up completely',
     '''Every option value a command uses is defined by the parser of that
     same command, with a type or default that its use can take, every
     subcommand leads to an implementation, and no defined option is
     ignored.''',
     ['configurations'], 'every command, subcommand and option combination',
     '''The command line tests use a few option combinations; the others fail
     only when used.''',
     [B + 'hwp5proc.py', B + 'proc/', B + 'hwp5odt.py', B + 'hwp5html.py',
      B + 'hwp5txt.py', B + 'hwp5view.py', B + 'binspec.py'],
     [('parsers', '*_argparser functions')])

prop('C02', 'Alternative backends are interchangeable',
     '''All backends for one service (OLE reading, XSLT, RelaxNG, AES, temporary
     files) offer the same operations with the same parameters, report the
     same failures by the same exceptions, and the selection functions return
     a working implementation whenever one backend is usable.''',
     ['configurations', 'inputs'], 'every set of installed backends',
     '''Only the backends installed in the test environment are run.''',
     [B + 'plat/', B + 'storage/ole.py'],
     [('selection', B + 'plat/__init__.py'), ('backends', B + 'plat/*.py')])

prop('C03', 'External programs and parsers are used safely',
     '''External programs are started from argument lists, never through a
     shell, with document-controlled data only as file content; nothing the
     package does fetches from the network or evaluates code found in a
     document, and files are opened for writing only at places named by the
     user or created as temporary files.''',
     ['inputs', 'configurations'], 'every document and environment',
     'Tests do not observe how programs are started or which files are opened.',
     [B + 'plat/', B + 'utils.py', B + 'hwp5odt.py', B + 'proc/'],
     [('process creation', 'subprocess use'), ('file creation', 'open use')])

prop('C04', 'Every name and call in the program resolves',
     '''On every path of the installed modules, each name refers to a definition
     that exists at that point under the supported interpreter, each attribute
     of a module or of a class of the package exists, and each call of a
     function of the package passes arguments it accepts.''',
     ['inputs', 'programs', 'configurations'], 'every path through every function',
     '''A misspelt name or wrong argument list raises only when that line runs;
     tests leave many branches unrun.''',
     [B],
     [('definitions', 'all modules')])

prop('C05', 'Bytes and text are never mixed',
     '''Whatever is written to a binary output is bytes and whatever is written
     to a text output is text, values of the two kinds are never concatenated,
     compared or formatted into each other, and binary input is read from
     binary handles.''',
     ['inputs', 'configurations'], 'every path that moves data from a stream to an output',
     '''Python raises only when the mismatching line runs; many output formats
     and error branches are not run by tests.''',
     [B],
     [('boundaries', 'open modes, sys.stdin/stdout use, encode/decode')])

prop('C06', 'Compiled definitions and shared tables are never modified by parsing',
     '''Tables and compiled type definitions shared between documents are built
     once and only from the program's own definitions; processing a document
     neither changes them nor hands out mutable parts of them, so that the
     result of reading a document does not depend on what was read before.''',
     ['histories'], 'every sequence of documents read in one process',
     'Tests read documents one by one and compare nothing afterwards.',
     [B + 'bintype.py', B + 'binmodel/', B + 'dataio.py', B + 'xmlmodel.py'],
     [('caches', B + 'bintype.py'), ('registries', B + 'binmodel/')])

prop('C07', 'Every reading loop makes progress or stops',
     '''Every loop that is not bounded by a finite collection consumes input,
     advances its position or leaves on each iteration, and leaves when the
     input is exhausted, so that no document can make a command run
     forever.''',
     ['inputs'], 'every input, including truncated and crafted ones',
     'Tests only run on well-formed inputs, where all loops end.',
     [B + 'recordstream.py', B + 'dataio.py', B + 'bintype.py',
      B + 'treeop.py', B + 'zlib_raw_codec.py', B + 'utils.py',
      B + 'binmodel/controlchar.py', B + 'charsets.py', B + 'xmlmodel.py'],
     [('loops', 'while loops and recursion over input')])

prop('C08', 'Standard output carries only the requested data',
     '''Diagnostics of the library and the tools go to the log or to standard
     error; only the data a command was asked for is written to standard
     output, so that piped output is never corrupted.''',
     ['inputs', 'configurations'], 'every code path of every command',
     'Tests compare the output of successful runs at the default log level.',
     [B],
     [('output sites', 'print and sys.stdout use')])

prop('M01', 'Summary information is read by the property-set format',
     '''Every property identifier, type code and format identifier used to read
     the summary information has the value the OLE property-set and HWP
     formats give it, each property is reported under its own label, and
     values are located by the offsets in the stream.''',
     ['inputs'], 'every summary information stream',
     'One or two fixture streams, which do not contain all properties.',
     [B + 'msoleprops.py', B + 'summaryinfo.py', B + 'filestructure.py'],
     [('property tables', B + 'msoleprops.py, summaryinfo.py'),
      ('reader', B + 'msoleprops.py PropertySetStreamReader')])

prop('M02', 'Paragraph text is split into characters and controls by the format',
     '''Each control code in paragraph text has the name, the kind and the
     length in characters that the format gives it, every code below 32 is
     covered, only codes at character boundaries are recognised, and the
     chunks of a paragraph cover its text without gap or overlap.''',
     ['inputs'], 'every 16-bit text, including all control codes',
     'Fixture text contains a few of the 32 control codes.',
     [B + 'binmodel/controlchar.py', B + 'binmodel/tagid51_para_text.py'],
     [('table', B + 'binmodel/controlchar.py ControlChar.chars'),
      ('search', B + 'binmodel/controlchar.py ControlChar.find')])

prop('M03', 'Every character belongs to exactly one language class',
     '''The character ranges by which text is divided into language classes are
     ordered and disjoint, each class has a font for it in the character
     shape, and splitting text by class neither loses nor repeats
     characters.''',
     ['inputs'], 'every character',
     'Tests classify a few characters per class.',
     [B + 'charsets.py', B + 'xmlmodel.py'],
     [('ranges', B + 'charsets.py'), ('tokenizer', B + 'charsets.py')])

prop('N01', 'Unit conversions are exact to the stated precision',
     '''Lengths converted between HWP units, inches, millimetres and points
     are rounded as stated and differ from the exact value by no more than
     half of the last digit.''',
     ['inputs'], 'every length value',
     'Tests convert a few values.',
     [B + 'dataio.py'],
     [('conversions', B + 'dataio.py hwp2mm, hwp2pt')])

prop('N02', 'Reading and writing a record stream are inverse operations',
     '''A sequence of records written to a stream and read back is the same
     sequence, byte for byte, for every content.''',
     ['inputs'], 'every record sequence',
     'Tests round-trip two fixture streams.',
     [B + 'recordstream.py'],
     [('reader and writer', B + 'recordstream.py')])

prop('N03', 'Converted documents look like the original',
     '''The page geometry, styles, tables and pictures of the converted ODF and
     HTML documents agree with the rendering of the HWP original.''',
     ['inputs'], 'every document',
     'No test compares layout.',
     [B + 'xsl/'],
     [('stylesheets', B + 'xsl/')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
