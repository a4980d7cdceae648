#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the entries stay readable)."""
import json, os
D='binread_derive/src/codegen/read_options/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
IMPL='binread/src/binread_impls.rs'; HLP='binread/src/helpers.rs'; ST=D+'struct.rs'; EN=D+'enum.rs'; RO='binread_derive/src/codegen/read_options.rs'
p('C01','Primitive reads return the value of the bytes and advance by their size',
  "Reading an integer, a float or a char consumes exactly the type's size in bytes (one for char) starting at the reader's position, and returns the value those bytes have in the byte order of the options (big, little, or the host's for native; floats keep their bit pattern, a char is the code point equal to the byte). If the bytes cannot be read the reader's own error is returned and the reader is put back where the read started.",
  ['inputs','fault_sequences'],'all byte contents, all start positions, all byte orders, all primitive types, any failure of the reader at any operation',
  'tests read a few constants with well-behaved in-memory readers; they never see a reader that fails, or all 2^128 contents.',
  [IMPL,'binread/src/endian.rs','binread/src/io/mod.rs'],
  [('binread_impl! read_options',IMPL),('impl BinRead for char',IMPL),('StreamPosition','binread/src/io/mod.rs')],observe=['BinRead::read_options','reader position'])
p('C02','A failed read of a derived type leaves the reader where it started',
  "When reading a type with derived parsing returns an error, for whatever reason (a nested read, magic, assertion, try_map, seek or reader error, no matching variant), the reader is positioned where it was when the read began. The only exception is a reader that itself refuses the seek back to that position; then its error is returned.",
  ['inputs','fault_sequences','programs'],'structs, tuple structs, unit structs, data enums, unit enums and mapped types; every failing point inside them; every position a nested read may leave the reader at; every reader error',
  'tests trigger a handful of failures, nearly all at the first field and with in-memory readers.',
  [RO,ST,EN],[('or_else rewind around the generated body',RO),('wrap_save_restore',ST)],observe=['reader position after Err'])
p('C03','Fields are read in order, back to back, each into its own place',
  "Deriving reads exactly the declared fields, in declaration order, each starting where the previous one ended, and stores every value in its own field; temp fields are read and visible to later fields but not stored, calc fields take the value of their expression and default/ignore fields the default value, and neither moves the reader. Expressions in directives and the arguments passed with args/args_tuple and received with import/import_tuple see exactly the values of the earlier fields. An error of a nested read is returned unchanged and nothing after it is read.",
  ['inputs','programs'],'all values and lengths of nested reads (including ones that jump), all failures of nested reads, all arguments; over a family of declarations covering each directive',
  'tests use a few fixed layouts with one data file each.',
  [ST,RO,'binread_derive/src/codegen/sanitization.rs','binread_derive/src/parser/top_level_attrs.rs'],
  [('StructGenerator::read_fields / return_value',ST),('generate_field',ST),('get_passed_args',ST),('add_imports',RO)],observe=['derived read_options'])
p('C04','Byte order and options reach every nested read with the documented precedence',
  "A nested read uses the byte order of its own field's directive if there is one (big, little, is_big, is_little with the conditional inverse), else that of its variant, else that of its type, else the caller's; a field's count and offset apply to that field only, and everything the type does not set is passed on from the caller unchanged. The reader methods read_be/le/ne, read_type and their _args forms, and BinRead::read/read_args, start with exactly the byte order they name, no count, offset 0 and the given arguments.",
  ['inputs','programs'],'all caller byte orders, counts, offsets and arguments, all values of the conditions; over declarations with each endianness directive at field, variant and type level',
  'tests check single combinations on the values of a few bytes; a leak of options into a sibling field or a wrong precedence in an untested combination is invisible.',
  [RO,ST,'binread/src/lib.rs','binread/src/options.rs'],[('ReadOptionsGenerator',RO),('PreludeGenerator::add_options',RO),('BinReaderExt','binread/src/lib.rs')],observe=['options received by nested reads'])
p('C05','Magic values must match, and are consumed exactly once, first',
  "A magic on a type, variant or field is read before anything of that item, with the byte order in force there, and must equal the declared constant; if it does not, the read fails with BadMagic carrying the position of the magic and the value found. On a match exactly the magic's bytes have been consumed.",
  ['inputs','programs'],'all bytes at the magic position, integer, byte-string and byte magics, all byte orders and start positions, all reader errors',
  'tests try one matching and one mismatching constant.',
  [RO,'binread/src/private.rs'],[('assert_magic / magic','binread/src/private.rs'),('get_magic',RO)],observe=['Error::BadMagic','reader position'])
p('C06','Assertions decide success exactly, with the declared error',
  "A read succeeds only if every assert and pre_assert condition in force holds; a pre_assert is decided before any field is read, a field assert right after its field and a type-level assert after all fields. A failing assertion yields AssertFail with the declared message (by default the condition's text), or Custom carrying the declared error value, with the position where the item started; conditions that hold change nothing.",
  ['inputs','programs'],'all field values, imported arguments and start positions; structs, tuple structs, unit structs, data variants of enums, with and without messages and error values',
  'tests check a single true and false case per form.',
  [RO,ST,EN,'binread/src/private.rs'],[('get_assertions',RO),('private::assert','binread/src/private.rs'),('add_assertions',ST)],observe=['Error::AssertFail','Error::Custom'])
p('C07','A data enum yields the first variant that parses, else reports the failure',
  "Variants are tried in declaration order, each from the position where the enum began, and the first that reads successfully (including its magic, pre_assert and assert) is the result, later ones are never tried. If all fail, the result is EnumErrors listing each variant's name and its own error in order (the default), or NoVariantMatch when return_unexpected_error is set, with the enum's start position.",
  ['inputs','programs'],'every outcome of every variant (success, failure, position left behind), reader errors while going back, all start positions',
  'tests use enums whose variants fail in one way on one input.',
  [EN],[('generate_data_enum',EN),('generate_variant_impl',EN)],observe=['BinRead for derived enums','Error::EnumErrors','Error::NoVariantMatch'])
p('C08','A unit-only enum maps every stored value to its variant or NoVariantMatch',
  "An enum of unit variants with a repr reads one value of that type, in the byte order in force, and yields the first variant with that discriminant whose pre_assert holds; with variant magics it reads one magic value and yields the first variant with that magic whose pre_assert holds. Any other value yields NoVariantMatch at the enum's start position.",
  ['inputs','programs'],'all stored values, all repr types, explicit and implicit discriminants, integer and byte-string magics, all byte orders',
  'tests check two or three values of one enum.',
  [EN,'binread_derive/src/parser/top_level_attrs.rs'],[('generate_unit_enum_repr',EN),('generate_unit_enum_magic',EN)],observe=['BinRead for derived enums'])
p('C09','Counted collections hold exactly the counted items, in order',
  "Vec with a count, arrays, tuples, helpers::count and read_bytes read exactly the requested number of items in order, back to back, and return exactly those items. Every item gets the given arguments and the caller's options (the count does not leak into items of a Vec; the helpers pass on the byte order only). Option and Box read exactly their content. The first failure of an item is returned unchanged and no further item is read.",
  ['inputs'],'every count (no bound), every array length 0..=32 and tuple arity 1..=32, all item values, sizes and failures, all options',
  'tests read two or three items; nothing exercises a failing item in the middle, option leakage or large counts.',
  [IMPL,HLP],[('impl BinRead for Vec<B>',IMPL),('binread_array_impl!',IMPL),('binread_tuple_impl!',IMPL),('count, read_bytes',HLP)],observe=['returned collection','reads of the item type'])
p('C10','until, until_exclusive and until_eof stop exactly where they should',
  "until returns all items up to and including the first that satisfies the condition, until_exclusive all items before it (having consumed it), and until_eof all items until one fails with an I/O error of kind UnexpectedEof. Items are read in order, back to back, in the caller's byte order with the given arguments, nothing is read after the stop, and any other error is returned unchanged.",
  ['inputs'],'every number of items (no bound), all item values and conditions, every failure of every item',
  'tests read short constant inputs; never an error in the middle or an EOF-kind look-alike.',
  [HLP],[('until, until_exclusive, until_eof',HLP)],observe=['returned collection','reads of the item type'])
p('C11','Punctuated reads items and separators alternately, as many as counted',
  "Punctuated::separated with count n reads n items with a separator between any two (n-1, none for n=0), and separated_trailing n items each followed by a separator. Items and separators come back in order, in their own lists, items get the given arguments and the caller's options, and the first failure is returned unchanged with nothing read after it.",
  ['inputs'],'every count (no bound, including 0), all item and separator values, all failures',
  'tests use count 3 only.',['binread/src/punctuated.rs'],[('separated, separated_trailing','binread/src/punctuated.rs')],observe=['Punctuated'])
p('C12','Null-terminated strings hold exactly the units before the terminator',
  "NullString (and Vec<NonZeroU8>) holds exactly the bytes before the first zero byte or the end of the data, and NullWideString (and Vec<NonZeroU16>) exactly the 16-bit units, in the byte order in force, before the first zero unit; the terminator is consumed and nothing after it. Reader errors are returned, for wide strings including the end of the data before a terminator; conversions keep every unit (into_string replaces invalid sequences as the standard library does).",
  ['inputs','fault_sequences'],'all contents and lengths (no bound), all byte orders, reader errors and short reads at any point',
  'tests read two constant ASCII strings.',['binread/src/strings.rs'],[('impl BinRead for Vec<NonZeroU8>/Vec<NonZeroU16>','binread/src/strings.rs'),('From conversions','binread/src/strings.rs')],observe=['NullString','NullWideString'])
p('C13','A file pointer reads its target at offset + pointer and comes back',
  "Reading a FilePtr reads only the pointer; resolving it reads (and resolves) the target at the position offset + pointer, with the same options and arguments, stores it, and leaves the reader where it was before. Pointers that do not fit saturate at the limits of a signed 64-bit displacement instead of reaching an unrelated position; FilePtr::parse reads and resolves in one step and ends right after the pointer. An unreachable target or a failing read is an error, and an error of the target's read stores nothing.",
  ['inputs','fault_sequences'],'all pointer values of all ten pointer types, all offsets and options, all target outcomes, all reader errors',
  'tests follow one small positive pointer.',['binread/src/file_ptr.rs'],[('FilePtr::read_options / after_parse / parse','binread/src/file_ptr.rs'),('IntoSeekFrom','binread/src/file_ptr.rs')],observe=['FilePtr','reader position'])
p('C14','Every value that was read is postprocessed exactly once, with its own options',
  "After all fields of a derived type are read, each field that was read is postprocessed exactly once, in declaration order, with the options and arguments of its field, or immediately after its own read when it is marked deref_now/postprocess_now; offset_after replaces the offset for that step. Containers (Vec, arrays, tuples, Option, Box, PosValue) pass the step on to each item exactly once in order with the same options and arguments, the reader ends where the fields ended (fields with map or parse_with are not postprocessed), and a failure of the step is the failure of the read.",
  ['inputs','programs'],'all values, options, arguments, failures and positions left behind by the step; containers of every arity, vectors of every length',
  'tests resolve one or two pointers in a few layouts; a skipped, doubled or misconfigured step elsewhere goes unnoticed.',
  [ST,IMPL,'binread/src/lib.rs','binread/src/pos_value.rs','binread/src/file_ptr.rs'],[('AfterParseGenerator',ST),('after_parse impls',IMPL),('read_type, read_type_args','binread/src/lib.rs'),('try_after_parse','binread/src/private.rs')],observe=['after_parse calls'])
p('C15','Padding, alignment and positioning put the reader where they say',
  "For a field, seek_before moves to its position, then pad_before skips that many bytes, then align_before moves to the next multiple (not at all when on one); after the field pad_size_to moves to at least that many bytes from the field's start (never back), then pad_after and align_after act likewise; restore_position returns to the position before the field. All arithmetic is exact for every position, and positions the reader rejects are reported as errors.",
  ['inputs','programs'],'all positions up to i64::MAX, all positive alignments, all pad amounts, fields of every size including ones that move backwards',
  'tests check one position per directive.',[ST],[('generate_seek_before / generate_seek_after / map_align / map_pad',ST),('wrap_restore_position',ST)],observe=['reader position'])
p('C16','Conditional and fallible fields read exactly when they should',
  "A field with if(cond) is read exactly when the condition holds and otherwise takes its alternate (by default its Default value) without moving the reader (only a magic of the field is read regardless). A field with try yields Some of what was read, or, when its read fails for any reason, None with the reader back where the field started, and parsing continues.",
  ['inputs','programs','fault_sequences'],'all condition values, all outcomes of the field read, all positions left behind by a failed read',
  'tests cover one success and one failure with an in-memory reader.',[ST,'binread/src/private.rs'],[('wrap_condition',ST),('try_conversion',ST)],observe=['field value','reader position'])
p('C17','map and try_map apply the function exactly once to exactly the value read',
  "With map or try_map on a field or a type, the value of the function's argument type is read under the item's own directives, the function is applied exactly once to it, and its result is what the item becomes. An error of a try_map function becomes Error::Io if it is an I/O error and otherwise Error::Custom carrying that error and the position where the item's value starts; an error of the read is returned unchanged without calling the function.",
  ['inputs','programs'],'all values read, all function results and errors, all positions, all failures of the read',
  'tests map one value with one function.',[RO,ST,'binread/src/private.rs'],[('map_value',ST),('generate: Map::Try / Map::Map',RO),('map_error','binread/src/private.rs')],observe=['field value','Error::Custom'])
p('C18','The no_std Cursor behaves exactly like std::io::Cursor',
  "For every operation sequence (read, read_exact, seek, stream position, set_position, position) on every buffer, the no_std Cursor returns the same results, the same bytes and the same errors by kind, and is left at the same position, as std::io::Cursor over the same data (read_exact at the end of the data excepted as to the position and the partial buffer).",
  ['inputs','histories'],'all buffer contents and lengths, all positions up to u64::MAX, all seek targets and amounts, all buffer sizes',
  'the one test compares nine operations on one five-byte buffer; repository users see this code only without std.',
  ['binread/src/io/cursor.rs','binread/src/io/no_std.rs'],[('Read for Cursor','binread/src/io/cursor.rs'),('Seek for Cursor','binread/src/io/cursor.rs')],observe=['no_std io::Cursor'])
p('C19','no_std read_exact and bytes deliver exactly the stream, whatever the reader does',
  "For any reader, read_exact without std either fills the whole buffer with the stream's next bytes in order or fails: with UnexpectedEof exactly when the reader reports the end first, with the reader's own error otherwise; interrupted reads are retried without loss. The bytes iterator yields the stream's bytes one by one in order, retries interruptions, yields errors as they are and ends at the end of the data.",
  ['inputs','fault_sequences','schedules'],'all buffer lengths (no bound), every division of the stream into short reads, interruptions and errors at every point',
  'tests use one reader that interrupts once and one that always fails.',
  ['binread/src/io/no_std.rs','binread/src/io/error.rs'],[('Read::read_exact','binread/src/io/no_std.rs'),('Bytes::next','binread/src/io/no_std.rs')],observe=['no_std io::Read'])
p('C20','Cargo features do not change what is parsed',
  "The const_generics, debug_template and std features do not change parsing: for the same declarations, options and reader, the values, the nested reads with their byte order, count, offset and arguments, the errors by kind and position, and the final reader position are the same with and without them. (debug_template asks the reader for its position more often; a reader whose stream position query fails at such a point fails the read.)",
  ['inputs','configurations','programs'],'features std/no std, const_generics, debug_template; all inputs and options of a family of declarations and of every container',
  'tests run feature sets separately on constants and never relate them; debug_template output code paths have no assertions on parsing.',
  [IMPL,RO,ST,'binread_derive/src/codegen/read_options/debug_template.rs','binread/src/binary_template.rs'],[('cfg(feature = "const_generics") impls',IMPL),('cfg(feature = "debug_template") blocks',IMPL),('wrap_debug',ST)],observe=['read_options with each feature set'])
p('C21','Hostile data never panics, it yields an error',
  "Whatever the data (lengths, counts, pointers, discriminants, magics, contents) and whatever errors the reader reports, reading with the library's types and with derived types returns a value or an error: it does not panic, overflow or allocate in advance what the data merely claims to contain. (Not covered: panics in user expressions, a missing count, zero or negative alignments, positions beyond i64::MAX.)",
  ['inputs','fault_sequences'],'all data, all reader errors, all data-controlled counts, pointers and sizes, all start positions up to i64::MAX',
  'tests only read well-formed data.',
  [IMPL,HLP,'binread/src/file_ptr.rs','binread/src/punctuated.rs','binread/src/strings.rs',ST,EN],[('checked/saturating arithmetic of positions',ST),('READ_BYTES_CHUNK',HLP),('IntoSeekFrom',"binread/src/file_ptr.rs")],observe=['panics','allocation sizes'])
p('C22','PosValue records where its value began and is otherwise transparent',
  "PosValue holds the reader position at which its value's read began and the value read there with the same options and arguments; a failure is returned unchanged, and dereferencing, comparing, cloning and postprocessing act on the value alone.",
  ['inputs','fault_sequences'],'all positions, values, options and failures','tests check one position.',
  ['binread/src/pos_value.rs'],[('PosValue::read_options','binread/src/pos_value.rs'),('Deref/PartialEq/Clone','binread/src/pos_value.rs')],observe=['PosValue'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
