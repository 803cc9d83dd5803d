#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe or [], hook_needed=None)))

ALLP = ["src/lib.rs","src/cursor_ext.rs","src/properties/mod.rs","src/properties/int_property.rs",
  "src/properties/array_property.rs","src/properties/set_property.rs","src/properties/map_property.rs",
  "src/properties/struct_property.rs","src/properties/struct_types.rs","src/properties/text_property.rs",
  "src/properties/name_property.rs","src/properties/str_property.rs","src/properties/object_property.rs",
  "src/properties/enum_property.rs","src/properties/delegate_property.rs",
  "src/properties/field_path_property.rs","src/properties/unknown_property.rs"]

p("C01","A written file reads back as the same value",
 "Writing any well-formed in-memory save file and reading the result back (with type hints for its header-less structs) yields an equal file: same header, same properties in the same order, same nesting, bit-identical numbers, identical strings including the distinction between a null and an empty string. "
 "Well-formed means what the reader itself can produce: every element agrees with its container's declared type, values use the representation the header's versions select, names of sibling top-level properties differ, map keys differ, strings have at most 131071 code units, nesting is at most 32 levels.",
 ["inputs","configurations"],"every well-formed file value over all property kinds, container shapes, string contents and lengths, element counts, numeric bit patterns, header versions, custom-version tables, plain and Palworld containers",
 "The tests round-trip about fifteen fixed saves and a few hand-built values; they never vary counts, string lengths, numeric extremes, nesting or container/element combinations.",
 ALLP,[("property writers mirrored by property readers","src/properties/*"),("file and header framing","src/lib.rs GvasFile::write / read_with_hints")],
 observe=["value returned by GvasFile::read_with_hints","bytes given to the writer"])

p("C02","Reading then writing a save reproduces its bytes",
 "For every valid save in canonical encoding, reading it and writing the result produces exactly the bytes that were read (for a Palworld save: exactly the bytes of the decompressed payload). "
 "Canonical means: ASCII strings stored as 8-bit text and all others as UTF-16, no repeated top-level name or map key, same-named struct members stored next to each other, nothing after the final terminator and its four zero bytes.",
 ["inputs"],"every canonical valid file, not only those this library wrote",
 "Only the bundled saves are compared byte for byte; all other property/size/version combinations are never read from bytes made by anything but this library.",
 ALLP,[("readers keep every field that the writers need","src/properties/*"),("allocation flags, array index, enum type, guid retention","src/properties/{set,map,name,enum,struct}_property.rs")],
 observe=["bytes given to the writer compared with the input bytes"])

p("C03","Bytes written and values read follow the GVAS layout",
 "Every value is written in exactly the GVAS layout (little-endian fields, length-prefixed NUL-terminated strings, property tag = type name, body length, array index, per-type tag fields, zero byte, body; per-kind body layouts), and reading bytes laid out that way yields exactly the described value. "
 "Each declared body length and element count equals what follows it.",
 ["inputs","configurations"],"every property kind in every position it can occur (tagged, array element, set element, map key, map value, struct member, array-of-struct member)",
 "Round-trip tests cannot see a change made to reader and writer alike; only a few byte fixtures pin the layout, and they do not contain most kinds, sizes or positions.",
 ALLP,[("tag writer/reader","src/properties/mod.rs impl_write / impl_read_header"),("string codec","src/cursor_ext.rs"),("per-kind bodies","src/properties/*")],
 observe=["bytes written vs. an independent encoder","values read vs. the model the independent encoder started from"])

p("C04","Any input bytes give a result, never a crash",
 "Reading any byte sequence, with any hint table, in either container mode, returns either a file or an error. "
 "It never panics (with or without debug and overflow checks), aborts, overflows the stack of a default 2 MiB thread, or fails to terminate; nor does writing back, printing, comparing, hashing, cloning or dropping whatever was returned.",
 ["inputs"],"all byte strings: corrupted saves, crafted lengths and counts, deep nesting, wrong type names, random noise, hostile compressed payloads",
 "The tests feed only valid saves and a handful of specific error cases.",
 ALLP+["src/types.rs","src/scoped_stack_entry.rs","src/error.rs"],[("error returns instead of assertions","src/properties/*, src/cursor_ext.rs"),("bounded nesting","src/properties/mod.rs, src/properties/text_property.rs")],
 observe=["process exit status","panic hook","CPU clock of the call"])

p("C05","Malformed saves are rejected, valid ones accepted",
 "A byte sequence is accepted if and only if it is a valid save: every structural field - string length, terminator and encoding, body length, element size, array index, tag terminator, boolean, enumeration byte, inner type name, count - must be consistent with the layout. "
 "An accepted input, however damaged, yields exactly the value the layout assigns to its bytes, never a misaligned or partially defaulted one.",
 ["inputs"],"every single-field corruption of valid saves and compositions of corruptions, in every property kind and position",
 "Tests check a few error variants on hand-made bytes; the number of (field, kind, position, wrong value) combinations is unbounded.",
 ALLP,[("consumed-length check","src/properties/mod.rs impl_read_header"),("terminator / array index / boolean / enum checks","src/cursor_ext.rs, src/properties/*")],
 observe=["Ok/Err of GvasFile::read_with_hints and the value, compared with an independent strict decoder"])

p("C06","A truncated save is never accepted",
 "Cutting a valid save at any byte before the end of its final terminator makes reading fail with an error; no prefix is accepted as a shorter or different file. "
 "The same holds for a save header read on its own, for a single property, and for a Palworld container cut inside its preamble or its payload.",
 ["inputs","crash_points"],"every cut position of every valid save",
 "No test truncates a file; a reader that treats end of input as end of data passes all of them.",
 ALLP,[("exact reads for every field","src/cursor_ext.rs, byteorder reads"),("loop ends only on the terminator name","src/lib.rs, src/properties/struct_property.rs")],
 observe=["Ok/Err for every prefix"])

p("C07","Only supported headers are accepted, and read exactly",
 "A save header is accepted exactly when its magic is GVAS, its save version is 2 or 3, its package version lies in 0x205..=0x20D, its UE5 package version (present only in version 3) lies in 1000..=1009 and its custom-version format is 3; anything else is an error. A branch or class name that is null, has a length beyond the limit or lacks its terminator is an error too. "
 "Reading a header consumes exactly the header's bytes, starting at the reader's current position, and every field - engine version numbers, change list, branch, custom-version table with order and values, class name - is returned as stored; writing it returns those bytes. When the table repeats a key, the entry stays at its first place and holds the last stored version.",
 ["inputs","configurations"],"all values of each gate field (boundaries and random), all header contents, any starting position in the stream",
 "The bundled saves exercise a few header versions; no test probes the boundaries of the gates or the position after the header.",
 ["src/lib.rs","src/engine_version.rs","src/custom_version.rs","src/object_version.rs","src/savegame_version.rs","src/ord_ext.rs"],
 [("range gates","src/lib.rs GvasHeader::read"),("engine/custom version codecs","src/engine_version.rs, src/custom_version.rs")],
 observe=["GvasHeader::read result and stream position","GvasHeader::write bytes"])

p("C08","Palworld containers are framed correctly both ways",
 "A written Palworld container is: decompressed length, compressed length, the bytes PlZ, the compression type, and the payload - stored, zlib-compressed or twice zlib-compressed as that type says; the first length is the size of the plain save and the second the size of the payload (for the twice-compressed type: the size after one compression). "
 "Reading any such container, compressed at any level, yields the file read from the plain save plus its compression type; a wrong magic, an unknown type, a declared decompressed length beyond the data, or a broken compressed stream is an error. "
 "Writing starts at the sink's current position, leaves earlier bytes alone and ends positioned after the last byte written.",
 ["inputs","configurations"],"all three compression types, payload sizes from tiny to several MiB, compressible and incompressible data, foreign zlib streams (levels 0-9), sinks at a non-zero position, corrupted preambles",
 "Three fixed Palworld saves are read and re-read; nothing checks the length fields written, other compressors, non-zero sink positions or bad preambles.",
 ["src/lib.rs","src/game_version.rs"],[("container reader/writer","src/lib.rs GvasFile::read_with_hints / write")],
 observe=["container bytes parsed independently and inflated with an independent call","stream position after write"])

p("C09","Type hints are requested and honoured precisely",
 "A struct stored without its own type tag (set element, map key or value) is decoded as the type that the hint table gives for its path, and only that: the path is the dotted list of property names and kinds leading to it. "
 "If the table has no entry for that path, reading fails with a missing-hint error naming that exact path and the exact byte offset where the struct starts; adding the named hint makes reading get past it, so repeating this ends with the whole file read. "
 "Entries for other paths never change the result.",
 ["inputs","configurations"],"every nesting of sets, maps, structs and arrays of structs, and every subset of the needed hints plus irrelevant ones",
 "Tests use fixed complete hint tables for four saves and check one error value.",
 ["src/properties/mod.rs","src/properties/map_property.rs","src/properties/set_property.rs","src/properties/struct_property.rs","src/properties/array_property.rs","src/scoped_stack_entry.rs","src/lib.rs"],
 [("path stack","src/scoped_stack_entry.rs, PropertyOptions.properties_stack"),("hint lookup","src/properties/mod.rs Property::new")],
 state=[dict(name="properties_stack",meaning="path from the root to the value being read",where="src/properties/mod.rs PropertyOptions")],
 observe=["MissingHint(path, offset)","value read"])

p("C10","Errors point at the offending bytes",
 "When exactly one field of a valid save is damaged so that it is invalid in itself (string length out of range, string not NUL-terminated, invalid UTF-8 or UTF-16, boolean or enumeration byte out of range, nonzero array index, nonzero tag terminator, wrong fixed body size, body length that disagrees with the body), reading reports a deserialization error - not an I/O error and not a different kind of defect - that carries the offending value (for a size: what was expected or declared, then what was found), and whose offset lies on the damaged field or immediately after it (for a body length: on the tag or at the start of its body). For a property read on its own the offset counts from the start of its stream, in a Palworld container from the start of the save inside it.",
 ["inputs"],"each kind of single-field damage at every place such a field occurs",
 "Tests check the reported offset for a couple of errors only.",
 ["src/error.rs","src/cursor_ext.rs","src/properties/mod.rs","src/properties/int_property.rs","src/properties/struct_property.rs","src/properties/unknown_property.rs","src/properties/array_property.rs"],
 [("positions captured at the failing field","src/cursor_ext.rs, src/properties/mod.rs"),("error constructors","src/error.rs")],
 observe=["error variant, payload and offset"])

p("C11","Reading does not depend on how the source delivers bytes",
 "Reading starts at the current position of the source and gives the same result whether the source delivers all bytes at once, one at a time, in arbitrary short chunks or with interrupted reads in between. "
 "If the source reports a genuine I/O error at any point, reading returns that error (same kind) instead of a file or another error, and asks for no further data afterwards.",
 ["fault_sequences","inputs"],"every chunking of the source and an I/O error at every byte position or read call, for whole files, headers, single properties and Palworld containers",
 "Tests read from in-memory cursors, which never deliver short reads or fail.",
 ["src/lib.rs","src/cursor_ext.rs","src/properties/mod.rs","src/properties/unknown_property.rs"],
 [("read_exact/read_to_end everywhere","src/cursor_ext.rs, src/lib.rs"),("? on every read","src/*")],
 observe=["result per fault schedule vs. fault-free result","reads issued after the fault"])

p("C12","A successful write delivered every byte",
 "If writing a file, header or property reports success, the sink received the complete encoding, byte for byte, no matter how few bytes each of its write calls accepted. "
 "If the sink reports an error (or accepts nothing) at any point, the write returns an error, even when the failure happens while a compressor is being finished or the container length is being filled in.",
 ["fault_sequences","inputs"],"every short-write schedule and a failure at every write/seek call or byte position, for plain and all Palworld containers, headers and single properties",
 "Tests write to in-memory cursors, which accept everything.",
 ["src/lib.rs","src/cursor_ext.rs","src/properties/mod.rs","src/properties/unknown_property.rs"],
 [("write_all everywhere","src/cursor_ext.rs, src/lib.rs"),("compressors finished with errors propagated","src/lib.rs GvasFile::write")],
 observe=["sink contents and result per fault schedule"])

p("C13","Reported write sizes equal the bytes written",
 "Every write operation that reports a size - header, any property with or without its tag, property bodies, text values and their parts, strings - reports exactly the number of bytes it handed to the sink.",
 ["inputs","configurations"],"all property kinds, tagged and untagged, all string encodings, all header versions",
 "No test looks at the returned sizes.",
 ALLP+["src/engine_version.rs","src/custom_version.rs"],[("length accumulation in writers","src/cursor_ext.rs, src/properties/*, src/lib.rs")],
 observe=["returned usize vs. bytes counted at the sink"])

p("C14","JSON serialization is lossless",
 "With JSON support enabled, converting any well-formed file (finite numbers) to JSON text and back gives an equal file, with the same order and bit-identical numbers, that writes the same save bytes. "
 "The same holds for each property value on its own.",
 ["inputs","configurations"],"every well-formed file value as in C01 with finite floating-point numbers and nesting of at most 12 levels",
 "The serde tests pin the JSON of a few values and bundled saves; ambiguity between representations, skipped defaults and number edge cases are not varied.",
 ["src/properties/*","src/types.rs","src/lib.rs","src/game_version.rs","src/engine_version.rs","src/custom_version.rs"],
 [("serde derives, untagged/flattened representations, skipped defaults","src/properties/*, src/types.rs"),("ordered sequence form for maps with non-string keys","src/types.rs map::serde_seq")],
 observe=["serde_json text and the value parsed from it"])

p("C15","GUID conversions are exact inverses",
 "Converting a GUID to and from 16 bytes, four 32-bit words, a 128-bit integer or text loses nothing: each direction inverts the other, words and integer are little-endian views of the bytes, and text is the upper-case hexadecimal bytes grouped 4-2-2-2-6 with the zero GUID shown as 0. "
 "Parsing accepts exactly 32 hexadecimal digits of either case (dashes anywhere ignored, optional surrounding white space and braces) or a single 0, and rejects every other text with an error.",
 ["inputs"],"all 2^128 GUIDs and all texts",
 "Tests check a handful of literals.",
 ["src/types.rs","src/cursor_ext.rs"],[("transmute-based conversions","src/types.rs"),("Display / FromStr","src/types.rs")],
 observe=["conversion results","parse results"])

p("C16","Equal values hash equally and compare by content",
 "Values that compare equal have equal hashes for every property kind and for the map type, so properties work as map keys. "
 "Two values compare equal exactly when their contents agree (map entries regardless of order, floating point with zeros equal and NaN equal to NaN): equality is reflexive, symmetric, agrees with clones, and any change of a stored field makes the values differ.",
 ["inputs"],"pairs of values: clones, entry-order permutations, numeric zero/NaN variants, and single-field changes of every kind",
 "Tests compare only identical values; hashing is never checked.",
 ["src/types.rs","src/properties/mod.rs","src/properties/*"],[("Hash for the ordered map","src/types.rs map"),("derived Eq/Hash","src/properties/*")],
 observe=["== and hash of pairs with known content relation"])

p("C17","Version tables select the data layout exactly",
 "Whether vectors, rotators, quaternions and 2D vectors hold 32- or 64-bit numbers, text integer arguments 32 or 64 bits, and history-less text a culture-invariant field is decided solely by comparing the stored custom version of the corresponding engine stream with that feature's version number, for reading and writing alike; a missing entry counts as 0, and nothing else in the header or table matters. "
 "Writing a value in a representation that the file's versions do not support is an error, never a panic and never a silently different file.",
 ["inputs","configurations"],"all version numbers around and away from the thresholds, missing/extra/reordered table entries, all header versions, all affected value kinds in all positions",
 "Bundled saves cover a few version tables; thresholds and mismatches are untested.",
 ["src/custom_version.rs","src/properties/mod.rs","src/properties/struct_property.rs","src/properties/text_property.rs"],
 [("supports_version comparisons","src/properties/mod.rs PropertyOptions"),("threshold constants","src/custom_version.rs")],
 observe=["variant and width read/written per version value","error on mismatch"])

p("C18","No undefined behaviour or leaked memory",
 "No sequence of safe calls to this library performs undefined behaviour (invalid, out-of-bounds, dangling or aliasing-violating memory accesses, uninitialised reads, invalid values such as non-UTF-8 strings, data races) or leaks memory, on success and on every error path.",
 ["inputs","schedules","histories"],"valid, malformed and truncated inputs over all property kinds, value conversions, and concurrent use from several threads",
 "Ordinary tests run uninstrumented; undefined behaviour usually passes silently.",
 ["src/scoped_stack_entry.rs","src/types.rs","src/cursor_ext.rs","src/properties/*"],
 [("raw-pointer stack guard","src/scoped_stack_entry.rs"),("transmutes","src/types.rs")],
 observe=["Miri (stacked and tree borrows, leak check, data-race detector)","AddressSanitizer/LeakSanitizer","UTF-8 validity of every string returned"])

p("C19","Calls are independent of history and threads",
 "Reading, writing and converting depend only on their arguments: the result is the same as in a fresh process no matter which calls (successful, failing or abandoned part-way by an error) ran before, how often it is repeated, or what runs in other threads. "
 "Inputs are left unmodified: a write does not change the value, and after reading a single property - successfully or not - the caller's path stack holds exactly what it held before.",
 ["histories","schedules","inputs"],"all call sequences mixing successful and failing reads, writes and conversions, on one or several threads",
 "Each test makes one call on fresh state.",
 ["src/scoped_stack_entry.rs","src/properties/mod.rs","src/lib.rs","src/properties/map_property.rs","src/properties/struct_property.rs"],
 [("no shared state","src/*"),("scoped push/pop of the path","src/scoped_stack_entry.rs")],
 state=[dict(name="properties_stack",meaning="caller-owned path",where="PropertyOptions")],
 observe=["results across histories and threads vs. an independent model","properties_stack before and after"])

p("C20","Container constructors and accessors keep content",
 "Building an array or map property from a list of property values keeps every element, in order, whether or not a compact representation exists for its element types, and produces what reading the same content produces; building an array of structs from anything else, or with struct information on a non-struct array, is an error. "
 "A typed accessor on a property or struct value returns its value exactly when the value is of that kind and nothing otherwise, and its mutable form edits the value that is later written.",
 ["inputs"],"all element/key/value kind combinations (homogeneous and mixed), flags, counts and all accessors",
 "Tests construct a few arrays and maps of one kind.",
 ["src/properties/array_property.rs","src/properties/map_property.rs","src/properties/mod.rs","src/properties/struct_property.rs","src/properties/set_property.rs"],
 [("representation selection with fallback","ArrayProperty::new, MapProperty::new"),("accessor macro","src/properties/mod.rs make_matcher")],
 observe=["constructed value, its written bytes, accessor results"])

p("C21","Memory use is bounded by the input size",
 "Reading n bytes (for a Palworld container: n bytes plus the decompressed data actually present) never needs more than 32 MiB plus 2048 bytes per byte of input, for files whose type names are at most 64 characters: a length or count field by itself never makes the reader allocate or loop beyond what the data present can back. "
 "After the result is dropped, nothing remains allocated.",
 ["inputs"],"inputs with every length and count field set to hostile values, at every place such a field occurs, including container preambles",
 "Tests only contain consistent sizes and measure no memory.",
 ["src/lib.rs","src/properties/array_property.rs","src/properties/set_property.rs","src/properties/map_property.rs","src/properties/struct_property.rs","src/properties/text_property.rs","src/properties/delegate_property.rs","src/properties/field_path_property.rs","src/properties/unknown_property.rs","src/cursor_ext.rs"],
 [("bounded pre-allocation","all count-driven readers"),("string length limit","src/cursor_ext.rs")],
 observe=["peak and residual heap bytes from a counting allocator; largest single request"])

p("C22","Whatever is accepted can be saved and stays stable",
 "If reading any bytes succeeds, writing the result succeeds; reading that output (same hints) succeeds and gives an equal file, and writing once more gives the same bytes. "
 "No accepted input turns into a file that cannot be written, cannot be read again, or changes with each save.",
 ["inputs","histories"],"every accepted byte sequence, canonical or not (UTF-16 ASCII, duplicate keys or names, trailing bytes, unknown kinds, odd flags), any number of save cycles",
 "Tests only re-save canonical bundled files once.",
 ALLP,[("readers accept only what writers can express","src/properties/*")],
 observe=["second and third generation bytes and values"])

p("C23","Typed readers and stream helpers agree with the layout",
 "The public readers of single property types (`read` with and without tag, `read_header`), of texts and their parts, and the stream helpers for strings, GUIDs, booleans and enumeration bytes give the value the layout assigns to the bytes at the current position - the same that reading that property through `Property::new` or as part of a file gives - and leave the stream exactly behind what they consumed, wherever in the stream they start and whatever follows. "
 "Bytes the layout does not allow, and bytes cut short, are an error: a null string where text is required, a boolean other than 0 or 1, an enumeration byte without meaning, a wrong size, index or terminator. "
 "Each helper that writes produces what its reader reads. Reading a file without hints is the same as reading it with an empty hint table, in either container mode.",
 ["inputs"],"every typed reader and helper, every property value and every value of single-byte fields, at any stream position, intact, damaged and cut short",
 "The tests reach typed readers only through whole files, and helpers only with a few literals.",
 ["src/cursor_ext.rs","src/lib.rs","src/properties/mod.rs","src/properties/int_property.rs","src/properties/str_property.rs","src/properties/name_property.rs","src/properties/object_property.rs","src/properties/text_property.rs","src/properties/delegate_property.rs","src/properties/field_path_property.rs"],
 [("reader macros","src/properties/mod.rs impl_read, impl_read_header"),("stream extensions","src/cursor_ext.rs")],
 observe=["value, error and stream position of each typed reader, compared with the model and with Property::new"])

p("C24","Constructors and conversions keep what they are given",
 "Every constructor and every `From` conversion of a property, text, struct value, delegate, field path, header part or ordered map stores exactly the arguments it was given - empty, null, repeated, extreme or special-looking contents included - in the fields of that name, and the result writes the same bytes as the same value made any other way. "
 "Converting a property into a concrete type succeeds exactly for the type it holds and returns that value. An ordered map built from pairs keeps the order of first occurrence and the last value of a repeated key. A struct value without its tag cannot be written with a header: that is an error.",
 ["inputs"],"all constructors and conversions, all argument values over the boundary dictionaries",
 "Tests use constructors to build a few expected values; an argument that is altered only for special contents is not noticed.",
 ["src/properties/*","src/types.rs","src/engine_version.rs","src/custom_version.rs","src/game_version.rs"],
 [("constructors and From conversions","src/properties/*"),("ordered map conversions","src/types.rs map")],
 observe=["public fields, content fingerprint and written bytes of constructed values"])

p("C25","Engine versions and version streams are identified exactly",
 "An engine version maps to the enumerator of its major and minor number for 4.0 to 4.27 and 5.0 to 5.2, whatever its patch, change list and branch; numbers outside the engine's releases map to unknown. "
 "The custom version streams have the GUIDs, names, step numbers and release-to-step tables of the engine (editor stream: the releases 4.12 to 4.26 and the oldest loadable one; the table's automatic-version markers are not covered), and the save game and package version enumerators have the engine's numbers. "
 "Asking for a stream's version returns the entry stored for that stream's GUID, or 0 if there is none; a feature is supported exactly if that number is at least the feature's step.",
 ["inputs","configurations"],"all engine version numbers, all steps and releases of the streams, all version tables",
 "Tests check the versions of the bundled saves only; the tables are never looked at.",
 ["src/engine_version.rs","src/custom_version.rs","src/savegame_version.rs","src/object_version.rs","src/properties/mod.rs"],
 [("release table","src/engine_version.rs get_version"),("stream tables","src/custom_version.rs"),("version queries","src/properties/mod.rs PropertyOptions")],
 observe=["enumerators, constants and query results vs. independent tables"])

p("C26","Text forms state the stored values",
 "The text of an engine version is major.minor.patch-changelist+++branch, exactly. The text of a vector, rotator, quaternion, colour, point, date or time span names each field in order with its value in full precision. "
 "The message of every error states each value it carries (sizes, strings, paths, type and argument names, offending values) in the order of its fields and its position in hexadecimal; the message of the wrapping error is that of the error it wraps, and underlying decoding and input/output errors remain available as its source or through the variant. "
 "The helpers that create errors record the stream's current position and the given text unchanged. The remaining wording of messages and all debug texts are free.",
 ["inputs"],"all engine versions and struct values; all error variants with all carried values",
 "Tests compare the text of a few errors and one version.",
 ["src/engine_version.rs","src/error.rs","src/properties/struct_types.rs"],
 [("Display implementations","src/engine_version.rs, src/properties/struct_types.rs"),("error messages and helpers","src/error.rs")],
 observe=["Display output parsed into words; error sources; positions recorded by helpers"])

p("C27","Work grows in proportion to the size of the save",
 "When one part of a save is repeated more often or made longer - top-level properties, members of a struct, values of one name, elements of an array or set, entries of a map, tags, delegates, path parts, text arguments, custom versions, characters of any string, raw bytes - the processor time and the memory requested in all while reading (accepted or rejected near the end, plain or in a container), writing, cloning, comparing, hashing, printing and converting to and from JSON grow in proportion, up to a constant factor; enlarging the version table, the hint table and the other properties along with it does not change that. "
 "Nesting structs, lists and texts deeper within the supported depth costs at most the square of the depth. No operation takes quadratic time in the number of parts or exponential time in the depth.",
 ["inputs"],"every part of a save that can be repeated, lengthened or nested; every operation on a whole file",
 "The tests use small saves, on which quadratic or exponential work is not noticeable, and assert no cost.",
 ALLP,[("count-driven loops","src/properties/*"),("buffered property bodies","src/properties/mod.rs impl_write"),("version and hint lookup","src/properties/mod.rs"),("string conversion","src/cursor_ext.rs")],
 observe=["thread processor time and total bytes requested from the allocator, for a save and one 16 times as large"])

p("C28","The JSON form has the documented shape",
 "With JSON support enabled, each value is converted to the JSON tree its public types describe: an object per structure with the public field names, the property kind under `type`, the header version under `type`, text histories under `history`, rounding modes and text transforms under `rounding` and `transform`, other enumerators by name, struct, byte and argument values under the name of their variant, compact arrays and maps under the field name of their variant, other maps as a list of pairs, GUIDs in their text form, byte arrays as lower-case hexadecimal; null strings, zero flags, zero indexes, zero GUIDs of properties, absent options and the default game version are left out. "
 "Reading such a tree gives the described value, whatever the order of the fields and whether values that may be left out are given or not. A tree with a required field missing, an unknown enumerator or property kind, a number out of range or a value of the wrong JSON type is an error.",
 ["inputs"],"all files and property values with finite numbers; all required fields and all values of their trees damaged one at a time",
 "Tests compare the JSON of some values with stored templates; no test reorders fields, gives defaults explicitly or damages a tree.",
 ALLP,[("serde attributes","src/lib.rs, src/types.rs, src/properties/*"),("compact arrays and maps","src/properties/array_property.rs, src/properties/map_property.rs")],
 observe=["serde_json::to_value vs. independently built tree","serde_json::from_str result for reordered and damaged trees"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
