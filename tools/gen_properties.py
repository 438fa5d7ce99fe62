#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, run by hand)."""
import json, os
S = "src/geoarrow/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": [S + f if not f.startswith(("python/", "src/")) else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Reading arbitrary WKB bytes is memory-safe and fails cleanly",
 "For every byte string of every length, reading it as well-known binary (as a scalar view, through a visitor, or from a binary, large-binary or binary-view array) terminates, touches no memory outside the given bytes and raises no undefined behaviour. It returns either success or an errno-style error, and when it fails to parse, a visitor has received no geometry events. The reader can be reused afterwards and then behaves exactly like a fresh one.",
 ["inputs"], "all byte strings (hostile counts, truncations at every byte, both endians, EWKB flags, deep nesting), all reuse sequences of one reader",
 "wkb_reader_test reads a few well-formed buffers and a handful of truncations; memory safety over arbitrary counts and lengths is a for-all over byte strings and a plain build does not notice an over-read.",
 ["wkb_reader.c", "array_reader.c", "geometry.c"],
 [("declared count vs. remaining bytes check", "wkb_reader.c WKBReaderReadNodeCoordinates / endian-aware uint32 reads"),
  ("recursion level limit", "wkb_reader.c WKBReaderReadNodeGeometry"), ("read first, then visit", "wkb_reader.c GeoArrowWKBReaderVisit")],
 "return codes, callbacks received by the visitor, ASan/UBSan reports over exact-size heap inputs")

prop("P02", "Parsing arbitrary WKT text is memory-safe and fails cleanly",
 "For every byte string of every length, not necessarily terminated, parsing it as well-known text (directly or from string, large-string and string-view arrays) terminates, reads no byte outside the given string, never exhausts the stack however deeply input is nested, and raises no undefined behaviour. It returns success or an errno-style error with any message terminated inside the error buffer. The same reader then parses the next string exactly as a fresh one would.",
 ["inputs"], "all byte strings (mutated and truncated WKT, embedded NUL, random tokens, nesting depth to 100k+), all reuse sequences of one reader",
 "wkt_reader_test parses dozens of NUL-terminated literals; over-reads past a non-terminated view and stack depth are properties of all inputs.",
 ["wkt_reader.c", "array_reader.c", "double_parse_fast_float.cc", "double_parse_std.c"],
 [("bounded cursor over the view", "wkt_reader.c struct WKTReaderPrivate / AdvanceUnsafe, SkipWhitespace"),
  ("recursive collection descent", "wkt_reader.c ReadTaggedGeometry/ReadGeometryCollection"), ("number parse without terminator", "double_parse_*")],
 "return codes, error message buffer, ASan/UBSan reports over exact-size heap inputs")

prop("P03", "Parsing arbitrary extension metadata, CRS values and schemas is safe",
 "For every metadata string, coordinate reference system value and Arrow schema structure, parsing, serializing and unescaping them terminates, reads only the given bytes, and never writes beyond the output capacity given by the caller. The length reported by the sizing call is exactly the number of bytes the full call produces, and a smaller output buffer only receives a prefix. Rejected input yields an errno-style error.",
 ["inputs"], "all byte strings as metadata/CRS (mutated JSON, truncations, NULs, deep nesting), all output capacities, all (bounded) schema trees",
 "metadata_test uses about twenty literals in NUL-terminated storage with generous output buffers.",
 ["metadata.c", "schema_view.c", "schema.c"],
 [("bounded JSON scanner", "metadata.c ParseChar/SkipUntil/FindString/FindList/FindObject"),
  ("two-pass sizing/serialization", "metadata.c GeoArrowMetadataSerialize, GeoArrowUnescapeCrs"), ("schema shape checks", "schema_view.c")],
 "return codes/sizes, canary bytes after the output capacity, ASan/UBSan over exact-size buffers")

prop("P04", "Every visitor consumer survives events in any order",
 "For every writer, builder and collecting visitor the library provides, any sequence of visitor callbacks in any order, with any geometry types, dimensions and coordinate views (including empty ones), never crashes, never touches invalid memory and never loops forever. After any such sequence the object can be finished or reset, all of its memory is returned, and an array produced by a successful finish can be released and read within its own buffers.",
 ["histories", "inputs"], "all sequences of the eight callbacks plus finish/reset/append operations, over every consumer and type",
 "Tests feed each consumer well-ordered events; the documented robustness to unexpected order is a for-all over event sequences.",
 ["wkb_writer.c", "wkt_writer.c", "native_writer.c", "geometry.c", "visitor.c", "kernel.c"],
 [("per-level state arrays with bounds", "wkb_writer.c size_pos/geometry_type, wkt_writer.c level checks, geometry.c sizes[]"),
  ("documented contract", "geoarrow_type.h struct GeoArrowVisitor")],
 "ASan/UBSan reports, allocation balance, independent validation of produced arrays")

prop("P05", "Allocation failure is reported, never a crash or a leak",
 "Whichever single memory allocation fails during any library operation, or every one from some point on, the operation returns an errno-style error or still completes correctly; it never crashes or corrupts memory. After resetting or releasing the objects involved, every byte allocated has been freed exactly once. A result reported as success is the same as the one produced when no allocation fails.",
 ["fault_sequences"], "every allocation index of every scenario (single failure at k; all from k on), over scenarios covering readers, writers, builders, kernels, schemas and geometries",
 "No test injects allocation failure; error paths after a failed malloc are never run by the suite.",
 ["builder.c", "native_writer.c", "wkb_writer.c", "wkt_writer.c", "wkb_reader.c", "wkt_reader.c", "array_reader.c", "array_writer.c", "kernel.c", "geometry.c", "schema.c", "schema_view.c", "scalar_udf.c"],
 [("ENOMEM propagation and cleanup", "every *Init / *Finish / start / push_batch path")],
 "interposed allocator (fault injection and per-allocation accounting), ASan reports, result digests")

prop("P06", "Ownership: everything is released exactly once, inputs are untouched",
 "Over every life cycle of every object (initialise, use, fail, finish zero or more times, reset, release), all memory the library allocated is freed exactly once when its owners are reset or released, including after a reported error. Input schemas, arrays and buffers are neither modified, released nor freed, except those documented to be taken over, which are released exactly once. Released structures are marked released, and independent objects never share ownership.",
 ["histories"], "all operation histories over readers, writers, builders, kernels, array views, UDFs and schemas, including error outcomes and abandoned objects",
 "Tests release on the straight path in an uninstrumented build; leaks, double releases and touched inputs on other histories go unnoticed.",
 ["builder.c", "kernel.c", "array_reader.c", "array_writer.c", "native_writer.c", "wkb_writer.c", "wkt_writer.c", "scalar_udf.c", "schema.c"],
 [("move/release protocol of the Arrow C data interface", "kernel.c push/finish, builder.c Finish/SetOwnedBuffer, scalar_udf.c release callbacks")],
 "allocation balance per case, release-callback counters, before/after digests of inputs")

prop("P07", "Reading well-formed WKB yields exactly the encoded geometry",
 "For every well-formed ISO or EWKB byte string in either byte order (mixed freely among nested parts), with or without SRID and with Z, M or both, reading yields exactly the encoded tree: types, dimensions, nesting, order, ring and part counts, and every coordinate bit for bit. This holds identically for the scalar view, the visitor, and binary, large-binary and view arrays at any offset.",
 ["inputs"], "all geometry trees up to bounded size, all per-node endianness/EWKB/SRID choices, coordinate counts across every chunk boundary, all double bit patterns",
 "wkb_reader_test and the wkx fixtures cover a fixed list of geometries, mostly little-endian and small.",
 ["wkb_reader.c", "geometry.c", "array_reader.c", "geoarrow_type_inline.h"],
 [("node reading and endian flag", "wkb_reader.c"), ("swap on copy, chunked visiting", "geometry.c GeoArrowGeometryViewVisit; geoarrow_type_inline.h CopyCoordsGeneric")],
 "visited events and geometry nodes compared with an independent encoder's model")

prop("P08", "Reading well-formed WKT yields exactly the written geometry",
 "For every well-formed WKT string (all seven types, XY/Z/M/ZM, EMPTY at any level, both MULTIPOINT styles, any optional whitespace, any supported number spelling, any number of coordinates), parsing yields exactly the written tree with the correctly rounded coordinates. Strings that break the grammar are rejected with an error and never silently accepted as a different geometry. The result does not depend on where the string sits in memory or in an array.",
 ["inputs"], "all WKT strings generated from the grammar with random layout plus grammar-breaking single edits",
 "wkt_reader_test has literals with one spelling and few coordinates; whitespace, empties mixed with values, and coordinate-chunk boundaries are a for-all.",
 ["wkt_reader.c", "array_reader.c", "double_parse_fast_float.cc", "double_parse_std.c"],
 [("grammar", "wkt_reader.c Read* functions"), ("coordinate batching", "wkt_reader.c coordinate cache flush")],
 "visited events compared with an independent generator's model")

prop("P09", "Number text conversion is exact on input and bounded and accurate on output",
 "Parsing a decimal number from a character range gives the correctly rounded double and consumes exactly that range, rejecting ranges that are not a single number, regardless of the bytes after it. Printing any double at any supported precision (0 to 16) never writes more than 40 bytes, returns the number of bytes written, and its text is within half a unit of the last requested decimal, up to the precision of a double (to at least 15 significant digits in exponent form), and parses back exactly when that many decimals suffice. Both hold in the bundled-library and the standard-library configurations.",
 ["inputs", "configurations"], "all doubles by random bit patterns and structured extremes, all precisions, all decimal spellings, both build configurations",
 "double_parse/print tests check about a dozen values; the claim quantifies over 2^64 doubles times precisions and two code paths.",
 ["double_parse_fast_float.cc", "double_parse_std.c", "double_print.c", "src/geoarrow/ryu/d2s.c"],
 [("parse end check", "double_parse_*.c GeoArrowFromChars"), ("fixed/exponential switch, trimming zeros, precision clamp", "double_print.c")],
 "returned value/length and buffer contents compared with strtod, snprintf and exact arithmetic")

prop("P10", "Writing WKB is canonical and round-trips",
 "For every valid geometry and every mix of nulls, writing to well-known binary, through the visitor or by appending a geometry, yields an array whose elements are exactly the ISO WKB of each feature in order, nulls where nulls were given, with monotonic offsets that exactly cover the data. Reading it back gives the original geometry bit for bit. Visitor and append paths give identical arrays.",
 ["inputs"], "all feature sequences, dimension/type mixes, chunkings, nesting up to the supported depth, both ways of writing",
 "wkb_writer_test compares several small geometries.",
 ["wkb_writer.c"],
 [("back-patched sizes per nesting level", "wkb_writer.c size_pos"), ("empty point as NaN", "wkb_writer.c"), ("append path with endian swap and stride", "wkb_writer.c GeoArrowWKBWriterAppend")],
 "output buffers compared byte by byte with an independent encoder")

prop("P11", "Writing WKT round-trips and honours its options",
 "For every valid geometry and every mix of nulls, writing WKT yields, per feature, well-formed text that reads back to the same tree with every coordinate equal to within the requested precision, in both MULTIPOINT styles and including empty parts. The text is exactly the grammar's canonical spelling of that geometry, and nulls, order and array offsets are preserved. The text does not depend on how the source chunks or lays out coordinates.",
 ["inputs", "configurations"], "all feature sequences, precisions 0..16, both multipoint styles, two number-formatting builds",
 "wkt_writer_test checks short literals at the default precision.",
 ["wkt_writer.c", "double_print.c", "array_writer.c"],
 [("separator state per level", "wkt_writer.c state.i / level"), ("precision and flat multipoint", "wkt_writer.c, array_writer.c")],
 "output text compared with an independent formatter and re-parsed by an independent parser")

prop("P12", "Native arrays written are valid Arrow and hold exactly the input",
 "For every native type (six geometry types, four dimension sets, separate and interleaved coordinates) and every sequence of matching features, nulls and empties, the written array is a structurally valid Arrow array for its schema: child lengths agree, offsets start at zero, never decrease and end at the child length, and null count and validity bits match. Decoding it independently gives back exactly the input features (parts without coordinates may be left out), and reading it with the library gives the same features.",
 ["inputs"], "all feature sequences per type, null patterns around byte boundaries, large part counts, visitor and append writers",
 "builder/native_writer tests write a handful of features per type; the layout invariants are for-all over sequences.",
 ["native_writer.c", "builder.c", "array_view.c", "geoarrow_type_inline.h"],
 [("offset/coords append per type", "native_writer.c"), ("child length and buffer sync at finish", "builder.c GeoArrowBuilderFinish")],
 "raw buffers of the finished array read by an independent validator/decoder")

prop("P13", "Reading arrays honours offsets, slices, nulls and every storage layout",
 "For every valid Arrow array of every supported type, including large and view layouts, boxes, arbitrary logical offsets at any nesting level, any null pattern and any requested sub-range, visiting yields exactly the features of that range in order, nulls as nulls, bit-exact coordinates. It reads nothing outside the array's buffers, and an array whose buffer or child counts do not fit its type is refused with an error. The same holds when a reader or view is re-used for later arrays.",
 ["inputs", "histories"], "all hand-laid-out arrays per type with random slicing at every level, sub-ranges, re-use sequences",
 "array_view/array_reader tests use whole, mostly unsliced arrays produced by the library itself.",
 ["array_view.c", "array_reader.c"],
 [("offset arithmetic per level", "array_view.c SetArray*/Visit*"), ("WKB/WKT/view element lookup", "array_reader.c"), ("box visiting", "array_view.c")],
 "events from arrays hand-built in exact-size buffers compared with the model; ASan for over-reads")

prop("P14", "Visitor protocol: well-nested events, errors and early stop propagate",
 "Every reader emits, for every feature, a well-nested event sequence (one start and one end per feature, null or at least one geometry, matched geometry and ring boundaries, coordinates only inside a geometry, coordinate views of the declared dimension); for well-formed input, children are of the kind their parent allows. When a callback returns a non-zero code the reader stops at once, makes no further callback and hands exactly that code back, including the early-stop code after which the caller ends the feature. Initialising a visitor leaves the caller's error pointer in place.",
 ["inputs", "fault_sequences"], "all readers x generated inputs x every event index as the failing callback x return codes",
 "Visitor tests check event sequences for a few inputs and never inject a failing callback at each position.",
 ["visitor.c", "wkb_reader.c", "wkt_reader.c", "array_view.c", "array_reader.c", "geometry.c"],
 [("NANOARROW_RETURN_NOT_OK around each callback", "all readers"), ("EAGAIN protocol", "geoarrow_type.h struct GeoArrowVisitor")],
 "an online grammar monitor receiving the callbacks")

prop("P15", "Conversion between encodings preserves features and coordinates",
 "Converting any array between any two encodings (native types, WKB, WKT, their large and view forms) gives an array of the same length with the same nulls and, per feature, the same geometry when the target can hold it exactly. When widening a single geometry to its multi form or changing dimensions, the coordinate sequence is preserved, missing dimensions become NaN and extra ones are dropped, and the lines and rings of a feature without points stay separate. A feature with more coordinates or separate sequences than a row of the target holds is reported as an error, and no feature ever spills into another.",
 ["inputs", "configurations"], "all ordered pairs of encodings x generated feature sequences",
 "Tests convert a few fixtures between a few encodings.",
 ["native_writer.c", "array_reader.c", "array_writer.c", "kernel.c", "geoarrow_type_inline.h"],
 [("dimension mapping", "geoarrow_type_inline.h GeoArrowMapDimensions/GeoArrowCoordViewCopy"), ("level flattening per target", "native_writer.c")],
 "decoded output arrays compared with the model through an independent decoder")

prop("P16", "Batches are independent: writers and builders can be re-used",
 "For any history of batches through one writer, builder, reader, kernel or array view, each finished batch contains exactly the features given since the previous finish and equals what a fresh object would have produced for them, whatever was in earlier batches (nulls, empties, nothing at all). Earlier arrays remain valid and unchanged while later batches are built and after the producer is reset.",
 ["histories"], "all histories of up to several batches of arbitrary size including empty ones, per producer and type",
 "Reuse tests do two small batches for some writers.",
 ["native_writer.c", "wkb_writer.c", "wkt_writer.c", "builder.c", "array_writer.c", "kernel.c"],
 [("state reset after finish", "native_writer.c / wkb_writer.c / wkt_writer.c *Finish; builder.c Finish re-init")],
 "decoded arrays of each batch compared with a fresh producer's and re-checked after later activity")

prop("P17", "Coordinate chunking and memory layout never change the result",
 "For every consumer, presenting the same coordinates in one call or in any partition into several calls, interleaved, separated or as constant (zero-stride) views, yields the identical result. Readers may chunk as they like but the concatenation of their chunks is exactly the sequence.",
 ["inputs"], "all partitions and layouts of generated sequences x every writer, the geometry collector and the kernels",
 "Tests present coordinates in one interleaved or separated view.",
 ["wkb_writer.c", "wkt_writer.c", "native_writer.c", "geometry.c", "kernel.c", "geoarrow_type_inline.h"],
 [("coords callbacks accumulate", "all writers"), ("coords_stride addressing", "GEOARROW_COORD_VIEW_VALUE users")],
 "raw output compared between presentations")

prop("P18", "Geometry objects: copies, strides, byte order and views agree",
 "For every geometry tree, collecting it from events, shallow copying and deep copying give geometries that visit to the same events, and a deep copy stays valid after its source is changed or freed. Coordinates reached through any stride (interleaved, separated, constant, reversed) and byte-order flag have the same values in visiting and in every appending writer; in every geometry view the library makes, each coordinate pointer is readable - NaN where the dimension is absent - and those of a deep copy never refer to the source. Visiting a view whose nodes are inconsistent is rejected with an error.",
 ["inputs", "histories"], "all trees up to the supported depth x node layouts x copy/visit/reuse histories",
 "geometry_test uses a few small trees with regular layouts.",
 ["geometry.c", "geoarrow_type_inline.h", "native_writer.c", "wkb_writer.c"],
 [("node stack/levels", "geometry.c feat/geom/ring callbacks"), ("strided and swapped reads", "geoarrow_type_inline.h"), ("append path", "native_writer.c/wkb_writer.c Append")],
 "events and arrays compared with the model; sources scribbled over after deep copy")

prop("P19", "Size-limited WKT output is a true prefix with bounded work",
 "With a maximum element size, each element is exactly the prefix of the unlimited text of that feature of at most that many bytes, nulls stay null, and every feature still appears in order in the output. This holds for every feature regardless of earlier nulls or features, for both the writer and the formatting kernel, and the consumed input after the limit is bounded.",
 ["inputs", "configurations"], "all feature sequences x limits x precisions x source encodings",
 "Tests check one or two features with one limit.",
 ["wkt_writer.c", "kernel.c"],
 [("EAGAIN early stop and truncation at feature end", "wkt_writer.c"), ("format_wkt kernel", "kernel.c")],
 "output of limited vs unlimited runs")

prop("P20", "Kernels keep the scalar/aggregate protocol, length, nulls and metadata",
 "A scalar kernel returns for every batch an array of exactly the input's length whose type matches the schema announced at start, and nothing at finish; an aggregate kernel returns nothing per batch and a single array at finish. The as_geoarrow and box kernels carry over the extension metadata, and every per-feature result equals converting that feature alone. Unknown kernels, unusable options and unsupported inputs are rejected with an error and leave outputs unset.",
 ["inputs", "histories"], "all kernel names x input types x option strings x batch histories",
 "kernel_test runs each kernel on one or two tiny batches.",
 ["kernel.c"],
 [("start/push_batch/finish state machine", "kernel.c"), ("metadata propagation", "kernel.c finish_start_*")],
 "schemas and arrays returned, independent Arrow validation")

prop("P21", "Bounding boxes and type summaries equal a direct computation",
 "For every array and batch split, the per-feature box is null for null features, inverted infinities for empty ones, and otherwise the exact minimum and maximum of the finite-comparable XY coordinates of that feature; the aggregate box is that of all features, of length one and never null. The type summary is exactly the sorted set of type-and-dimension codes of the non-empty features. Non-planar edges are refused.",
 ["inputs", "histories"], "all feature sequences, source encodings, coordinate values incl. infinities and signed zeros, all splits into batches",
 "kernel_test checks two or three hand-computed boxes.",
 ["kernel.c"],
 [("bounds accumulation per feature / overall", "kernel.c box visitor"), ("type mask accumulation", "kernel.c unique_geometry_types_agg")],
 "output arrays compared with a reference computed from the model")

prop("P22", "Concurrent use of independent objects and the shared factory is race-free",
 "Any number of threads may at the same time each use their own readers, writers, builders, kernels, schemas and geometries, and may create function instances from one shared factory, without data races, and each thread gets the same result as it would alone. Read-only schemas, arrays and array views may be read by several threads at once. Function instances follow their documented contract: output length equals the batch, and release marks the instance released.",
 ["schedules", "histories"], "all interleavings of independent pipelines and factory calls on several threads with randomised delays",
 "No test starts a thread.",
 ["scalar_udf.c", "kernel.c", "visitor.c", "util.c", "schema.c", "array_view.c", "wkt_reader.c", "wkb_reader.c", "wkt_writer.c", "double_print.c"],
 [("no mutable global state", "whole C library"), ("factory callback documented thread safe", "geoarrow_type.h GeoArrowScalarUdfFactory")],
 "ThreadSanitizer reports, per-thread result digests against a single-threaded run")

prop("P23", "Types and schemas correspond one to one",
 "Every supported type identifier decomposes into geometry type, dimensions and coordinate layout and recomposes to itself, and initialising a schema from it and parsing that schema gives back the same identifier, extension name and components, for extension and plain storage schemas alike. A schema that is not one of the supported layouts (wrong child count, names, list depth, coordinate width, format or unknown extension name) is rejected. Parsing does not depend on unrelated metadata keys, their order or on field nullability.",
 ["inputs", "configurations"], "all type identifiers (and all integers in and around the enum), all single and double mutations of valid schemas",
 "schema tests list chosen types and a few invalid schemas; schema_test.cc is not even built.",
 ["schema.c", "schema_view.c", "geoarrow_type_inline.h"],
 [("type algebra", "geoarrow_type_inline.h GeoArrowMakeType/*FromType"), ("storage parsing", "schema_view.c"), ("storage construction", "schema.c")],
 "returned views/schemas compared with an independently written table of the specification")

prop("P24", "Extension metadata survives serialisation, and schema updates keep the rest",
 "For every combination of edge type, CRS type and CRS value (a JSON object, a quoted string or plain text without control characters), serialising metadata and parsing it back gives the same edge type, CRS type and CRS value, and the serialisation is valid JSON with exactly the keys that are set; a text with control characters (a CRS of several lines) is read back unchanged by the library itself. Unescaping a quoted CRS inverts the escaping of quotes and backslashes, and leaves objects as they are. Setting or copying extension metadata on a schema changes only the extension metadata and leaves every other key, the name and the layout unchanged, also when the source is the schema's own metadata.",
 ["inputs"], "all edge x CRS type combinations x CRS strings (quotes, backslashes, unicode, JSON objects, bare strings), random key orders and whitespace",
 "metadata_test round-trips a few literals.",
 ["metadata.c", "schema.c"],
 [("serialiser/escape", "metadata.c"), ("parser of known keys", "metadata.c ParseJSONMetadata"), ("metadata replacement", "metadata.c GeoArrowSchemaSetMetadata*")],
 "parsed views, serialised text checked by an independent JSON reader")

prop("P25", "Arrays built buffer by buffer hold exactly the supplied buffers",
 "For every type, building an array by appending to its buffers in any pieces, by taking over caller-owned buffers, or a mixture per batch, yields a valid array whose buffers hold exactly the supplied bytes. Each taken-over buffer is freed exactly once, by its own callback, when the array (or the builder, if never finished) is released. Reserved capacity and previously appended data are never lost, and invalid buffer indices are rejected.",
 ["inputs", "histories"], "all types x buffer contents x append partitions x ownership choices x finish/reset histories",
 "builder_test appends small buffers for a few types.",
 ["builder.c", "geoarrow_type_inline.h"],
 [("buffer number to array buffer mapping", "geoarrow_type_inline.h _GeoArrowArrayFindBuffer; builder.c"), ("custom deallocator hand-over", "builder.c GeoArrowBuilderSetOwnedBuffer")],
 "free-callback log, raw buffers of finished arrays, ASan")

prop("P26", "C++ typed array views present exactly the array's features",
 "For every native array (any slice, nulls, empties, dimensions, layout), the typed C++ views give the same sizes, validity and coordinates as the array holds, by index, by iteration in any direction and random access, through sub-slices, and through coordinate, vertex and edge visiting. Iterators obey random-access arithmetic. Bounds accumulate to exactly the minimum and maximum of what was visited.",
 ["inputs"], "all hand-laid-out arrays per native type/dimension with random slicing; random iterator walks",
 "array_util tests index and iterate a few literal arrays.",
 ["hpp/array_util.hpp"],
 [("strided/unaligned iterators", "array_util.hpp internal iterators"), ("list sequence slicing", "array_util.hpp ListSequence"), ("visit vertices/edges", "array_util.hpp *Array")],
 "values read through every access path compared with the model, ASan/UBSan")

prop("P27", "The C++ WKB parser is safe on any bytes and exact on valid ones",
 "For every byte string, parsing with the C++ WKB parser terminates, reads only the given bytes, never exhausts the stack and reports a defined status; a parsed geometry exposes only fully initialised state and never points outside the input. For every well-formed ISO or EWKB geometry in any byte order it yields exactly the encoded tree, SRID, dimensions and coordinates, and re-using the same geometry object for another parse leaves no residue of the earlier one.",
 ["inputs", "histories"], "all byte strings incl. truncations and deep nesting; all valid geometry trees with per-node endianness; reuse sequences",
 "wkb_util tests parse a few literals.",
 ["hpp/wkb_util.hpp"],
 [("checked reads", "wkb_util.hpp WKBParser"), ("object pool reuse", "wkb_util.hpp WKBGeometry/WKBSequence AppendSequence/AppendGeometry")],
 "parser status and the geometry object walked against the model, ASan/UBSan/MSan-style poison")

prop("P28", "C++ type descriptors and reader/writer wrappers mirror the C library",
 "Every type identifier converted to the C++ type descriptor and back is unchanged; its components, extension name, schema and metadata equal what the C interface reports, and modifying one component changes only that component; its unabridged text form tells different types, edges and coordinate reference systems apart. Arrays read and written through the C++ wrappers are identical to those of the C interface, each array handed over is released exactly once, and options set on a wrapper affect exactly the option named. Errors surface as exceptions or codes, never as a half-initialised object.",
 ["inputs", "histories"], "all identifiers and component changes, all metadata values, all wrapper histories incl. moves and re-setting arrays",
 "geometry_data_type tests cover selected types; wrapper tests cover one array.",
 ["hpp/geometry_data_type.hpp", "hpp/array_reader.hpp", "hpp/array_writer.hpp", "hpp/geometry_type_traits.hpp"],
 [("descriptor <-> schema", "geometry_data_type.hpp"), ("RAII around C structs", "array_reader.hpp, array_writer.hpp")],
 "values compared with the C interface; allocation balance and release counters")

prop("P29", "Python bindings agree with the C library and never corrupt memory",
 "For every supported type and array, arrays passed into the Python bindings and back are unchanged in type, metadata, length, nulls and values; array views expose every offset, coordinate and serialized data buffer read-only with the exact contents (the validity bitmap is not exposed); builders given Python buffers produce exactly those buffers and keep them alive; kernels give the same results as the C interface. Detectably invalid input (None, released or structurally unsuitable arrays and schemas, bad options, calls out of order) raises a Python exception and never crashes the process; memory is never leaked, and never invalidated while a Python object refers to it.",
 ["inputs", "histories"], "all native and serialized types x generated arrays x object lifetimes and deletion orders",
 "The 16 Python tests use one array per operation and never check the lifetime of exposed buffers.",
 ["python/geoarrow-c/src/geoarrow/c/_lib.pyx"],
 [("capsule hand-over and base references", "_lib.pyx SchemaHolder/ArrayHolder/CArrayView"), ("builder buffer protocol", "_lib.pyx CBuilder")],
 "values seen from Python/pyarrow compared with a pure-Python model; gc stress and mutation watching")

prop("P30", "Arrow C++ extension types carry GeoArrow types and arrays faithfully",
 "For every GeoArrow type and metadata, an Arrow C++ GeometryExtensionType - however made: from an identifier, components, a descriptor, serialized metadata plus storage, a field imported while registered, a copy, or by changing one component of another - reports exactly that type, extension name and metadata, has a storage type that the C library reads as that type, and round-trips through Serialize and Deserialize; types that differ in any component compare as different. Requests that name no existing type or carry invalid metadata or storage are answered with an error status, never an exception. With the types registered, arrays of every type pass into Arrow C++, through slicing and IPC, and back with unchanged features and are released exactly once; without, they are plain storage. What the library's writers and kernels produce is valid by Arrow's own validation.",
 ["inputs", "histories"], "all types x metadata x ways of making and deriving extension types; all generated arrays, slices and IPC round trips",
 "arrow_extension_type_test.cc looks at one type and is only built where Arrow C++ is installed.",
 ["hpp/arrow_extension_type.hpp", "hpp/geometry_data_type.hpp"],
 [("storage follows the type", "arrow_extension_type.hpp Make/With*"), ("registration", "RegisterAll/UnregisterAll")],
 "values compared with an independent model and with the C interface's reading of what Arrow C++ exports; Arrow's ValidateFull; release log")

prop("P31", "Sizes beyond 2 GB and 2^31 elements are exact or refused",
 "Inputs, positions, lengths and distances that do not fit 31 or 32 bits are handled exactly or refused with an error, never truncated or wrapped. WKB of any size is read with every node, coordinate pointer and count where the bytes say, and rejected when it is cut short anywhere; the coordinate count of a geometry saturates instead of wrapping; arrays and builder buffers of up to 2^33 elements keep their lengths, offsets and contents; sequences of up to 2^31 - 1 coordinates and coordinates up to 2^31 bytes apart are visited and copied exactly. Serialized output of exactly 2147483647 bytes is written correctly and one feature more is refused. Metadata of any size is read in full, and metadata that a schema cannot hold is refused. Geometries and reservations for which there is no memory fail with an error and leave the object as usable as after any failed allocation.",
 ["inputs"], "all sizes, offsets, strides and counts up to 2^36 bytes (input only as far as memory can hold or sparse mappings can stand in for it)",
 "Every test input is smaller than a few kilobytes.",
 ["wkb_reader.c", "wkb_writer.c", "wkt_writer.c", "wkt_reader.c", "native_writer.c", "builder.c", "array_view.c", "geometry.c", "metadata.c", "geoarrow_type_inline.h", "hpp/wkb_util.hpp"],
 [("32-bit offsets and their limit", "wkb_writer.c/wkt_writer.c feat_start, Finish"), ("sizes computed from counts", "wkb_reader.c, wkb_util.hpp, geoarrow_type_inline.h"), ("lengths from buffer sizes", "builder.c Finish")],
 "sparse mappings and limited allocations: results compared with what was put where, refusals required, ASan/UBSan")

prop("P32", "Results depend on the inputs only",
 "What a call returns and produces is a function of its arguments and of the objects it was given: the same operation gives the same result codes, events, bytes, values and digests whatever freshly allocated memory, the stack and an object's storage before its initialisation happened to contain, whatever errno was, whatever numeric locale the program has selected, whichever floating point rounding mode is in force (number reading and printing by the bundled fast_float and ryu; elsewhere computations are exact), whatever calls on other objects were made before it or are made from within its callbacks. No decision is ever taken, and nothing handed out, on memory nobody wrote. The library does not change that surrounding state (locale, rounding mode, file descriptors' output) either.",
 ["inputs", "histories"], "all valid and invalid inputs of every reader, writer, builder, schema, metadata, kernel and number function",
 "Tests run in one process state: the C locale, zeroed fresh pages, round to nearest.",
 ["all of src/geoarrow", "double_parse_std.c", "double_print.c", "double_parse_fast_float.cc"],
 [("initialisation of everything that is read", "Init functions and memset/field assignments everywhere"), ("numbers are independent of the locale", "double_print.c, double_parse_*.c")],
 "differential runs of the same operation under different process states; memcheck over the same operations")

prop("P33", "Namespaced and bundled copies are complete and independent",
 "A copy of the library built with GEOARROW_NAMESPACE shares nothing with any other copy in the process: every function and object its library makes visible to the linker carries the namespace (the C++ standard library's own symbols aside), no call made on one copy ever enters the code of another, and each copy computes exactly what a plain build of the same configuration computes. The bundle made by CMake (GEOARROW_BUNDLE) behaves like the separate sources. Arrays and schemas made by one copy are read by every other one with the same result and are released by the copy that made them. (The inline C++ headers, whose namespace is fixed, are not covered.)",
 ["inputs", "configurations"], "all operations of the C interface in a plain, two namespaced and one bundled copy loaded together",
 "Tests link one copy at a time and never set a namespace.",
 ["geoarrow_type.h", "geoarrow_config.h.in", "CMakeLists.txt", "fast_float.h", "all of src/geoarrow"],
 [("renaming of every external symbol", "geoarrow_type.h GEOARROW_NAMESPACE block"), ("namespaced C++ parts", "fast_float.h, double_parse_fast_float.cc"), ("concatenation of the sources", "CMakeLists.txt GEOARROW_BUNDLE")],
 "entry hooks in every library function (-finstrument-functions) watched per copy; digests of the same operations compared between copies; symbol tables of the loaded copies")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
