CHECKS = {}

def check(pid, runs, rule, require=(), level="exploration", assumptions=(), **kw):
    CHECKS[pid] = dict(runs=runs, rule=rule, require=list(require), level=level, assumptions=list(assumptions), **kw)

def R(src, quick, thorough, config="A", **kw):
    return dict(src=src, config=config, quick=quick, thorough=thorough, **kw)

check("P01", [R("p01.cc", 160000, 3000000)],
      "random, mutated, truncated (every prefix), hostile-count and deeply nested byte strings; distinct = distinct byte strings read plus distinct event traces",
      ["read_ok", "read_rejected", "truncations", "events", "arrays"])
check("P02", [R("p02.cc", 70000, 2000000), R("p02.cc", 20000, 500000, config="B")],
      "random tokens, mutated/truncated (every prefix) WKT, over-long numbers, nesting to 200k; distinct = distinct strings parsed plus distinct event traces",
      ["parsed", "rejected", "truncations", "events", "arrays", "deep_or_long"])
check("P03", [R("p03.cc", 300000, 5000000)],
      "random tokens, mutated/truncated (every prefix) JSON metadata, hostile nesting, arbitrary CRS bytes at every interesting output capacity, arbitrary schema trees through every schema-taking entry point; distinct = distinct inputs",
      ["accepted", "rejected", "capacities", "schema_accepted", "schema_rejected", "truncations", "readers", "builders", "writers", "kernels", "copied"])
check("P23", [R("p23.cc", 500000, 5000000)],
      "every type identifier and component triple, every layout under every extension name, every non-type integer, and random mutations of valid schemas against an independent schema parser; distinct = distinct schemas",
      ["types", "cross_pairs", "triples", "unknown_types", "accepted", "rejected"])
check("P24", [R("p24.cc", 160000, 3000000)],
      "all edge x CRS type x CRS value kinds with random text and JSON values, hand-written metadata in any key order, schema updates; distinct = distinct metadata values",
      ["serialized", "roundtrip", "handwritten", "schema_set", "schema_copied", "lonlat", "own_source", "control_characters"])
check("P07", [R("p07.cc", 40000, 2000000)],
      "random geometry trees of every type and dimension, encoded by an independent ISO/EWKB encoder with endianness and SRID chosen per node, read as view, through the visitor and from all three array layouts; distinct = distinct encodings plus distinct tree shapes",
      ["views", "visits", "arrays"])
check("P08", [R("p08.cc", 45000, 1200000), R("p08.cc", 18000, 400000, config="B")],
      "random geometry trees written by an independent WKT writer with random white space and number spellings, plus near-miss mutants judged by an independent grammar; distinct = distinct texts plus tree shapes",
      ["parsed", "mutants_valid", "mutants_rejected", "arrays"])
check("P09", [R("p09.cc", 120000, 1500000), R("p09.cc", 60000, 800000, config="B")],
      "24 conversions per case: random, halfway, subnormal, over-long and near-miss number texts with arbitrary following bytes; printing random, tie and boundary doubles at precision 0-16 into a 40-byte block, judged in exact decimal arithmetic; distinct = distinct texts and (double, precision) pairs",
      ["numbers", "rejected", "printed", "printed_exp", "printed_exact"])
check("P10", [R("p10.cc", 20000, 1000000)],
      "random feature batches through the visitor (any chunking and layout), the append interface (any stride, byte order), both mixed, and the generic array writer, compared with an independent ISO encoder; distinct = distinct batches plus distinct shapes",
      ["elements", "arrays", "appended", "visited"])
check("P11", [R("p11.cc", 20000, 800000), R("p11.cc", 6000, 300000, config="B")],
      "random feature batches at random precision and MULTIPOINT style, compared with an independent canonical writer and an independent WKT grammar; distinct = distinct batches plus distinct shapes",
      ["elements", "arrays"])
check("P19", [R("p19.cc", 12000, 500000)],
      "random feature batches at random and boundary size limits through the writer and the format_wkt kernel (native and WKB input, several batches), each compared with the unlimited run; huge features of every shape for the work bound; distinct = distinct batches plus shapes",
      ["cut", "uncut", "bounded", "kernel_runs", "writer_runs", "far_limits", "megabyte_texts"])
check("P12", [R("p12.cc", 20000, 1000000)],
      "all 48 native types in turn; random feature batches through the visitor, the append interface and the generic array writer; decoded by an independent Arrow validator and by the library reader; distinct = distinct (type, shape) pairs plus distinct batches",
      ["arrays", "features", "appended", "visited", "empty_batches"])
check("P15", [R("p15.cc", 120000, 4000000)],
      "random source encoding (48 native, 6 serialized) to random target (48 native, WKB, WKT) with same-type, widening, collection and unrepresentable features, whole-array or feature by feature; distinct = distinct (source, target) pairs, batches and shapes",
      ["exact", "cast", "cast_sequences", "converted", "refused", "appended_rows", "append_refused"])
check("P04", [R("p04.cc", 300000, 3000000)],
      "random event sequences (uniform, long runs, edited well-formed features, invalid types and dimensions) into every consumer, with appends interleaved, errors ignored or not, several batches; everything a finished array's lengths entitle to read is read; distinct = distinct event histories",
      ["events", "errors", "finished", "reread", "collected", "appends", "finish_refused"])
check("P13", [R("p13.cc", 100000, 3000000)],
      "all 58 types in turn (48 native, 6 serialized, 4 boxes): hand-laid-out arrays in exact-size buffers with random offsets at every level, unused lead/trail/gap elements, garbage under nulls, several arrays through one reader and view; whole array and random sub-ranges; distinct = distinct (type, features) plus (shape, offset)",
      ["features", "ranges", "arrays", "views", "box_rows", "misfits"])
check("P14", [R("p14.cc", 180000, 2500000)],
      "every reader (WKB, WKT, geometry, geometry view, arrays of every type incl. boxes) over well-formed and mutated input: an online event grammar, then a failing callback at every event (24 sampled above 48 events) with eight codes, early stop of single features, repetition; distinct = distinct event traces and (trace, fault position) pairs",
      ["events", "faults", "stopped", "init_visitor", "visited", "rejected"])
check("P21", [R("p21.cc", 100000, 2500000)],
      "every type in turn (48 native, 6 serialized, box), 0 to 4 batches of random features (any doubles) through box, box_agg and unique_geometry_types_agg against a direct computation; non-planar edges; distinct = distinct batches, shapes and type summaries",
      ["boxes", "null_boxes", "empty_boxes", "agg_boxes", "summaries", "refused"])
check("P20", [R("p20.cc", 70000, 1500000)],
      "every kernel over every input type, random metadata and options, 0 to 3 batches: announced schema, length, nulls, metadata, each row against the same feature alone, finish protocol, unknown names, unusable options and schemas; distinct = distinct (kernel, type, features), shapes and (kernel, input, output type) triples",
      ["batches", "rows", "aggregates", "metadata", "refused", "reject_cases", "far_precisions"])
check("P05", [R("p05.cc", 10000, 60000)],
      "11 scenarios over every object kind and the kernels (random types, geometries, batches); each allocation request of a run fails in turn (all up to 40 quick / 200 thorough, else sampled), alone, with all later ones, or alone with errors ignored; distinct = distinct (scenario result, request, mode)",
      ["scenarios", "faults", "reported", "wkb", "wkt", "nodes", "wkb_writer", "wkt_writer", "native_writer", "array", "builder", "schema", "kernel", "udf"])
check("P18", [R("p18.cc", 50000, 1500000)],
      "random geometry trees as strided/reversed/constant/misaligned/byte-swapped views, WKB views and collected geometries through shallow copies, deep copies (source freed), copies of copies in re-used objects, WKB and native appends (also casts); mutated node arrays judged by an independent walk; distinct = distinct trees and node arrays",
      ["visits", "shallow", "deep", "collected", "appended_wkb", "appended_native", "appended_cast", "rejected", "still_consistent", "extremes"])
check("P17", [R("p17.cc", 50000, 1500000)],
      "sequences with lengths around every block size, presented to each writer and the collector in one call and in random partitions, strides and constant views with raw results compared; readers' chunks concatenated; kernels over interleaved, separated and WKB sources; distinct = distinct batches and shapes",
      ["presentations", "reads", "chunks", "kernel_runs", "WKB writer", "WKT writer", "native writer", "geometry"])
check("P16", [R("p16.cc", 60000, 1000000)],
      "histories of 2-6 batches (empty, all-null, all-empty, mixed) through one native/WKB/WKT/array writer (visited, appended, mixed, with refused geometries in between), builder (appended or handed-over buffers) or scalar kernel, each compared with a fresh producer given the same calls; every earlier array decoded again after each step and after reset; readers, array views and geometries re-used over good, broken and stopped inputs; distinct = distinct batches and histories",
      ["batches", "empty_batches", "visited", "appended", "mixed", "rejected", "handed_over", "pieces", "pushed", "rechecked", "released_early", "reinitialised", "reads", "failed_reads", "sets", "failed_sets", "collected"])
check("P22", [R("p22.cc", 5000, 60000, config="T"), R("p22.cc", 2000, 30000, config="U")],
      "2-8 threads each running 1-4 of 17 scenarios over every part of the C interface (all readers, writers, kernels, builders, schemas, geometries, instances of one shared factory, reads of a shared array, array view, schema and geometry) with random pauses, under ThreadSanitizer and compared with the same work alone; a quarter of the cases in fresh processes that use the library for the first time; distinct = distinct interleavings of scenario starts and ends",
      ["cold_processes", "warm_cases", "cases"])
check("P06", [R("p06.cc", 240000, 3000000)],
      "random life cycles (initialised from valid, unsupported or broken types and schemas; used, failing, finished 0-n times, abandoned) of native/WKB/WKT/array writers, readers, geometries, builders, kernels, schemas, UDFs and array views; outputs released in any order and piece by piece, inputs digested and their release callbacks counted; every library allocation accounted for; distinct = distinct histories and inputs",
      ["objects", "steps", "failed_steps", "arrays_out", "schemas_out", "arrays_released", "schemas_released", "children_moved", "inputs_checked", "owned_buffers", "histories_with_failures"])
check("P25", [R("p25.cc", 120000, 1200000)],
      "all 56 buildable types in turn: the buffers of hand-laid-out arrays supplied by appending in pieces, reserving, handing over (also replaced), mixed, or typed offset/coordinate appends, over up to 3 batches and abandoned builds; out-of-range buffer indices; distinct = distinct (type, mechanism, content) and (type, shape)",
      ["arrays", "appended", "reserved", "owned", "offset_appends", "coord_appends", "abandoned", "refused", "owned_append", "owned_null"])
check("P26", [R("p26_%s.cc" % d, 16000, 500000) for d in ("xy", "xyz", "xym", "xyzm")],
      "the 48 native types, boxes, raw memory (strided, unaligned, byte-swapped) and blobs through the typed C++ views: sizes, validity, coordinates by index, iteration, random iterator walks, slices of slices, vertex and edge visiting into every coordinate type, bounds; misfitting views; the same arrays at the end of up to 2^34 elements; distinct = distinct arrays plus shapes",
      ["arrays", "coords", "iterator_walks", "visits", "slices", "vertices", "edges", "bounds", "with_nulls", "misfits", "boxes", "aligned", "unaligned", "swapped", "floats", "blobs", "dispatches", "traits", "far_arrays", "long_arrays", "beyond_2g"])
check("P27", [R("p27.cc", 160000, 2500000)],
      "hostile, mutated, truncated and valid WKB (ISO and EWKB, byte order per node, nesting to 200000) through parsers and geometries living in dirty storage and re-used, against an independent reading; truncations at every byte and single faults with their documented status; arrays of blobs with nulls, slices and a malformed element; distinct = distinct valid inputs",
      ["parses", "valid", "trailing", "rejected", "reused", "deep", "prefixes", "single_faults", "arrays", "slices", "malformed_elements", "vertices", "edges", "huge_views", "copies", "native_xy"])
check("P28", [R("p28.cc", 100000, 1500000)],
      "all 58 types with random metadata made from ids, components, schemas and storage; random chains of derived, copied and moved descriptors; readers given owned, borrowed and misfitting arrays; writers next to their C counterpart with the same options and events; builders with appended, wrapped and typed buffers; each allocation failing; distinct = distinct (type, metadata), component tuples and (type, batch)",
      ["descriptors", "schemas", "derived", "refused", "readers", "owned", "borrowed", "misfits", "visits", "views", "writers", "written", "options", "builders", "wrapped", "appended", "offset_appends", "coord_appends", "bad_index", "abandoned", "faults", "faults_thrown", "exceptions"])
check("P29", [R("p29.py", 16000, 400000, cpu=30)],
      "the bindings built with ASan (C library with UBSan too) under Python objects allocated with malloc: types and schemas against a Python model, arrays of all 58 types with offsets at every level exported with counted release callbacks, views and everything derived from them deleted in random order, builders given every kind of buffer object (re-used, replaced, resized, released from threads without the GIL), every kernel next to the C functions called through ctypes, random calls with random arguments; repetitions must not grow the heap; distinct = distinct types, arrays, kernel inputs and call sequences",
      ["types", "derived", "ownership", "views", "buffers", "rechecks", "schema_gone", "misfits", "built", "owned", "replaced", "strided", "resize_refused", "released_elsewhere", "bad_index", "bad_buffer",
       "kernels", "kernel_errors", "aggregates", "pushed", "calls", "exceptions", "leak_checks", "constants"])
check("P30", [R("p30.cc", 40000, 800000, cpu=30)],
      "the 58 types with random metadata as Arrow C++ extension types (made from ids, components and descriptors, deserialised, imported with the types registered), chains of derived types, impossible ones; arrays of every layout imported, sliced, sent through IPC, exported and read again; everything the writers and kernels produce validated by Arrow C++; distinct = distinct (type, metadata) and (type, features)",
      ["types", "derived", "refused", "refusals", "differences", "deserialized", "imported", "arrays", "exported", "ipc", "written", "unregistered"])
check("P31", [R("p31.cc", 4000, 100000, cpu=200)],
      "blobs of 2 to 64 GB of which only the pages that say something exist, through both WKB readers, whole and cut short; builders given buffers of up to 2^33 elements; one feature of up to 2^31 - 1 coordinates; coordinates up to 2^31 bytes apart; geometries and reservations nobody can have memory for; arrays of exactly 2147483647 bytes written and one feature more refused; text and visits longer than 2 and 4 GB; metadata and CRS of 2 to 8 GB; distinct = distinct shapes of the inputs",
      ["giants", "truncated_giants", "giant_builders", "refusals", "giant_features", "far_strides", "full_outputs", "overflow_refused", "far_texts", "far_visits", "far_metadata", "far_crs", "beyond_2g"])
check("P32", [R("p32.cc", 40000, 1000000), R("p32.cc", 10000, 200000, config="B"), R("p32.cc", 8000, 200000, config="V", cpu=120), R("p32.cc", 2000, 60000, config="W", cpu=120)],
      "every kind of object and call (readers, writers, geometries, arrays, builders, schemas, metadata, kernels, number conversions, the C++ parser; valid and broken inputs), run in a plain state and in random others: bytes of fresh memory, of the stack and of objects before they are initialised, errno, locale (de, fr, ps, tr, ar), rounding mode (default build), calls made before and inside callbacks; the same operations under memcheck; distinct = distinct (operation, digest, state)",
      ["runs", "compared", "in_other_rounding", "nested_calls", "refused", "numbers", "memcheck_runs"] + ["wkb", "wkt", "nodes", "wkb_writer", "wkt_writer", "native_writer", "array", "builder", "schema", "kernel", "udf", "bad_wkb", "bad_wkt", "metadata", "bad_schema", "bad_events", "bad_kernel", "cpp"])
check("P33", [R("p33.cc", 24000, 600000, config="N")],
      "the library four times in one process: plain, and with a GEOARROW_NAMESPACE as the plain sources (fast_float and ryu), as the plain sources with the standard number conversion, and as the bundle made by CMakeLists.txt; every kind of object and call runs in each, arrays and schemas made by one are read by all; every entry into a library function is watched; distinct = distinct (operation, digest) and names",
      ["operations", "compared", "functions_entered", "names", "arrays_read", "arrays_of_others"])
