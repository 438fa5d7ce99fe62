from importlib.machinery import SourceFileLoader
import os
PYSH = SourceFileLoader("b3", os.path.join(os.path.dirname(__file__), "b3.py")).load_module().PYSH
ARSH = SourceFileLoader("b5", os.path.join(os.path.dirname(__file__), "b5.py")).load_module().ARSH
S = "src/geoarrow/"
H = S + "hpp/"
BUGS = [
dict(id="p09-round-to-one", property="P09", file=S+"ryu/d2s.c", conf="A",
 edits=[("      if (digits_to_trim > (int32_t)olength) {", "      if (digits_to_trim >= (int32_t)olength) {")],
 needs="a number all of whose digits lie behind the last requested decimal but that rounds up to it",
 breaks="0.06 with one decimal is printed as 0 instead of 0.1",
 cc=r'''
int main() {
  char b[64];
  auto p = [&](double x, int prec) {
    return std::string(b, (size_t)GeoArrowPrintDouble(x, prec, b));
  };
  EQ(p(0.06, 1), "0.1");
  EQ(p(0.009, 2), "0.01");
  EQ(p(0.7, 0), "1");
  EQ(p(0.0625, 4), "0.0625");
}
'''),
dict(id="p09-round-carry", property="P09", file=S+"ryu/d2s.c", conf="A",
 edits=[("          output++;\n          olength = decimalLength17(output);\n        } else {\n          olength -= digits_to_trim;\n        }\n",
         "          output++;\n        }\n        olength -= digits_to_trim;\n")],
 needs="a number below one whose digits are all nines and carry into one more digit when rounded",
 breaks="0.0996 with three decimals is printed as 0.01",
 cc=r'''
int main() {
  char b[64];
  auto p = [&](double x, int prec) {
    return std::string(b, (size_t)GeoArrowPrintDouble(x, prec, b));
  };
  EQ(p(9.96, 1), "10");
  EQ(p(99.5001, 0), "100");
  EQ(p(0.996, 2), "1");
  EQ(p(0.0996, 3), "0.1");
  EQ(p(1.26, 1), "1.3");
}
'''),
dict(id="p09-strtod-tail", property="P09", file=S+"double_parse_std.c", conf="B",
 edits=[("  if (end_ptr != last_copy) {", "  if (end_ptr == src_copy) {")],
 needs="a build without fast_float and text that begins with a number",
 breaks="1.5x is read as 1.5",
 cc=r'''
int main() {
  auto f = [](std::string s) {
    double d = 0;
    return GeoArrowFromChars(s.data(), s.data() + s.size(), &d);
  };
  CHECK(f("1.5") == 0);
  CHECK(f("x") != 0);
  CHECK(f("1.5x") != 0);
  CHECK(f("1.5.5") != 0);
}
'''),
dict(id="p15-linestring-two", property="P15", file=S+"native_writer.c",
 edits=[("  } else if (private_data->size[0] != 1) {\n    GeoArrowErrorSet(v->error, \"Can't convert feature with >1 sequence to LINESTRING\");",
         "  } else if (private_data->size[0] > 2) {\n    GeoArrowErrorSet(v->error, \"Can't convert feature with >1 sequence to LINESTRING\");")],
 needs="a feature with two sequences written to a linestring array",
 breaks="the second sequence becomes a feature of its own and later rows are shifted",
 cc=r'''
int main() {
  for (const char* s : {"MULTILINESTRING ((0 1, 2 3), (4 5, 6 7))", "POLYGON ((0 1, 2 3, 0 1), (4 5, 6 7, 4 5))"}) {
    struct GeoArrowNativeWriter w;
    OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_LINESTRING));
    struct GeoArrowVisitor v;
    std::memset(&v, 0, sizeof v);
    OK(GeoArrowNativeWriterInitVisitor(&w, &v));
    Err e;
    v.error = &e;
    CHECK(visit_wkt(s, &v) != 0);
    GeoArrowNativeWriterReset(&w);
  }
}
'''),
dict(id="p31-coord-offset32", property="P31", file=S+"array_view.c",
 edits=[("    dst->values[j] = src->values[j] + (offset * src->coords_stride);",
         "    dst->values[j] = src->values[j] + ((int32_t)offset * src->coords_stride);")],
 needs="an array of interleaved coordinates with more than 2^31 values before the one that is visited",
 breaks="the position of the coordinate wraps; other memory is read",
 cc=r'''
#include <sys/mman.h>
int main() {
  const int64_t at = 600000000;  // * 4 dimensions > 2^31
  const int64_t bytes = (at + 1) * 32;
  uint8_t* p = (uint8_t*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(p != MAP_FAILED);
  double c[] = {1, 2, 3, 4};
  std::memcpy(p + at * 32, c, sizeof c);
  struct ArrowSchema s;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_INTERLEAVED_POINT_ZM));
  struct ArrowArray child, a, *kids[] = {&child};
  std::memset(&child, 0, sizeof child);
  std::memset(&a, 0, sizeof a);
  const void *cb[] = {nullptr, p}, *ab[] = {nullptr};
  child.length = (at + 1) * 4, child.n_buffers = 2, child.buffers = cb;
  a.length = at + 1, a.n_buffers = 1, a.buffers = ab, a.n_children = 1, a.children = kids;
  struct GeoArrowArrayView av;
  Err e;
  OK(GeoArrowArrayViewInitFromType(&av, GEOARROW_TYPE_INTERLEAVED_POINT_ZM));
  OK(GeoArrowArrayViewSetArray(&av, &a, &e));
  EQ(as_wkt([&](struct GeoArrowVisitor* v) { return GeoArrowArrayViewVisitNative(&av, at, 1, v); }),
     "POINT ZM (1 2 3 4);");
  s.release(&s);
  munmap(p, bytes);
}
'''),
dict(id="p31-builder-bytes32", property="P31", file=S+"builder.c",
 edits=[("    res->array->length = size_bytes / sizeof(double);", "    res->array->length = (uint32_t)size_bytes / sizeof(double);")],
 needs="a coordinate buffer of 4 GB or more",
 breaks="the length of the finished array is taken from the low 32 bits of the size",
 cc=r'''
#include <sys/mman.h>
static void give_back(uint8_t* p, int64_t n, void*) { munmap(p, (size_t)n); }
int main() {
  const int64_t n = 600000000, bytes = n * 8;
  struct GeoArrowBuilder b;
  OK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_POINT));
  for (int i = 1; i <= 2; i++) {
    uint8_t* p = (uint8_t*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CHECK(p != MAP_FAILED);
    struct GeoArrowBufferView v = {p, bytes};
    OK(GeoArrowBuilderSetOwnedBuffer(&b, i, v, &give_back, nullptr));
  }
  struct ArrowArray a;
  Err e;
  OK(GeoArrowBuilderFinish(&b, &a, &e));
  CHECK(a.length == n);
  CHECK(a.children[0]->length == n);
  a.release(&a);
  GeoArrowBuilderReset(&b);
}
'''),
dict(id="p32-deep-sizes", property="P32", file=S+"geometry.c",
 edits=[("  memset(sizes, 0, sizeof(sizes));", "  memset(sizes, 0, 6 * sizeof(uint32_t));")],
 needs="collections nested more than five deep, collected while the stack holds other values than zero",
 breaks="the number of members includes whatever was on the stack",
 cc=r'''
static int __attribute__((noinline)) dirty(int n) {
  volatile char b[4096];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)n;
  return b[17];
}
int main() {
  std::string s = "POINT (1 2)";
  for (int i = 0; i < 9; i++) s = "GEOMETRYCOLLECTION (" + s + ")";
  for (int fill : {0, 1, 0x5a, 0xff}) {
    struct GeoArrowGeometry g;
    OK(GeoArrowGeometryInit(&g));
    struct GeoArrowVisitor v;
    std::memset(&v, 0, sizeof v);
    GeoArrowGeometryInitVisitor(&g, &v);
    static int (*inner)(struct GeoArrowVisitor*);
    static int pattern;
    inner = v.feat_end;
    pattern = fill;
    v.feat_end = [](struct GeoArrowVisitor* x) {
      dirty(pattern);
      return inner(x);
    };
    OK(visit_wkt(s, &v));
    for (int i = 0; i < 9; i++) CHECK(g.root[i].size == 1);
    GeoArrowGeometryReset(&g);
  }
}
'''),
dict(id="p32-errno", property="P32", file=S+"double_parse_std.c", conf="B",
 edits=[("  double result = strtod(src_copy, &end_ptr);\n  if (end_ptr != last_copy) {",
         "  double result = strtod(src_copy, &end_ptr);\n  if (end_ptr != last_copy || errno == ERANGE) {")],
 needs="errno being ERANGE before the call (a build without fast_float)",
 breaks="valid numbers are rejected",
 cc=r'''
#include <cerrno>
int main() {
  double d;
  errno = 0;
  OK(GeoArrowFromChars("1.5", "1.5" + 3, &d));
  errno = ERANGE;
  OK(GeoArrowFromChars("1.5", "1.5" + 3, &d));
  CHECK(d == 1.5);
}
'''),
dict(id="p21-box-nan-first", property="P21", file=S+"kernel.c",
 edits=[("      if (value < private_data->box2d_private.min_values[dim_i]) {\n        private_data->box2d_private.min_values[dim_i] = value;\n      }\n\n      if (value > private_data->box2d_private.max_values[dim_i]) {",
         "      if (value < private_data->box2d_private.min_values[dim_i]) {\n        private_data->box2d_private.min_values[dim_i] = value;\n      }\n\n      if (!(value <= private_data->box2d_private.max_values[dim_i])) {")],
 needs="a NaN among the coordinates",
 breaks="the maximum becomes NaN or forgets what came before it",
 cc=r'''
int main() {
  struct ArrowSchema s, out_s;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_LINESTRING));
  struct ArrowArray a, out;
  native(GEOARROW_TYPE_LINESTRING, {"LINESTRING (9 9, nan nan, 1 1)"}, &a);
  struct GeoArrowKernel k;
  Err e;
  OK(GeoArrowKernelInit(&k, "box", nullptr));
  OK(k.start(&k, &s, nullptr, &out_s, &e));
  OK(k.push_batch(&k, &a, &out, &e));
  CHECK(((const double*)out.children[2]->buffers[1])[0] == 9);
  CHECK(((const double*)out.children[0]->buffers[1])[0] == 1);
  out.release(&out), a.release(&a), s.release(&s), out_s.release(&out_s);
  k.release(&k);
}
'''),
dict(id="p11-flat-nested", property="P11", file=S+"wkt_writer.c",
 edits=[("  } else if (private->level < 1 || !private->use_flat_multipoint ||\n             private->geometry_type[private->level - 1] !=\n                 GEOARROW_GEOMETRY_TYPE_MULTIPOINT) {\n    private->level--;",
         "  } else if (private->level != 1 || !private->use_flat_multipoint ||\n             private->geometry_type[private->level - 1] !=\n                 GEOARROW_GEOMETRY_TYPE_MULTIPOINT) {\n    private->level--;")],
 needs="a multipoint inside a collection with flat multipoints (the default)",
 breaks="closing parentheses that were never opened",
 cc=r'''
int main() {
  EQ(wkt_to_wkt("MULTIPOINT ((1 2), (3 4))"), "MULTIPOINT (1 2, 3 4);");
  EQ(wkt_to_wkt("GEOMETRYCOLLECTION (MULTIPOINT ((1 2), (3 4)))"),
     "GEOMETRYCOLLECTION (MULTIPOINT (1 2, 3 4));");
}
'''),
dict(id="p08-point-space", property="P08", file=S+"wkt_reader.c",
 edits=[("    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));\n    GeoArrowWKTSkipWhitespace(s);\n    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));",
         "    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));\n    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));")],
 needs="white space between the last ordinate of a POINT and its closing parenthesis",
 breaks="valid text is rejected",
 cc=r'''
int main() {
  EQ(wkt_to_wkt("POINT (1 2)"), "POINT (1 2);");
  EQ(wkt_to_wkt("LINESTRING ( 1 2 , 3 4 )"), "LINESTRING (1 2, 3 4);");
  EQ(wkt_to_wkt("POINT ( 1 2 )"), "POINT (1 2);");
  EQ(wkt_to_wkt("MULTIPOINT ((1 2\n), (3 4))"), "MULTIPOINT (1 2, 3 4);");
}
'''),
dict(id="p02-peek-end", property="P02", file=S+"wkt_reader.c", san="address",
 edits=[("  if (word.size_bytes == 5 && strncmp(word.data, \"EMPTY\", 5) == 0) {\n    GeoArrowWKTAdvanceUnsafe(s, 5);",
         "  if (word.size_bytes >= 1 && memcmp(word.data, \"EMPTY\", 5) == 0) {\n    GeoArrowWKTAdvanceUnsafe(s, 5);")],
 needs="text that ends inside the word EMPTY, in memory that ends there",
 breaks="bytes after the text are read",
 cc=r'''
int main() {
  for (const char* s : {"POINT EMP", "POINT E", "POLYGON (EM", "MULTIPOINT EMPT"}) {
    std::string t = s;
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    Err e;
    v.error = &e;
    CHECK(visit_wkt(t, &v) != 0);
  }
}
'''),
]
