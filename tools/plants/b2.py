S = "src/geoarrow/"
# malloc that counts and can fail, for demonstrations of leaks and allocation faults
FAULT = r'''
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void __libc_free(void*);
static long g_live = 0, g_count = 0, g_fail = -1;
static bool g_on = false;
static bool refuse() { return g_on && g_count++ == g_fail; }
extern "C" void* malloc(size_t n) { if (refuse()) return nullptr; if (g_on) g_live++; return __libc_malloc(n); }
extern "C" void* calloc(size_t n, size_t m) { if (refuse()) return nullptr; if (g_on) g_live++; return __libc_calloc(n, m); }
extern "C" void* realloc(void* p, size_t n) { if (refuse()) return nullptr; if (g_on && !p) g_live++; return __libc_realloc(p, n); }
extern "C" void free(void* p) { if (g_on && p) g_live--; __libc_free(p); }
'''
BUGS = [
dict(id="p02-assert-char", property="P02", file=S+"wkt_reader.c", san="address",
 edits=[("  if (s->size_bytes > 0 && s->data[0] == c) {", "  if (s->data[0] == c && s->size_bytes > 0) {")],
 needs="text that ends right where a ',' or ')' is required, in memory that ends there",
 breaks="one byte after the text is read",
 cc=r'''
int main() {
  for (std::string s : {"POINT (1 2", "POINT (1 2 ", "LINESTRING (1 2, 3 4", "POLYGON ((1 2, 3 4)"}) {
    int code;
    as_wkt([&](struct GeoArrowVisitor* v) { return visit_wkt(s, v); }, &code);
    CHECK(code == EINVAL);
  }
  EQ(wkt_to_wkt("POINT (1 2)"), "POINT (1 2);");
}
'''),
dict(id="p02-stale-coords", property="P02", file=S+"wkt_reader.c",
 edits=[("""    GeoArrowWKTSkipWhitespace(s);
    ResetCoordCache(s);
    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
    GeoArrowWKTSkipWhitespace(s);
    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));""",
"""    GeoArrowWKTSkipWhitespace(s);
    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
    GeoArrowWKTSkipWhitespace(s);
    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));""")],
 needs="a reader that is used again for a POINT after it failed in the middle of a coordinate list",
 breaks="coordinates of the failed text show up in the next point",
 cc=r'''
int main() {
  struct GeoArrowWKTReader r;
  OK(GeoArrowWKTReaderInit(&r));
  auto read = [&](const char* s, int want) {
    return as_wkt([&](struct GeoArrowVisitor* v) {
      struct GeoArrowStringView sv = {s, (int64_t)strlen(s)};
      int rc = GeoArrowWKTReaderVisit(&r, sv, v);
      CHECK((rc != 0) == (want != 0));
      return 0;
    });
  };
  EQ(read("POINT (7 8)", 0), "POINT (7 8);");
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowVisitorInitVoid(&v);
  struct GeoArrowStringView bad = {"LINESTRING (1 2, 3 4, x", 23};
  CHECK(GeoArrowWKTReaderVisit(&r, bad, &v) != 0);
  EQ(read("POINT (7 8)", 0), "POINT (7 8);");
  GeoArrowWKTReaderReset(&r);
}
'''),
dict(id="p07-nested-srid", property="P07", file=S+"wkb_reader.c",
 edits=[("  if (geometry_type & EWKB_SRID_BIT) {", "  if ((geometry_type & EWKB_SRID_BIT) && node->level == 0) {")],
 needs="EWKB whose nested parts carry an SRID of their own",
 breaks="the SRID of a nested part is taken for its size or coordinates",
 cc=r'''
int main() {
  for (int nested = 0; nested < 2; nested++) {
    Bytes b;
    put8(b, 1); put32(b, 7u | 0x20000000u); put32(b, 4326); put32(b, 2);
    for (int i = 0; i < 2; i++) {
      put8(b, 1); put32(b, 2u | (nested ? 0x20000000u : 0)); if (nested) put32(b, 4326);
      put32(b, 2); for (int k = 0; k < 4; k++) putd(b, k);
    }
    EQ(wkb_to_wkt(b), "GEOMETRYCOLLECTION (LINESTRING (0 1, 2 3), LINESTRING (0 1, 2 3));");
  }
}
'''),
dict(id="p08-default-dims", property="P08", file=S+"wkt_reader.c",
 edits=[("  s->coord_view.n_values = 2;\n", ""),
        ("  s->size_bytes = src.size_bytes;\n", "  s->size_bytes = src.size_bytes;\n  s->coord_view.n_values = 2;\n")],
 needs="a collection in which an XY member follows one with Z or M",
 breaks="the second member is rejected, or read with the first one's number of ordinates",
 cc=r'''
int main() {
  EQ(wkt_to_wkt("GEOMETRYCOLLECTION (POINT (1 2), POINT Z (1 2 3))"), "GEOMETRYCOLLECTION (POINT (1 2), POINT Z (1 2 3));");
  int code;
  std::string got = as_wkt([&](struct GeoArrowVisitor* v) { return visit_wkt("GEOMETRYCOLLECTION (POINT Z (1 2 3), POINT (1 2))", v); }, &code);
  CHECK(code == 0);
  EQ(got, "GEOMETRYCOLLECTION (POINT Z (1 2 3), POINT (1 2));");
}
'''),
dict(id="p10-exact-capacity", property="P10", file=S+"wkb_writer.c",
 edits=[("  if (bytes_required <= dst_size) {\n    values->size_bytes", "  if (bytes_required < dst_size) {\n    values->size_bytes"),
        ("  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(values, bytes_required));\n  dst_size", "  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(values, bytes_required + 1));\n  dst_size"),
        ("  if (bytes_required < dst_size) {\n    values->size_bytes += bytes_required;\n    return GEOARROW_OK;",
         "  if (bytes_required < dst_size) {\n    values->size_bytes += (bytes_required + 7) & ~INT64_C(15);\n    return GEOARROW_OK;")],
 needs="", breaks="", cc=""),
dict(id="p14-ring-end", property="P14", file=S+"geometry.c",
 edits=[("        GEOARROW_RETURN_NOT_OK(v->ring_end(v));", "        v->ring_end(v);")],
 needs="a ring_end callback that fails or stops early while a geometry view or WKB is visited",
 breaks="the reader goes on and reports success",
 cc=r'''
static int stop(struct GeoArrowVisitor* v) { (void)v; return EAGAIN; }
int main() {
  Bytes b;
  put8(b, 1); put32(b, 3); put32(b, 2);
  for (int i = 0; i < 2; i++) { put32(b, 4); for (int k = 0; k < 8; k++) putd(b, k); }
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowVisitorInitVoid(&v);
  OK(visit_wkb(b, &v));
  v.ring_end = &stop;
  CHECK(visit_wkb(b, &v) == EAGAIN);
}
'''),
dict(id="p05-reader-init", property="P05", file=S+"wkb_reader.c",
 edits=[("  if (result != GEOARROW_OK) {\n    ArrowFree(s);\n    return result;", "  if (result != GEOARROW_OK) {\n    return result;")],
 needs="the second allocation of GeoArrowWKBReaderInit() failing",
 breaks="the first one is leaked",
 cc=FAULT+r'''
int main() {
  for (int k = 0; k < 3; k++) {
    struct GeoArrowWKBReader r;
    g_live = g_count = 0; g_fail = k; g_on = true;
    int rc = GeoArrowWKBReaderInit(&r);
    if (rc == 0) GeoArrowWKBReaderReset(&r);
    g_on = false;
    CHECK(rc == (k < 2 ? ENOMEM : 0));
    CHECK(g_live == 0);
  }
}
'''),
dict(id="p22-static-chunk", property="P22", file=S+"geometry.c", san="thread",
 edits=[("  double coords[COORD_CACHE_SIZE_ELEMENTS];\n", "  static double coords[COORD_CACHE_SIZE_ELEMENTS];\n")],
 needs="two threads that read WKB (or visit geometries) at the same time",
 breaks="they share the coordinate block",
 cc=r'''
#include <thread>
int main() {
  std::vector<std::thread> ts;
  std::vector<int> bad(4);
  for (int t = 0; t < 4; t++) ts.emplace_back([t, &bad] {
    for (int r = 0; r < 300; r++) {
      Bytes b;
      put8(b, 1); put32(b, 2); put32(b, 100);
      for (int i = 0; i < 200; i++) putd(b, t + 1);
      std::string want = "LINESTRING (", c = std::to_string(t + 1);
      for (int i = 0; i < 100; i++) want += (i ? ", " : "") + c + " " + c;
      if (wkb_to_wkt(b) != want + ");") bad[t]++;
    }
  });
  for (auto& t : ts) t.join();
  for (int b : bad) CHECK(b == 0);
}
'''),
dict(id="p06-wkt-bitmap", property="P06", file=S+"wkt_writer.c",
 edits=[("  ArrowBitmapReset(&private->validity);\n  ArrowBufferReset(&private->offsets);", "  ArrowBufferReset(&private->offsets);")],
 needs="a WKT writer reset after a null was written but before finish",
 breaks="the validity bitmap is leaked",
 cc=FAULT+r'''
int main() {
  g_on = true;
  struct GeoArrowWKTWriter w;
  OK(GeoArrowWKTWriterInit(&w));
  struct GeoArrowVisitor v;
  GeoArrowWKTWriterInitVisitor(&w, &v);
  for (int i = 0; i < 3; i++) { OK(v.feat_start(&v)); OK(v.null_feat(&v)); OK(v.feat_end(&v)); }
  GeoArrowWKTWriterReset(&w);
  g_on = false;
  CHECK(g_live == 0);
}
'''),
dict(id="p21-types-mask", property="P21", file=S+"kernel.c",
 edits=[("    uint64_t bitmask = ((uint64_t)1) << i;\n    n_types += ", "    uint32_t bitmask = ((uint32_t)1) << (i & 31);\n    n_types += "),
        ("    uint64_t bitmask = ((uint64_t)1) << i;\n    if (result_mask & bitmask) {", "    uint32_t bitmask = ((uint32_t)1) << (i & 31);\n    if ((i < 32 || result_mask > UINT32_MAX) && (result_mask & bitmask) && i < 32) {")],
 needs="", breaks="", cc=""),
dict(id="p21-box-null-first", property="P21", file=S+"kernel.c",
 edits=[("  tmp.null_count = private_data->box2d_private.null_count;\n  private_data->box2d_private.null_count = 0;", "  tmp.null_count = private_data->box2d_private.null_count;")],
 needs="the box kernel pushed a batch without nulls after one with nulls",
 breaks="the later batch reports (and carries) nulls it does not have",
 cc=r'''
int main() {
  struct ArrowSchema s, so;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT));
  struct GeoArrowKernel k;
  OK(GeoArrowKernelInit(&k, "box", nullptr));
  Err e;
  OK(k.start(&k, &s, nullptr, &so, &e));
  for (int i = 0; i < 3; i++) {
    struct ArrowArray a, out;
    str_array(i == 0 ? std::vector<std::string>{"POINT (0 1)", "<null>"} : std::vector<std::string>{"POINT (0 1)", "POINT (2 3)"}, &a);
    OK(k.push_batch(&k, &a, &out, &e));
    CHECK(out.length == 2);
    CHECK(out.null_count == (i == 0));
    out.release(&out);
    a.release(&a);
  }
  k.release(&k);
  s.release(&s);
  so.release(&so);
}
'''),
dict(id="p19-validity-cut", property="P19", file=S+"wkt_writer.c",
 edits=[("  private->values_feat_start = private->values.size_bytes;\n\n  if (private->values.size_bytes > 2147483647) {",
         "  if (private->validity.buffer.data == NULL) {\n    private->values_feat_start = private->values.size_bytes;\n  }\n\n  if (private->values.size_bytes > 2147483647) {")],
 needs="", breaks="", cc=""),
dict(id="p20-eagain-feat-end", property="P20", file=S+"kernel.c",
 edits=[("    if (result == EAGAIN) {\n      NANOARROW_RETURN_NOT_OK(private_data->v.feat_end(&private_data->v));\n    } else if",
         "    if (result == EAGAIN) {\n      result = private_data->v.feat_end(&private_data->v);\n      if (result != EAGAIN) continue;\n    } else if")],
 needs="", breaks="", cc=""),
dict(id="p12-multipolygon-backfill", property="P12", file=S+"native_writer.c",
 edits=[("    int64_t current_length =\n        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;\n    if (private_data->validity.buffer.data == NULL) {\n      NANOARROW_RETURN_NOT_OK(\n          ArrowBitmapReserve(&private_data->validity, current_length));",
         "    int64_t current_length =\n        private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t) - 1;\n    if (private_data->validity.buffer.data == NULL) {\n      NANOARROW_RETURN_NOT_OK(\n          ArrowBitmapReserve(&private_data->validity, current_length));", 2)],
 needs="a multipolygon batch whose first null comes after features with a number of polygons other than one",
 breaks="the validity bitmap is back-filled with the number of polygons instead of features",
 cc=r'''
int main() {
  std::string two = "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)), ((5 5, 6 5, 5 6, 5 5)))", one = "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)))";
  for (auto rows : {std::vector<std::string>{one, ""}, std::vector<std::string>{one, two, "", one}, std::vector<std::string>{two, two, "", ""}}) {
    struct ArrowArray a;
    native(GEOARROW_TYPE_MULTIPOLYGON, rows, &a);
    std::string want;
    for (auto& r : rows) want += (r.empty() ? "<null>" : r) + ";";
    EQ(array_to_wkt(GEOARROW_TYPE_MULTIPOLYGON, &a), want);
    a.release(&a);
  }
}
'''),
]
BUGS = [b for b in BUGS if b["cc"]]
