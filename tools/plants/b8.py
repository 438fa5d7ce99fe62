S = "src/geoarrow/"
BUGS = [
dict(id="p01-bytes32", property="P01", file=S+"wkb_reader.c", san="address",
 edits=[("  if (s->size_bytes < bytes_needed) {", "  if (s->size_bytes < (uint32_t)bytes_needed) {")],
 needs="a count whose size in bytes passes 2^32",
 breaks="a sequence that is not there is accepted and coordinates are read from behind the buffer",
 cc=r'''
int main() {
  for (uint32_t n : {0x10000000u, 0x20000000u, 0x10000001u, 0xf0000000u}) {
    Bytes b;
    put8(b, 1); put32(b, 2); put32(b, n);
    putd(b, 1); putd(b, 2);
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    Err err;
    v.error = &err;
    CHECK(visit_wkb(b, &v) != GEOARROW_OK);
  }
}
'''),
dict(id="p10-root-dims", property="P10", file=S+"wkb_writer.c",
 edits=[("    uint32_t iso_geometry_type = node->geometry_type + ((node->dimensions - 1) * 1000);", "    uint32_t iso_geometry_type = node->geometry_type + ((geom.root->dimensions - 1) * 1000);")],
 needs="a collection with a member of other dimensions than its own",
 breaks="the member is written with the code of the collection's dimensions but its own coordinates",
 cc=r'''
int main() {
  Bytes b;
  put8(b, 1); put32(b, 7); put32(b, 2);
  put8(b, 1); put32(b, 1); putd(b, 1); putd(b, 2);
  put8(b, 1); put32(b, 1001); putd(b, 3); putd(b, 4); putd(b, 5);
  struct GeoArrowWKBReader r;
  OK(GeoArrowWKBReaderInit(&r));
  struct GeoArrowGeometryView g;
  Err err;
  struct GeoArrowBufferView src = {b.data(), (int64_t)b.size()};
  OK(GeoArrowWKBReaderRead(&r, src, &g, &err));
  struct GeoArrowWKBWriter w;
  OK(GeoArrowWKBWriterInit(&w));
  OK(GeoArrowWKBWriterAppend(&w, g));
  struct ArrowArray a;
  OK(GeoArrowWKBWriterFinish(&w, &a, &err));
  CHECK(strings(&a)[0] == std::string(b.begin(), b.end()));
  a.release(&a);
  GeoArrowWKBWriterReset(&w);
  GeoArrowWKBReaderReset(&r);
}
'''),
dict(id="p17-adjacent", property="P17", file=S+"wkb_writer.c",
 edits=[("  for (int64_t i = 0; i < coords->n_coords; i++) {\n    for (int32_t j = 0; j < coords->n_values; j++) {\n      ArrowBufferAppendUnsafe(&private->values,",
  "  // Interleaved coordinates are already in the order they are needed in\n  if (coords->n_coords > 1 && coords->coords_stride == coords->n_values) {\n    ArrowBufferAppendUnsafe(&private->values, coords->values[0],\n                            coords->n_coords * coords->n_values * sizeof(double));\n    return GEOARROW_OK;\n  }\n\n  for (int64_t i = 0; i < coords->n_coords; i++) {\n    for (int32_t j = 0; j < coords->n_values; j++) {\n      ArrowBufferAppendUnsafe(&private->values,")],
 needs="coordinates as far apart as if they were interleaved, with the ordinates in another order or place",
 breaks="the wrong ordinates are written",
 cc=r'''
int main() {
  double yx[] = {2, 1, 4, 3, 6, 5};
  struct GeoArrowCoordView c;
  std::memset(&c, 0, sizeof c);
  c.n_coords = 3; c.n_values = 2; c.coords_stride = 2;
  c.values[0] = yx + 1; c.values[1] = yx;
  auto s = as_wkb([&](struct GeoArrowVisitor* v) {
    OK(v->feat_start(v));
    OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY));
    OK(v->coords(v, &c));
    OK(v->geom_end(v));
    return v->feat_end(v);
  });
  EQ(wkb_to_wkt(Bytes(s[0].begin(), s[0].end())), std::string("LINESTRING (1 2, 3 4, 5 6);"));
}
'''),
dict(id="p25-padded", property="P25", file=S+"builder.c", san="address",
 edits=[("  buffer_src->capacity_bytes = value.size_bytes;", "  // Arrow buffers are padded to 64 bytes\n  buffer_src->capacity_bytes = (value.size_bytes + 63) / 64 * 64;")],
 needs="appending to a buffer that is owned by the caller and not padded",
 breaks="the data appended is written behind the caller's buffer",
 cc=r'''
static void give_back(uint8_t* p, int64_t, void*) { std::free(p); }
int main() {
  struct GeoArrowBuilder b;
  OK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_WKB));
  uint8_t* p = (uint8_t*)std::malloc(5);
  std::memcpy(p, "hello", 5);
  struct GeoArrowBufferView v = {p, 5};
  OK(GeoArrowBuilderSetOwnedBuffer(&b, 2, v, &give_back, nullptr));
  struct GeoArrowBufferView more = {(const uint8_t*)"world", 5};
  CHECK(GeoArrowBuilderAppendBuffer(&b, 2, more) != GEOARROW_OK);
  GeoArrowBuilderReset(&b);
}
'''),
dict(id="p05-finish-move", property="P05", file=S+"builder.c",
 edits=[("  struct ArrowArray next;\n  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromSchema(&next, &private->schema, NULL));\n\n  // Move the result\n  ArrowArrayMove(&private->array, array);\n  ArrowArrayMove(&next, &private->array);\n  return GeoArrowBuilderCachePointers(builder);",
  "  // (moving the result first)\n  ArrowArrayMove(&private->array, array);\n  NANOARROW_RETURN_NOT_OK(\n      ArrowArrayInitFromSchema(&private->array, &private->schema, NULL));\n  return GeoArrowBuilderCachePointers(builder);")],
 needs="running out of memory while the builder is made ready for the next array",
 breaks="the finished array is lost in the caller's hands although an error is returned",
 cc=r'''
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void __libc_free(void*);
static long g_live = 0, g_count = 0, g_fail = -1;
static bool g_on = false;
static bool refuse() { return g_on && g_count++ == g_fail; }
extern "C" void* malloc(size_t n) { if (refuse()) return nullptr; if (g_on) g_live++; return __libc_malloc(n); }
extern "C" void* calloc(size_t n, size_t m) { if (refuse()) return nullptr; if (g_on) g_live++; return __libc_calloc(n, m); }
extern "C" void* realloc(void* p, size_t n) { if (refuse()) return nullptr; if (g_on && !p) g_live++; return __libc_realloc(p, n); }
extern "C" void free(void* p) { if (g_on && p) g_live--; __libc_free(p); }

int main() {
  bool done = false;
  for (int k = 0; k < 500 && !done; k++) {
    struct GeoArrowBuilder b;
    struct ArrowArray a;
    a.release = nullptr;
    Err err;
    g_live = g_count = 0; g_fail = k; g_on = true;
    int rc = GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_LINESTRING);
    if (rc == 0) {
      rc = GeoArrowBuilderFinish(&b, &a, &err);
      if (rc == 0) a.release(&a), done = true;
      GeoArrowBuilderReset(&b);
    }
    g_on = false;
    if (g_live != 0) printf("refusing %d: %ld blocks left\n", k, g_live);
    CHECK(g_live == 0);
  }
  CHECK(done);
}
'''),
]
