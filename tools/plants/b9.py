S = "src/geoarrow/"
BUGS = [
dict(id="p24-own-source", property="P24", file=S+"metadata.c", san="address",
 edits=[("""  struct ArrowBuffer buffer;
  NANOARROW_RETURN_NOT_OK(ArrowMetadataBuilderInit(&buffer, schema->metadata));
  int result = ArrowMetadataBuilderSet(""", """  struct ArrowBuffer buffer;
  NANOARROW_RETURN_NOT_OK(ArrowMetadataBuilderInit(&buffer, schema->metadata));

  // The builder has its own copy, which is going to replace what is there
  if (schema->metadata != NULL) {
    NANOARROW_RETURN_NOT_OK(ArrowSchemaSetMetadata(schema, NULL));
  }

  int result = ArrowMetadataBuilderSet(""")],
 needs="a schema whose metadata is set from itself",
 breaks="the extension metadata is copied from memory that has been freed",
 cc=r'''
int main() {
  struct ArrowSchema s;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_POINT));
  struct GeoArrowMetadataView m;
  std::memset(&m, 0, sizeof(m));
  GeoArrowMetadataSetLonLat(&m);
  m.edge_type = GEOARROW_EDGE_TYPE_SPHERICAL;
  OK(GeoArrowSchemaSetMetadata(&s, &m));
  OK(GeoArrowSchemaSetMetadataFrom(&s, &s));
  struct GeoArrowSchemaView v;
  Err err;
  OK(GeoArrowSchemaViewInit(&v, &s, &err));
  struct GeoArrowMetadataView back;
  OK(GeoArrowMetadataViewInit(&back, v.extension_metadata, &err));
  CHECK(back.edge_type == GEOARROW_EDGE_TYPE_SPHERICAL);
  EQ(std::string(back.crs.data, back.crs.size_bytes), std::string(m.crs.data, m.crs.size_bytes));
  s.release(&s);
}
'''),
dict(id="p31-metadata-size32", property="P31", file=S+"metadata.c",
 edits=[("  int n_keys = 0;\n  int64_t size_out = 0;\n  size_out += kSizeOuterBraces;", "  int n_keys = 0;\n  uint32_t size_out = 0;\n  size_out += kSizeOuterBraces;")],
 needs="a CRS of more than 4 GB",
 breaks="the size of the serialised metadata is reported modulo 2^32, so a buffer of that size is overrun",
 cc=r'''
#include <sys/mman.h>
int main() {
  const size_t n = (size_t)4294967296 + 100;
  char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CHECK(p != MAP_FAILED);
  p[0] = '{';
  p[n - 1] = '}';
  struct GeoArrowMetadataView m;
  std::memset(&m, 0, sizeof(m));
  m.crs_type = GEOARROW_CRS_TYPE_PROJJSON;
  m.crs.data = p;
  m.crs.size_bytes = (int64_t)n;
  CHECK(GeoArrowMetadataSerialize(&m, nullptr, 0) > (int64_t)n);
}
'''),
dict(id="p26-child-offset32", property="P26", file=S+"hpp/array_util.hpp",
 edits=[("""    int32_t child_offset = offsets[offset + i];
    child_p->offset = child.offset + child_offset;
    child_p->length = offsets[offset + i + 1] - child_offset;""",
"""    const int32_t* bounds = offsets + offset + i;
    const int32_t first = static_cast<int32_t>(child.offset) + bounds[0];
    child_p->offset = first;
    child_p->length = bounds[1] - bounds[0];""")],
 needs="a list array whose child has an offset of 2^31 or more",
 breaks="lists are taken from elsewhere in the child",
 cc=r'''
#include <sys/mman.h>
#include "geoarrow/hpp/array_util.hpp"
int main() {
  const int64_t far = (int64_t)2147483648 + 12;
  const size_t bytes = (size_t)(far + 4) * 8;
  double* v[2];
  for (int i = 0; i < 2; i++) {
    v[i] = (double*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CHECK(v[i] != MAP_FAILED);
    for (int k = 0; k < 4; k++) v[i][far + k] = 10 * k + i;
  }
  int32_t offsets[] = {0, 2, 4};
  geoarrow::array_util::ListSequence<geoarrow::array_util::CoordSequence<geoarrow::array_util::XY<double>>> s;
  s.length = 2;
  s.offsets = offsets;
  OK(s.child.InitSeparated(4, {v[0], v[1]}));
  s.child.offset = far;
  std::string got;
  for (const auto& line : s) {
    CHECK(line.offset >= far);
    for (const auto c : line) got += std::to_string((int)c.x()) + " " + std::to_string((int)c.y()) + ",";
    got += ";";
  }
  EQ(got, "0 1,10 11,;20 21,30 31,;");
}
'''),
dict(id="p15-point-size", property="P15", file=S+"native_writer.c",
 edits=[("      if (coord_count > 1) {\n        GeoArrowErrorSet(\n            error, \"Can't append geometry with coord count >1 to array of type POINT\");",
         "      if (node->size > 1) {\n        GeoArrowErrorSet(\n            error, \"Can't append geometry with coord count >1 to array of type POINT\");")],
 needs="a collection of one geometry of more coordinates, appended to a POINT array",
 breaks="the coordinates after the first become rows of their own, moving the rows that follow",
 cc=r'''
int main() {
  Bytes b;
  put8(b, 1); put32(b, 7); put32(b, 1);
  put8(b, 1); put32(b, 2); put32(b, 2);
  putd(b, 1); putd(b, 2); putd(b, 3); putd(b, 4);
  struct GeoArrowWKBReader r;
  OK(GeoArrowWKBReaderInit(&r));
  struct GeoArrowGeometryView g;
  Err err;
  struct GeoArrowBufferView src = {b.data(), (int64_t)b.size()};
  OK(GeoArrowWKBReaderRead(&r, src, &g, &err));
  struct GeoArrowNativeWriter w;
  OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POINT));
  CHECK(GeoArrowNativeWriterAppend(&w, g, &err) != GEOARROW_OK);
  GeoArrowNativeWriterReset(&w);
  GeoArrowWKBReaderReset(&r);
}
'''),
dict(id="p13-view-again", property="P13", file=S+"array_view.c",
 edits=[("  array_view->validity_bitmap = array->buffers[0];", "  // Arrays without nulls may still have a bitmap, which need not be looked at\n  if (array->null_count != 0) {\n    array_view->validity_bitmap = array->buffers[0];\n  }")],
 needs="a view set to an array with nulls and then to one without",
 breaks="the second array is read with the validity of the first (which may have been released)",
 cc=r'''
int main() {
  struct GeoArrowArrayView view;
  OK(GeoArrowArrayViewInitFromType(&view, GEOARROW_TYPE_POINT));
  std::string got;
  for (int round = 0; round < 2; round++) {
    struct GeoArrowNativeWriter w;
    OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POINT));
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    OK(GeoArrowNativeWriterInitVisitor(&w, &v));
    struct GeoArrowWKTReader r;
    OK(GeoArrowWKTReaderInit(&r));
    for (int i = 0; i < 3; i++) {
      if (round == 0 && i == 1) {
        OK(v.feat_start(&v)); OK(v.null_feat(&v)); OK(v.feat_end(&v));
      } else {
        struct GeoArrowStringView t = {"POINT (1 2)", 11};
        OK(GeoArrowWKTReaderVisit(&r, t, &v));
      }
    }
    GeoArrowWKTReaderReset(&r);
    struct ArrowArray a;
    Err err;
    OK(GeoArrowNativeWriterFinish(&w, &a, &err));
    GeoArrowNativeWriterReset(&w);
    OK(GeoArrowArrayViewSetArray(&view, &a, &err));
    static struct ArrowArray keep[2];
    keep[round] = a;
    got = as_wkt([&](struct GeoArrowVisitor* o) { return GeoArrowArrayViewVisitNative(&view, 0, 3, o); });
  }
  EQ(got, "POINT (1 2);POINT (1 2);POINT (1 2);");
}
'''),
]
