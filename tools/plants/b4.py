from importlib.machinery import SourceFileLoader
import os
PYSH = SourceFileLoader("b3", os.path.join(os.path.dirname(__file__), "b3.py")).load_module().PYSH
S = "src/geoarrow/"
H = S + "hpp/"
PYX = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"
PYH = "python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h"
BUGS = [
dict(id="p17-wkb-adjacent", property="P17", file=S+"wkb_writer.c",
 edits=[("  for (int64_t i = 0; i < coords->n_coords; i++) {\n    for (int32_t j = 0; j < coords->n_values; j++) {\n      ArrowBufferAppendUnsafe",
         "  if (coords->coords_stride == coords->n_values) {\n    ArrowBufferAppendUnsafe(&private->values, coords->values[0],\n                            coords->n_values * coords->n_coords * sizeof(double));\n    return GEOARROW_OK;\n  }\n\n  for (int64_t i = 0; i < coords->n_coords; i++) {\n    for (int32_t j = 0; j < coords->n_values; j++) {\n      ArrowBufferAppendUnsafe")],
 needs="a coordinate view with a stride of n_values whose dimensions do not lie in order",
 breaks="the bytes are copied as they lie instead of through the view's pointers",
 cc=r'''
int main() {
  double yx[] = {2, 1, 4, 3};  // y first
  struct GeoArrowWKBWriter w;
  OK(GeoArrowWKBWriterInit(&w));
  struct GeoArrowVisitor v;
  GeoArrowWKBWriterInitVisitor(&w, &v);
  struct GeoArrowCoordView c;
  c.values[0] = yx + 1;
  c.values[1] = yx;
  c.n_coords = 2;
  c.n_values = 2;
  c.coords_stride = 2;
  OK(v.feat_start(&v));
  OK(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY));
  OK(v.coords(&v, &c));
  OK(v.geom_end(&v));
  OK(v.feat_end(&v));
  struct ArrowArray a;
  OK(GeoArrowWKBWriterFinish(&w, &a, nullptr));
  EQ(array_to_wkt(GEOARROW_TYPE_WKB, &a), "LINESTRING (1 2, 3 4);");
  a.release(&a);
  GeoArrowWKBWriterReset(&w);
}
'''),
dict(id="p10-size16", property="P10", file=S+"wkb_writer.c",
 edits=[("  private->size[private->level] += (uint32_t)coords->n_coords;", "  private->size[private->level] += (uint16_t)coords->n_coords;")],
 needs="one coords call with more than 65535 coordinates",
 breaks="the number of points in the WKB is wrong",
 cc=r'''
int main() {
  for (int64_t n : {65535, 65536, 70000}) {
    std::vector<double> xs((size_t)n, 1.5);
    struct GeoArrowWKBWriter w;
    OK(GeoArrowWKBWriterInit(&w));
    struct GeoArrowVisitor v;
    GeoArrowWKBWriterInitVisitor(&w, &v);
    struct GeoArrowCoordView c;
    c.values[0] = c.values[1] = xs.data();
    c.n_coords = n;
    c.n_values = 2;
    c.coords_stride = 1;
    OK(v.feat_start(&v));
    OK(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY));
    OK(v.coords(&v, &c));
    OK(v.geom_end(&v));
    OK(v.feat_end(&v));
    struct ArrowArray a;
    OK(GeoArrowWKBWriterFinish(&w, &a, nullptr));
    uint32_t size;
    std::memcpy(&size, (const char*)a.buffers[2] + 5, 4);
    CHECK(size == (uint32_t)n);
    a.release(&a);
    GeoArrowWKBWriterReset(&w);
  }
}
'''),
dict(id="p16-wkt-null-count", property="P16", file=S+"wkt_writer.c",
 edits=[("  private->length = 0;\n  private->null_count = 0;\n\n  result", "  private->length = 0;\n\n  result")],
 needs="a writer used for a second batch after one with nulls",
 breaks="the second array claims nulls of the first one",
 cc=r'''
int main() {
  struct GeoArrowWKTWriter w;
  OK(GeoArrowWKTWriterInit(&w));
  struct GeoArrowVisitor v;
  GeoArrowWKTWriterInitVisitor(&w, &v);
  for (int batch = 0; batch < 3; batch++) {
    OK(visit_wkt("POINT (1 2)", &v));
    if (batch == 0) {
      OK(v.feat_start(&v));
      OK(v.null_feat(&v));
      OK(v.feat_end(&v));
    }
    struct ArrowArray a;
    OK(GeoArrowWKTWriterFinish(&w, &a, nullptr));
    CHECK(a.null_count == (batch == 0 ? 1 : 0));
    a.release(&a);
  }
  GeoArrowWKTWriterReset(&w);
}
'''),
dict(id="p18-m-stride", property="P18", file=S+"geoarrow_type_inline.h",
 edits=[("        src_strides[4] = node->coord_stride[3];", "        src_strides[4] = node->coord_stride[2];")],
 needs="an XYZM sequence whose M values have another stride than its Z values",
 breaks="M values are read from the wrong places",
 cc=r'''
int main() {
  double xyz[] = {1, 2, 3, 11, 12, 13};
  double m[] = {4, 14};
  struct GeoArrowGeometry g;
  OK(GeoArrowGeometryInit(&g));
  struct GeoArrowGeometryNode* node;
  OK(GeoArrowGeometryAppendNode(&g, &node));
  node->geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING;
  node->dimensions = GEOARROW_DIMENSIONS_XYZM;
  node->size = 2;
  for (int i = 0; i < 3; i++) {
    node->coords[i] = (uint8_t*)(xyz + i);
    node->coord_stride[i] = 24;
  }
  node->coords[3] = (uint8_t*)m;
  node->coord_stride[3] = 8;
  struct GeoArrowNativeWriter w;
  OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_LINESTRING_ZM));
  OK(GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&g), nullptr));
  struct ArrowArray a;
  OK(GeoArrowNativeWriterFinish(&w, &a, nullptr));
  EQ(array_to_wkt(GEOARROW_TYPE_LINESTRING_ZM, &a), "LINESTRING ZM (1 2 3 4, 11 12 13 14);");
  a.release(&a);
  GeoArrowNativeWriterReset(&w);
  GeoArrowGeometryReset(&g);
}
'''),
dict(id="p18-contiguous", property="P18", file=S+"geoarrow_type_inline.h",
 edits=[("  const uint8_t* src[4];\n  memcpy(src, node->coords, sizeof(src));\n\n  for (uint32_t i = 0; i < n_coords; i++) {",
         "  const uint8_t* src[4];\n  memcpy(src, node->coords, sizeof(src));\n\n  if (node->coord_stride[0] == (int32_t)(n_values * sizeof(double)) &&\n      src[1] == src[0] + sizeof(double)) {\n    if (n_coords > 0) {\n      memcpy(dst, src[0], (size_t)bytes_required);\n      dst += bytes_required;\n    }\n    n_coords = 0;\n  }\n\n  for (uint32_t i = 0; i < n_coords; i++) {")],
 needs="a sequence whose X and Y values look interleaved while Z lies elsewhere",
 breaks="Z is read from between the coordinates",
 cc=r'''
int main() {
  double xy[] = {1, 2, -1, 11, 12, -1};
  double z[] = {3, 13};
  struct GeoArrowGeometryNode node;
  std::memset(&node, 0, sizeof node);
  node.geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING;
  node.dimensions = GEOARROW_DIMENSIONS_XYZ;
  node.size = 2;
  node.coords[0] = (uint8_t*)xy;
  node.coords[1] = (uint8_t*)(xy + 1);
  node.coords[2] = (uint8_t*)z;
  node.coord_stride[0] = node.coord_stride[1] = 24;
  node.coord_stride[2] = 8;
  double out[6];
  CHECK(GeoArrowGeometryNodeWriteSequence(&node, (uint8_t*)out, sizeof out) == 48);
  double want[] = {1, 2, 3, 11, 12, 13};
  CHECK(std::memcmp(out, want, 48) == 0);
  struct GeoArrowGeometryView gv = {&node, 1};
  int code;
  EQ(as_wkt([&](struct GeoArrowVisitor* v) { return GeoArrowGeometryViewVisit(gv, v); }, &code, 16),
     "LINESTRING Z (1 2 3, 11 12 13);");
}
'''),
dict(id="p28-withcrs-edges", property="P28", file=H+"geometry_data_type.hpp",
 edits=[("    struct GeoArrowMetadataView metadata_view_copy = metadata_view_;\n    metadata_view_copy.crs.data = crs.data();",
         "    struct GeoArrowMetadataView metadata_view_copy {};\n    if (!crs.empty()) {\n      metadata_view_copy.edge_type = metadata_view_.edge_type;\n    }\n    metadata_view_copy.crs.data = crs.data();")],
 needs="an empty CRS given to a type with non-planar edges",
 breaks="the edge type is lost",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow;
int main() {
  auto t = Point().WithEdgeType(GEOARROW_EDGE_TYPE_SPHERICAL);
  CHECK(t.WithCrs("EPSG:4326").edge_type() == GEOARROW_EDGE_TYPE_SPHERICAL);
  CHECK(t.WithCrs("", GEOARROW_CRS_TYPE_NONE).edge_type() == GEOARROW_EDGE_TYPE_SPHERICAL);
}
'''),
dict(id="p22-static-print", property="P22", file=S+"double_print.c", san="thread",
 edits=[("  int64_t n_chars = snprintf(result, 40, \"%0.*f\", precision, f);\n",
         "  static char fmt[8];\n  if (precision > 16) {\n    precision = 16;\n  }\n  snprintf(fmt, sizeof(fmt), \"%%0.%uf\", precision);\n  int64_t n_chars = snprintf(result, 40, fmt, f);\n")],
 needs="two threads that print with different precisions",
 breaks="a shared format string: numbers come out with the other thread's precision",
 cc=r'''
#include <thread>
int main() {
  auto go = [](int p, const char* want) {
    for (int i = 0; i < 20000; i++) {
      char b[64];
      std::string s(b, (size_t)GeoArrowPrintDouble(1.0 / 3, (uint32_t)p, b));
      if (s != want) std::exit(3);
    }
  };
  std::thread a(go, 2, "0.33"), b(go, 9, "0.333333333");
  a.join(), b.join();
}
'''),
dict(id="p23-fsl-children", property="P23", file=S+"schema_view.c",
 edits=[("  if (expected_n_dims != na_schema_view.fixed_size) {", "  if (expected_n_dims > na_schema_view.fixed_size) {")],
 needs="a fixed-size list whose child name promises fewer dimensions than the list has",
 breaks="an invalid schema is accepted; coordinates would be read with the wrong stride",
 cc=r'''
int main() {
  struct ArrowSchema s;
  struct GeoArrowSchemaView v;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_INTERLEAVED_POINT_ZM));
  OK(GeoArrowSchemaViewInit(&v, &s, nullptr));
  OK(ArrowSchemaSetName(s.children[0], "xyz"));
  CHECK(GeoArrowSchemaViewInit(&v, &s, nullptr) == EINVAL);
  OK(ArrowSchemaSetName(s.children[0], "xy"));
  CHECK(GeoArrowSchemaViewInit(&v, &s, nullptr) == EINVAL);
  s.release(&s);
}
'''),
dict(id="p23-ext-prefix", property="P23", file=S+"schema_view.c",
 edits=[("  } else if (ext_len == 14 && strncmp(ext_name, \"geoarrow.point\", 14) == 0) {", "  } else if (ext_len >= 14 && strncmp(ext_name, \"geoarrow.point\", 14) == 0) {")],
 needs="an extension name that begins with geoarrow.point",
 breaks="an unknown extension is taken for points",
 cc=r'''
int main() {
  struct ArrowSchema s;
  struct GeoArrowSchemaView v;
  OK(GeoArrowSchemaInit(&s, GEOARROW_TYPE_POINT));
  for (const char* n : {"geoarrow.point", "geoarrow.pointcloud", "geoarrow.points", "geoarrow.poin"}) {
    struct GeoArrowStringView sv = {n, (int64_t)strlen(n)};
    int rc = GeoArrowSchemaViewInitFromStorage(&v, &s, sv, nullptr);
    CHECK((rc == 0) == (std::string(n) == "geoarrow.point"));
  }
  s.release(&s);
}
'''),
dict(id="p07-iso-ewkb-m", property="P07", file=S+"wkb_reader.c",
 edits=[("  } else if (geometry_type >= 2000) {\n    geometry_type = geometry_type - 2000;\n    has_m = 1;",
         "  } else if (geometry_type >= 2000) {\n    geometry_type = geometry_type - 2000;\n    has_m = 1;\n    has_z = s->geom.size_nodes > 1 && (s->geom.root->dimensions == GEOARROW_DIMENSIONS_XYZM);")],
 needs="an XYM member of a collection whose header says XYZM",
 breaks="the member is read as XYZM",
 cc=r'''
int main() {
  Bytes b;
  put8(b, 1), put32(b, 3007), put32(b, 2);
  put8(b, 1), put32(b, 2001), putd(b, 1), putd(b, 2), putd(b, 3);
  put8(b, 1), put32(b, 3001), putd(b, 1), putd(b, 2), putd(b, 3), putd(b, 4);
  struct GeoArrowWKBReader r;
  OK(GeoArrowWKBReaderInit(&r));
  struct GeoArrowGeometryView gv;
  OK(GeoArrowWKBReaderRead(&r, {b.data(), (int64_t)b.size()}, &gv, nullptr));
  CHECK(gv.size_nodes == 3 && gv.root[1].dimensions == GEOARROW_DIMENSIONS_XYM);
  GeoArrowWKBReaderReset(&r);
}
'''),
dict(id="p29-base", property="P29", file=PYX, sh=PYSH,
 edits=[("        self._base = array\n\n        cdef Error error", "        self._base = schema\n\n        cdef Error error")],
 needs="an array view that lives longer than the array it was made from",
 breaks="the buffers point into memory that has been released",
 extra={"demo.py": r'''
import array
import gc
from geoarrow.c import lib
ct = lib.CGeometryDataType.Make(1, 1, 1)
def view(n):
    b = lib.CBuilder(ct.to_schema())
    b.set_buffer_double(1, array.array("d", range(n)))
    b.set_buffer_double(2, array.array("d", range(n)))
    a = b.finish()
    return lib.CArrayView(a, ct.to_schema())
n = 4000000
v = view(n)
gc.collect()
junk = [bytearray(b"\xff" * 1000) for i in range(1000)]
bufs = v.buffers()
xs = memoryview(bufs[1])
assert list(xs[:5]) == [0, 1, 2, 3, 4] and xs[n - 1] == n - 1
'''}),
dict(id="p29-eq-prefix", property="P29", file=PYX, sh=PYSH,
 edits=[("        if self.crs_type == other.crs_type and self.crs != other.crs:", "        if self.crs_type == other.crs_type and self.crs[:64] != other.crs[:64]:")],
 needs="two types whose CRS values differ only after the first 64 bytes", breaks="they compare equal",
 extra={"demo.py": """
from geoarrow.c import lib
ct = lib.CGeometryDataType.Make(1, 1, 1)
a = ct.with_crs(b"x" * 100 + b"1", 4)
b = ct.with_crs(b"x" * 100 + b"2", 4)
assert a == ct.with_crs(b"x" * 100 + b"1", 4)
assert a != b
"""}),
]
