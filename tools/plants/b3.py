S = "src/geoarrow/"
H = S + "hpp/"
PYSH = r'''#!/bin/bash
# cwd: the repository. Builds the Python extension in a scratch copy and runs demo.py with it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p $T/r/python
cp -r src CMakeLists.txt $T/r/ && cp -r python/geoarrow-c $T/r/python/ || exit 9
cd $T/r/python/geoarrow-c
rm -rf build src/geoarrow/c/_lib*.so src/geoarrow/c/_lib.cpp
PY=/opt/vp/venv/bin/python
CFLAGS="-O1 -g0 -w" SETUPTOOLS_SCM_PRETEND_VERSION=0.2.0 $PY setup.py build_ext --inplace >$T/log 2>&1 || { tail -5 $T/log; exit 9; }
PYTHONPATH=$T/r/python/geoarrow-c/src timeout 120 $PY "$D/demo.py"
'''
PYX = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"
BUGS = [
dict(id="p03-null-short", property="P03", file=S+"metadata.c", san="address",
 edits=[("  if (s->size_bytes < 4) {\n    return EINVAL;\n  }\n\n  if (strncmp(s->data, \"null\", 4) != 0) {",
         "  if (s->size_bytes < 2) {\n    return EINVAL;\n  }\n\n  if (strncmp(s->data, \"null\", 4) != 0) {")],
 needs="metadata cut off inside the word null, in memory that ends there",
 breaks="bytes after the metadata are read",
 cc=r'''
int main() {
  for (std::string s : {"{\"crs\": nul", "{\"crs\": nu", "{\"edges\": n", "{\"crs\":"}) {
    char* p = (char*)std::malloc(s.size());
    std::memcpy(p, s.data(), s.size());
    struct GeoArrowMetadataView v;
    struct GeoArrowStringView sv = {p, (int64_t)s.size()};
    CHECK(GeoArrowMetadataViewInit(&v, sv, nullptr) == EINVAL);
    std::free(p);
  }
}
'''),
dict(id="p24-unescape", property="P24", file=S+"metadata.c",
 edits=[("    if (!is_escape && crs.data[i] == '\\\\') {\n      is_escape = 1;\n      continue;\n    } else {\n      is_escape = 0;\n    }",
         "    if (!is_escape && crs.data[i] == '\\\\') {\n      is_escape = 1;\n      continue;\n    } else if (crs.data[i] != '\\\\') {\n      is_escape = 0;\n    }")],
 needs="a CRS with several backslashes in a row",
 breaks="backslashes are not unescaped consistently: the CRS read back differs",
 cc=r'''
int main() {
  for (std::string crs : {"a\\b", "a\\\\b", "\\\\\\", "q\"\\\"\\\\\"", "x\\\\\\\\y"}) {
    struct GeoArrowMetadataView v;
    std::memset(&v, 0, sizeof v);
    v.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
    v.crs = {crs.data(), (int64_t)crs.size()};
    int64_t n = GeoArrowMetadataSerialize(&v, nullptr, 0);
    std::string s((size_t)n, 0);
    GeoArrowMetadataSerialize(&v, &s[0], n);
    struct GeoArrowMetadataView w;
    OK(GeoArrowMetadataViewInit(&w, {s.data(), n}, nullptr));
    std::string out(100, 0);
    out.resize((size_t)GeoArrowUnescapeCrs(w.crs, &out[0], 100));
    EQ(out, crs);
  }
}
'''),
dict(id="p24-size-backslash", property="P24", file=S+"metadata.c", san="address",
 edits=[("        size_out += val == '\\\\' || val == '\"';", "        size_out += val == '\"' || (val == '\\\\' && i + 1 < metadata_view->crs.size_bytes);")],
 needs="a CRS that ends with a backslash",
 breaks="the size is one short: the buffer is overrun by one byte",
 cc=r'''
int main() {
  for (std::string crs : {"a\\b", "a\"", "ab\\", "\\"}) {
    struct GeoArrowMetadataView v;
    std::memset(&v, 0, sizeof v);
    v.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
    v.crs = {crs.data(), (int64_t)crs.size()};
    struct ArrowSchema schema;
    OK(GeoArrowSchemaInitExtension(&schema, GEOARROW_TYPE_POINT));
    OK(GeoArrowSchemaSetMetadata(&schema, &v));
    struct GeoArrowSchemaView sv;
    OK(GeoArrowSchemaViewInit(&sv, &schema, nullptr));
    struct GeoArrowMetadataView w;
    OK(GeoArrowMetadataViewInit(&w, sv.extension_metadata, nullptr));
    std::string out(100, 0);
    out.resize((size_t)GeoArrowUnescapeCrs(w.crs, &out[0], 100));
    EQ(out, crs);
    schema.release(&schema);
  }
}
'''),
dict(id="p13-box-child-offset", property="P13", file=S+"array_view.c",
 edits=[("        ((const double*)array->children[i]->buffers[1]) + array->children[i]->offset;\n  }\n\n  if (array->n_buffers != 1) {\n    GeoArrowErrorSet(error,\n                     \"Unexpected number of buffers for box",
         "        ((const double*)array->children[i]->buffers[1]) + array->children[0]->offset;\n  }\n\n  if (array->n_buffers != 1) {\n    GeoArrowErrorSet(error,\n                     \"Unexpected number of buffers for box")],
 needs="a box array whose child arrays have different offsets",
 breaks="bounds are taken from the wrong rows",
 cc=r'''
int main() {
  struct ArrowArray a;
  OK(ArrowArrayInitFromType(&a, NANOARROW_TYPE_STRUCT));
  OK(ArrowArrayAllocateChildren(&a, 4));
  for (int i = 0; i < 4; i++) {
    OK(ArrowArrayInitFromType(a.children[i], NANOARROW_TYPE_DOUBLE));
    OK(ArrowArrayStartAppending(a.children[i]));
    for (int k = 0; k < i + 2; k++)
      OK(ArrowArrayAppendDouble(a.children[i], 10 * (i + 1) + k));
    OK(ArrowArrayFinishBuildingDefault(a.children[i], nullptr));
    a.children[i]->offset = i;
    a.children[i]->length = 2;
  }
  a.length = 2;
  a.null_count = 0;
  EQ(array_to_wkt(GEOARROW_TYPE_BOX, &a),
     "POLYGON ((10 21, 32 21, 32 43, 10 43, 10 21));POLYGON ((11 22, 33 22, 33 44, 11 44, 11 22));");
  a.release(&a);
}
'''),
dict(id="p13-polygon-vertex-offset", property="P13", file=S+"array_view.c",
 edits=[("        coord_offset += array_view->offset[2];\n        GeoArrowCoordViewUpdate(&array_view->coords, &coords, coord_offset, n_coords);\n        NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));\n        NANOARROW_RETURN_NOT_OK(v->ring_end(v));",
         "        coord_offset += array_view->offset[1];\n        GeoArrowCoordViewUpdate(&array_view->coords, &coords, coord_offset, n_coords);\n        NANOARROW_RETURN_NOT_OK(v->coords(v, &coords));\n        NANOARROW_RETURN_NOT_OK(v->ring_end(v));")],
 needs="a polygon array whose vertex array has another offset than its ring array",
 breaks="rings get the coordinates of others",
 cc=r'''
int main() {
  struct ArrowArray a;
  native(GEOARROW_TYPE_POLYGON, {"POLYGON ((0 0, 1 0, 0 1, 0 0))", "POLYGON ((5 5, 6 5, 5 6, 5 5), (7 7, 8 8, 9 9, 7 7))"}, &a);
  // drop the first vertex of the ring array's child: all of the offsets move by one
  struct ArrowArray* rings = a.children[0];
  int32_t* off = (int32_t*)rings->buffers[1];
  off[1]--, off[2]--, off[3]--;
  rings->children[0]->offset = 1;
  rings->children[0]->length--;
  EQ(array_to_wkt(GEOARROW_TYPE_POLYGON, &a, 1, 1), "POLYGON ((5 5, 6 5, 5 6, 5 5), (7 7, 8 8, 9 9, 7 7));");
  a.release(&a);
}
'''),
dict(id="p20-error-stale", property="P20", file=S+"kernel.c",
 edits=[("  private_data->v.error = error;\n  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,",
         "  if (private_data->v.error == NULL) {\n    private_data->v.error = error;\n  }\n  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,")],
 san="address",
 needs="several batches, each with an error object of its own, of which a later one fails",
 breaks="the message is written to the error object of an earlier call, which may be gone",
 cc=r'''
int main() {
  struct GeoArrowKernel k;
  OK(GeoArrowKernelInit(&k, "visit_void_agg", nullptr));
  struct ArrowSchema s, o;
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT));
  Err* e = new Err();
  OK(k.start(&k, &s, nullptr, &o, e));
  struct ArrowArray a;
  str_array({"POINT (1 2)"}, &a);
  OK(k.push_batch(&k, &a, nullptr, e));
  a.release(&a);
  delete e;
  e = new Err();
  str_array({"POINT (1 x)"}, &a);
  CHECK(k.push_batch(&k, &a, nullptr, e) == EINVAL);
  CHECK(e->message[0] != 0);
  a.release(&a), s.release(&s), o.release(&o);
  k.release(&k);
  delete e;
}
'''),
dict(id="p23-box-max-dims", property="P23", file=S+"schema_view.c",
 edits=[("    if (max_dim != dim[i]) {", "    if (max_dim != dim[i] && i < 2) {")],
 needs="a box schema with a third dimension whose upper bound has another name than the lower bound",
 breaks="an invalid schema is accepted as BOX Z/M",
 cc=r'''
int main() {
  struct ArrowSchema s;
  struct GeoArrowSchemaView v;
  for (auto t : {GEOARROW_TYPE_BOX, GEOARROW_TYPE_BOX_Z, GEOARROW_TYPE_BOX_M, GEOARROW_TYPE_BOX_ZM}) {
    OK(GeoArrowSchemaInitExtension(&s, t));
    OK(GeoArrowSchemaViewInit(&v, &s, nullptr));
    CHECK(v.type == t);
    s.release(&s);
  }
  OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_BOX_Z));
  OK(ArrowSchemaSetName(s.children[5], "mmax"));
  CHECK(GeoArrowSchemaViewInit(&v, &s, nullptr) == EINVAL);
  s.release(&s);
}
'''),
dict(id="p25-owned-replace", property="P25", file=S+"builder.c",
 edits=[("  ArrowBufferReset(buffer_src);\n  buffer_src->allocator =", "  if (buffer_src->size_bytes > 0) {\n    ArrowBufferReset(buffer_src);\n  }\n  buffer_src->allocator =")],
 needs="an owned buffer of zero bytes that is replaced by another owned buffer",
 breaks="the release callback of the first buffer never runs",
 cc=r'''
static int released = 0;
static void rel(uint8_t*, int64_t, void*) { released++; }
int main() {
  static double xs[2] = {1, 2}, ys[2] = {3, 4};
  struct GeoArrowBuilder b;
  OK(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_POINT));
  OK(GeoArrowBuilderSetOwnedBuffer(&b, 1, {(uint8_t*)xs, 0}, &rel, nullptr));
  OK(GeoArrowBuilderSetOwnedBuffer(&b, 1, {(uint8_t*)xs, 16}, &rel, nullptr));
  CHECK(released == 1);
  OK(GeoArrowBuilderSetOwnedBuffer(&b, 2, {(uint8_t*)ys, 16}, &rel, nullptr));
  struct ArrowArray a;
  OK(GeoArrowBuilderFinish(&b, &a, nullptr));
  EQ(array_to_wkt(GEOARROW_TYPE_POINT, &a), "POINT (1 3);POINT (2 4);");
  a.release(&a);
  GeoArrowBuilderReset(&b);
  CHECK(released == 3);
}
'''),
dict(id="p26-slice-child", property="P26", file=H+"array_util.hpp",
 edits=[("      int64_t last_offset = offsets[offset + length];", "      int64_t last_offset = offsets[length] + first_offset - offsets[0];")],
 needs="a slice of a list array whose lists differ in size, visited by vertices or Coords()",
 breaks="vertices of other features are visited or some are left out",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow::array_util;
int main() {
  struct ArrowArray a;
  native(GEOARROW_TYPE_LINESTRING, {"LINESTRING (0 1, 2 3)", "LINESTRING (4 5, 6 7, 8 9)", "LINESTRING (1 1, 2 2, 3 3, 4 4)"}, &a);
  struct GeoArrowArrayView v;
  OK(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_LINESTRING));
  OK(GeoArrowArrayViewSetArray(&v, &a, nullptr));
  LinestringArray<XY<double>> arr;
  OK(arr.Init(&v));
  CHECK(arr.Coords().size() == 9);
  auto sub = arr.Slice(1, 1);
  std::string got;
  sub.VisitVertices<XY<double>>([&](XY<double> c) { got += std::to_string((int)c.x()) + " "; });
  EQ(got, "4 6 8 ");
  got = "";
  for (auto c : arr.Slice(2, 1).Coords()) got += std::to_string((int)c.x()) + " ";
  EQ(got, "1 2 3 4 ");
  a.release(&a);
}
'''),
dict(id="p26-upper-bound-stride", property="P26", file=H+"array_util.hpp",
 edits=[("      out.value.values[i] = this->value.values[Coord().size() + i];", "      out.value.values[i] = this->value.values[2 + i];")],
 needs="box arrays with a Z or M dimension",
 breaks="the upper bound has the wrong dimensions",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow::array_util;
template <class C> void one(GeoArrowType t) {
  struct GeoArrowBuilder b;
  OK(GeoArrowBuilderInitFromType(&b, t));
  int n = (int)C().size();
  for (int i = 0; i < 2 * n; i++) {
    double d[] = {i * 10.0, i * 10.0 + 1};
    OK(GeoArrowBuilderAppendBuffer(&b, 1 + i, {(uint8_t*)d, 16}));
  }
  struct ArrowArray a;
  OK(GeoArrowBuilderFinish(&b, &a, nullptr));
  struct GeoArrowArrayView v;
  OK(GeoArrowArrayViewInitFromType(&v, t));
  OK(GeoArrowArrayViewSetArray(&v, &a, nullptr));
  BoxArray<C> arr;
  OK(arr.Init(&v));
  auto lo = arr.LowerBound(), hi = arr.UpperBound();
  for (int r = 0; r < 2; r++)
    for (int i = 0; i < n; i++) {
      CHECK(lo.value.coord(r)[i] == i * 10.0 + r);
      CHECK(hi.value.coord(r)[i] == (n + i) * 10.0 + r);
    }
  a.release(&a);
  GeoArrowBuilderReset(&b);
}
int main() {
  one<XY<double>>(GEOARROW_TYPE_BOX);
  one<XYZ<double>>(GEOARROW_TYPE_BOX_Z);
  one<XYM<double>>(GEOARROW_TYPE_BOX_M);
  one<XYZM<double>>(GEOARROW_TYPE_BOX_ZM);
}
'''),
dict(id="p27-stale-srid", property="P27", file=H+"wkb_util.hpp",
 edits=[("    dimensions = GEOARROW_DIMENSIONS_UNKNOWN;\n    srid = kSridUnset;\n    num_sequences_ = 0;", "    dimensions = GEOARROW_DIMENSIONS_UNKNOWN;\n    num_sequences_ = 0;"),
        ("    ++num_geometries_;\n    if (geometries_.size() < num_geometries_) {\n      geometries_.push_back({});\n    }\n",
         "    ++num_geometries_;\n    if (geometries_.size() < num_geometries_) {\n      geometries_.push_back({});\n    }\n    geometries_[num_geometries_ - 1].srid = kSridUnset;\n"),
        ("    data_ = cursor_ = data;\n    remaining_ = size;", "    data_ = cursor_ = data;\n    if (size > 5) {\n      out->srid = WKBGeometry::kSridUnset;\n    }\n    remaining_ = size;")],
 needs="a WKBGeometry used for a blob with an SRID, then for one that is too short to parse",
 breaks="the SRID of the earlier blob is still reported",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
using namespace geoarrow::wkb_util;
int main() {
  WKBParser p;
  WKBGeometry g;
  Bytes b;
  put8(b, 1), put32(b, 0x20000001), put32(b, 4326), putd(b, 1), putd(b, 2);
  CHECK(p.Parse(b.data(), b.size(), &g) == WKBParser::OK && g.srid == 4326);
  CHECK(p.Parse(b.data(), 3, &g) == WKBParser::TOO_FEW_BYTES);
  CHECK(g.NumSequences() == 0 && g.srid == WKBGeometry::kSridUnset);
}
'''),
dict(id="p27-zm-stride", property="P27", file=H+"wkb_util.hpp",
 edits=[("      status = ParseGeometry(out->AppendGeometry());", "      status = ParseChild(out->AppendGeometry());"),
        ("  uint32_t NewSequenceAtCursor(WKBGeometry* out, uint32_t size) {", "  Status ParseChild(WKBGeometry* out) {\n    enum GeoArrowDimensions dimensions = last_dimensions_;\n    Status status = ParseGeometry(out);\n    if (dimensions == GEOARROW_DIMENSIONS_XYZM) {\n      out->dimensions = dimensions;\n    }\n    return status;\n  }\n\n  uint32_t NewSequenceAtCursor(WKBGeometry* out, uint32_t size) {")],
 needs="a collection in which a geometry with XYZM coordinates is followed by one with others",
 breaks="the dimensions of the earlier sibling are reported for the later one",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
using namespace geoarrow::wkb_util;
int main() {
  WKBParser p;
  WKBGeometry g;
  Bytes b;
  put8(b, 1), put32(b, 7), put32(b, 2);
  put8(b, 1), put32(b, 3001), putd(b, 1), putd(b, 2), putd(b, 3), putd(b, 4);
  put8(b, 1), put32(b, 1), putd(b, 1), putd(b, 2);
  CHECK(p.Parse(b.data(), b.size(), &g) == WKBParser::OK);
  CHECK(g.Geometry(0).dimensions == GEOARROW_DIMENSIONS_XYZM);
  CHECK(g.Geometry(1).dimensions == GEOARROW_DIMENSIONS_XY);
}
'''),
dict(id="p28-copy-crs", property="P28", file=H+"geometry_data_type.hpp", san="address",
 edits=[("    this->crs_ = other.crs_;\n    this->metadata_view_.crs.data = this->crs_.data();", "    this->crs_ = other.crs_;\n    if (this->metadata_view_.crs.size_bytes > 15) {\n      this->metadata_view_.crs.data = this->crs_.data();\n    }")],
 needs="assigning from a type with a short CRS that is destroyed before the copy is used",
 breaks="the CRS of the copy points into the destroyed object",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
using namespace geoarrow;
int main() {
  for (std::string crs : {"EPSG:4326", "something longer than a short string", ""}) {
    GeometryDataType t = Point();
    {
      auto* u = new GeometryDataType(Point().WithCrs(crs));
      t = *u;
      delete u;
    }
    EQ(t.crs(), crs);
    GeometryDataType w(t);
    EQ(w.extension_metadata(), t.extension_metadata());
  }
}
'''),
]
BUGS = [b for b in BUGS if b["edits"]]
