from importlib.machinery import SourceFileLoader
import os
PYSH = SourceFileLoader("b3", os.path.join(os.path.dirname(__file__), "b3.py")).load_module().PYSH
ARSH = SourceFileLoader("b5", os.path.join(os.path.dirname(__file__), "b5.py")).load_module().ARSH
S = "src/geoarrow/"
H = S + "hpp/"
PYX = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"
NMSH = r'''#!/bin/bash
# cwd: the repository. Compiles the sources with a namespace; every GeoArrow name the objects define must carry it.
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p $T/inc/geoarrow
sed -e "s/@GEOARROW_VERSION_MAJOR@/0/g; s/@GEOARROW_VERSION_MINOR@/2/g; s/@GEOARROW_VERSION_PATCH@/0/g; s/@GEOARROW_VERSION@/0.2.0/g; s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT 0/; s/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU 0/; s/@GEOARROW_NAMESPACE_DEFINE@/#define GEOARROW_NAMESPACE Mine/" \
  src/geoarrow/geoarrow_config.h.in > $T/inc/geoarrow/geoarrow_config.h
for f in src/geoarrow/*.c; do
  gcc -O0 -w -std=gnu99 -I$T/inc -Isrc -Isrc/vendor -c $f -o $T/$(basename $f).o || exit 9
done
BAD=$(nm --defined-only -g $T/*.o | awk 'NF == 3 {print $3}' | grep -v '^Mine')
echo "$BAD"
test -z "$BAD"
'''
BUSH = r'''#!/bin/bash
# cwd: the repository. Runs the same program with the bundle that CMake makes and with the separate sources.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cmake -S . -B $T/b -DGEOARROW_BUNDLE=ON -DGEOARROW_USE_RYU=OFF -DGEOARROW_USE_FAST_FLOAT=OFF >$T/log 2>&1 || { tail -5 $T/log; exit 9; }
mkdir -p $T/inc/geoarrow
sed -e "s/@GEOARROW_VERSION_MAJOR@/0/g; s/@GEOARROW_VERSION_MINOR@/2/g; s/@GEOARROW_VERSION_PATCH@/0/g; s/@GEOARROW_VERSION@/0.2.0/g; s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT 0/; s/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU 0/; s/@GEOARROW_NAMESPACE_DEFINE@//" \
  src/geoarrow/geoarrow_config.h.in > $T/inc/geoarrow/geoarrow_config.h
A=$(find $T/b/amalgamation -name geoarrow.c)
gcc -O0 -w -std=gnu99 -I$T/b/amalgamation -I$T/b/amalgamation/geoarrow -Isrc/vendor $A src/vendor/nanoarrow/nanoarrow.c "$D/main.c" -lm -o $T/one || exit 9
gcc -O0 -w -std=gnu99 -I$T/inc -Isrc -Isrc/vendor src/geoarrow/*.c src/vendor/nanoarrow/nanoarrow.c "$D/main.c" -lm -o $T/many || exit 9
$T/one > $T/1.txt && $T/many > $T/2.txt && cat $T/1.txt && diff $T/1.txt $T/2.txt
'''
BUGS = [
dict(id="p33-unescape-define", property="P33", file=S+"geoarrow_type.h", sh=NMSH,
 edits=[("#define GeoArrowUnescapeCrs _GEOARROW_MAKE_NAME(GEOARROW_NAMESPACE, GeoArrowUnescapeCrs)\n", "")],
 needs="two copies of the library with different namespaces in one process",
 breaks="GeoArrowUnescapeCrs has the same name in every copy",
 cc="int main() {}\n"),
dict(id="p33-global-table", property="P33", file=S+"wkb_writer.c", sh=NMSH,
 edits=[("static uint8_t kWKBWriterEmptyPointCoords2[]", "uint8_t kWKBWriterEmptyPointCoords2[]")],
 needs="two copies of the library in one process",
 breaks="a table of one copy is visible to (and used by) the others",
 cc="int main() {}\n"),
dict(id="p19-limit-int32", property="P19", file=S+"wkt_writer.c",
 edits=[("  int use_flat_multipoint;\n  int64_t max_element_size_bytes;", "  int use_flat_multipoint;\n  int32_t max_element_size_bytes;")],
 needs="a limit beyond 2^32",
 breaks="the text is cut although it is far shorter than the limit",
 cc=r'''
int main() {
  struct GeoArrowWKTWriter w;
  for (int64_t limit : {(int64_t)2147483648, (int64_t)4294967303, (int64_t)9223372036854775807}) {
    OK(GeoArrowWKTWriterInit(&w));
    w.max_element_size_bytes = limit;
    struct GeoArrowVisitor v;
    Err err;
    v.error = &err;
    GeoArrowWKTWriterInitVisitor(&w, &v);
    Bytes b;
    put8(b, 1); put32(b, 1); putd(b, 1); putd(b, 2);
    OK(visit_wkb(b, &v));
    struct ArrowArray a;
    OK(GeoArrowWKTWriterFinish(&w, &a, &err));
    EQ(join(strings(&a)), std::string("POINT (1 2);"));
    a.release(&a);
    GeoArrowWKTWriterReset(&w);
  }
}
'''),
dict(id="p04-level-sizes", property="P04", file=S+"geometry.c", san="address",
 edits=[("  uint32_t sizes[GEOARROW_GEOMETRY_VISITOR_MAX_NESTING + 1];", "  uint32_t sizes[GEOARROW_GEOMETRY_VISITOR_MAX_NESTING];")],
 needs="a collection at the deepest level that is allowed",
 breaks="memory after the array of sizes is read and written",
 cc=r'''
int main() {
  struct GeoArrowGeometry g;
  OK(GeoArrowGeometryInit(&g));
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  GeoArrowGeometryInitVisitor(&g, &v);
  OK(v.feat_start(&v));
  int n = 0;
  while (v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XY) == 0) n++;
  while (v.geom_end(&v) == 0) n--;
  OK(v.feat_end(&v));
  for (int64_t i = 0; i < g.size_nodes; i++) {
    CHECK(g.root[i].size == (i + 1 < g.size_nodes ? 1u : 0u));
  }
  GeoArrowGeometryReset(&g);
}
'''),
dict(id="p27-bytes32", property="P27", file=H+"wkb_util.hpp", san="address",
 edits=[("    size_t bytes_required = sizeof(double) * size * last_coord_stride_;", "    uint32_t bytes_required = size * last_coord_stride_ * sizeof(double);")],
 needs="a count whose size in bytes passes 2^32",
 breaks="truncated WKB is accepted and coordinates are read from outside of it",
 cc=r'''
#include "geoarrow/geoarrow.hpp"
int main() {
  using namespace geoarrow::wkb_util;
  for (uint32_t n : {0x10000000u, 0x20000000u, 0x10000001u, 0xf0000000u}) {
    Bytes b;
    put8(b, 1); put32(b, 2); put32(b, n);
    putd(b, 1); putd(b, 2);
    uint8_t* p = (uint8_t*)std::malloc(b.size());
    std::memcpy(p, b.data(), b.size());
    WKBGeometry g;
    WKBParser q;
    CHECK(q.Parse(p, b.size(), &g) == WKBParser::TOO_FEW_BYTES);
    std::free(p);
  }
}
'''),
dict(id="p03-unescape-end", property="P03", file=S+"metadata.c", san="address",
 edits=[("  for (int64_t i = 1; i < (crs.size_bytes - 1); i++) {\n    if (!is_escape && crs.data[i]", "  for (int64_t i = 1; is_escape || crs.data[i] != '\\\"'; i++) {\n    if (!is_escape && crs.data[i]")],
 needs="a CRS that begins with a quote but has none at its end",
 breaks="bytes after the CRS are read",
 cc=r'''
int main() {
  for (std::string s : {"\"EPSG:4326\"", "\"EPSG", "\"", "\"ab\\", "\"a\\\""}) {
    char* p = (char*)std::malloc(s.size());
    std::memcpy(p, s.data(), s.size());
    char out[32];
    int64_t n = GeoArrowUnescapeCrs({p, (int64_t)s.size()}, out, sizeof out);
    CHECK(n >= 0 && n <= (int64_t)s.size());
    std::free(p);
  }
}
'''),
dict(id="p22-static-metadata", property="P22", file=S+"metadata.c", san="thread",
 edits=[("  char* metadata = (char*)ArrowMalloc(metadata_size);\n  if (metadata == NULL) {\n    return ENOMEM;\n  }\n",
         "  // Most metadata is small enough not to need an allocation\n  static char small_metadata[128];\n  char* metadata = small_metadata;\n  if (metadata_size > (int64_t)sizeof(small_metadata)) {\n    metadata = (char*)ArrowMalloc(metadata_size);\n  }\n\n  if (metadata == NULL) {\n    return ENOMEM;\n  }\n"),
        ("  if (result != GEOARROW_OK) {\n    ArrowFree(metadata);\n    return result;\n  }\n", "  if (result != GEOARROW_OK) {\n    if (metadata != small_metadata) ArrowFree(metadata);\n    return result;\n  }\n"),
        ("  ArrowFree(metadata);\n  if (result != GEOARROW_OK) {\n    ArrowBufferReset(&existing_buffer);", "  if (metadata != small_metadata) ArrowFree(metadata);\n  if (result != GEOARROW_OK) {\n    ArrowBufferReset(&existing_buffer);")],
 needs="two threads that set the metadata of schemas of their own at the same time",
 breaks="they write into the same static buffer",
 cc=r'''
#include <thread>
int main() {
  auto work = [](const char* crs) {
    for (int i = 0; i < 2000; i++) {
      struct ArrowSchema s;
      OK(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_POINT));
      struct GeoArrowMetadataView v;
      std::memset(&v, 0, sizeof v);
      v.crs_type = GEOARROW_CRS_TYPE_UNKNOWN;
      v.crs = {crs, (int64_t)std::strlen(crs)};
      OK(GeoArrowSchemaSetMetadata(&s, &v));
      s.release(&s);
    }
  };
  std::thread a(work, "EPSG:4326"), b(work, "OGC:CRS84");
  a.join();
  b.join();
}
'''),
dict(id="p30-serialize-edges", property="P30", file=H+"arrow_extension_type.hpp", sh=ARSH,
 edits=[("  std::string Serialize() const override { return type_.extension_metadata(); }",
         "  std::string Serialize() const override {\n    // Nothing to write without a coordinate reference system\n    if (type_.crs_type() == GEOARROW_CRS_TYPE_NONE) {\n      return \"{}\";\n    }\n\n    return type_.extension_metadata();\n  }")],
 needs="a type with edges but without a CRS that is serialised",
 breaks="the edges are lost, and types that differ in nothing else are equal",
 cc=r'''
#undef OK
#include <arrow/api.h>
#include <arrow/c/bridge.h>
#include "geoarrow/hpp/arrow_extension_type.hpp"
int main() {
  using E = geoarrow::arrow::GeometryExtensionType;
  auto e = *E::Make(GEOARROW_TYPE_POINT, "{\"edges\":\"spherical\"}");
  auto d = std::dynamic_pointer_cast<E>(*e->Deserialize(e->storage_type(), e->Serialize()));
  CHECK(d->GeoArrowType().edge_type() == GEOARROW_EDGE_TYPE_SPHERICAL);
  auto f = *E::Make(GEOARROW_TYPE_POINT);
  CHECK(!e->ExtensionEquals(*f));
}
'''),
dict(id="p29-eq-crs-type", property="P29", file=PYX, sh=PYSH,
 edits=[("        if self.crs_type == other.crs_type and self.crs != other.crs:\n            return False\n\n        return self.crs_type == other.crs_type",
         "        if self.crs_type != GEOARROW_CRS_TYPE_NONE and other.crs_type != GEOARROW_CRS_TYPE_NONE:\n            return self.crs == other.crs\n\n        return self.crs_type == other.crs_type")],
 needs="two types with the same CRS text of which only one says what kind of text it is",
 breaks="they compare equal",
 cc="int main() {}\n",
 extra={"demo.py": r'''
from geoarrow.c import _lib as L
base = L.CGeometryDataType.Make(L.GEOARROW_GEOMETRY_TYPE_POINT, L.GEOARROW_DIMENSIONS_XY, L.GEOARROW_COORD_TYPE_SEPARATE)
a = base.with_crs(b"4326", L.GEOARROW_CRS_TYPE_SRID)
b = base.with_crs(b"4326", L.GEOARROW_CRS_TYPE_UNKNOWN)
assert a == base.with_crs(b"4326", L.GEOARROW_CRS_TYPE_SRID)
assert a != b and b != a
assert a != base
'''}),
dict(id="p16-native-validity", property="P16", file=S+"native_writer.c",
 edits=[("  NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));\n", "")],
 needs="a second batch from a writer whose first one had nulls",
 breaks="the nulls of the second batch are those of the first",
 cc=r'''
static void row(struct GeoArrowVisitor* v, bool null) {
  OK(v->feat_start(v));
  if (null) {
    OK(v->null_feat(v));
  } else {
    double x[2] = {1, 2};
    struct GeoArrowCoordView c;
    std::memset(&c, 0, sizeof c);
    c.values[0] = x;
    c.values[1] = x + 1;
    c.n_coords = 1;
    c.n_values = 2;
    c.coords_stride = 2;
    OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY));
    OK(v->coords(v, &c));
    OK(v->geom_end(v));
  }
  OK(v->feat_end(v));
}
int main() {
  struct GeoArrowNativeWriter w;
  OK(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POINT));
  struct GeoArrowVisitor v;
  std::memset(&v, 0, sizeof v);
  OK(GeoArrowNativeWriterInitVisitor(&w, &v));
  for (int pattern : {0x5, 0xa, 0x3, 0xc}) {
    for (int i = 0; i < 4; i++) row(&v, (pattern >> i) & 1);
    struct ArrowArray a;
    OK(GeoArrowNativeWriterFinish(&w, &a, nullptr));
    CHECK(a.null_count == 2);
    const uint8_t* bits = (const uint8_t*)a.buffers[0];
    CHECK(bits != nullptr);
    CHECK((bits[0] & 0xf) == (~pattern & 0xf));
    a.release(&a);
  }
  GeoArrowNativeWriterReset(&w);
}
'''),
]
