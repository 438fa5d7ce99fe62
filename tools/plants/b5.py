from importlib.machinery import SourceFileLoader
import os
S = "src/geoarrow/"
H = S + "hpp/"
ARSH = r'''#!/bin/bash
# cwd: the repository. Builds the library with demo.cc against the Arrow C++ that pyarrow brings and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PA=$(echo /opt/vp/venv/lib/python3*/site-packages/pyarrow)
SO=$(ls $PA/libarrow.so.* | head -1)
mkdir -p $T/inc/geoarrow
sed -e "s/@GEOARROW_VERSION_MAJOR@/0/g; s/@GEOARROW_VERSION_MINOR@/2/g; s/@GEOARROW_VERSION_PATCH@/0/g; s/@GEOARROW_VERSION@/0.2.0/g; s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT 0/; s/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU 0/; s/@GEOARROW_NAMESPACE_DEFINE@//" \
  src/geoarrow/geoarrow_config.h.in > $T/inc/geoarrow/geoarrow_config.h
CF="-O0 -w -I$T/inc -Isrc -Isrc/vendor"
for f in src/geoarrow/*.c src/vendor/nanoarrow/nanoarrow.c; do gcc $CF -std=gnu99 -c $f -o $T/$(basename $f).o & done
g++ $CF -std=c++20 -isystem $PA/include -I"$D" -c "$D/demo.cc" -o $T/demo.o
wait
g++ $T/*.o $SO -Wl,-rpath,$PA -lpthread -o $T/demo
timeout 120 $T/demo
'''
BUGS = [
dict(id="p30-deserialize-inherit", property="P30", file=H+"arrow_extension_type.hpp", sh=ARSH,
 edits=[("          GeometryDataType::Make(&schema.schema, extension_name_, serialized_data);",
         "          GeometryDataType::Make(&schema.schema, extension_name_,\n                                 serialized_data.empty() ? type_.extension_metadata() : serialized_data);")],
 needs="deserialising a type without metadata by means of a type that has some",
 breaks="the CRS and edges of the other type are taken over",
 cc=r'''
#undef OK
#include <arrow/api.h>
#include <arrow/c/bridge.h>
#include "geoarrow/hpp/arrow_extension_type.hpp"
int main() {
  using E = geoarrow::arrow::GeometryExtensionType;
  auto e = *E::Make(GEOARROW_TYPE_POINT, "{\"crs\":\"OGC:CRS84\",\"edges\":\"spherical\"}");
  auto d = std::dynamic_pointer_cast<E>(*e->Deserialize(e->storage_type(), ""));
  CHECK(d->GeoArrowType().edge_type() == GEOARROW_EDGE_TYPE_PLANAR);
  CHECK(d->GeoArrowType().crs_type() == GEOARROW_CRS_TYPE_NONE);
}
'''),
]
