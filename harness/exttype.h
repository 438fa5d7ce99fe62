// C++ type descriptors: a model of them, and what a descriptor must say.
#ifndef HZ_EXTTYPE_H
#define HZ_EXTTYPE_H
#include <map>
#include "kern.h"
#include "meta.h"
#include "geoarrow/geoarrow.hpp"
namespace hz {
using geoarrow::GeometryDataType;

// what a descriptor has to say
struct Model { int type = 0; Meta m; };

// the type with these components, 0 if there is none
static int make_id(int gt, int dims, int ct) {
  if (gt >= 1 && gt <= 6 && dims >= 1 && dims <= 4 && (ct == 1 || ct == 2)) return (ct - 1) * 10000 + (dims - 1) * 1000 + gt;
  if (gt == (int)GEOARROW_GEOMETRY_TYPE_BOX && dims >= 1 && dims <= 4 && ct == 1) return 990 + (dims - 1) * 1000;
  return 0;
}
static int geom_of(int t) { return is_native(t) ? type_geom(t) : is_box(t) ? (int)GEOARROW_GEOMETRY_TYPE_BOX : 0; }
static int dims_of(int t) { return is_native(t) || is_box(t) ? type_dims(t) : 0; }
static int coord_of(int t) { return is_native(t) ? (type_inter(t) ? 2 : 1) : is_box(t) ? 1 : 0; }

static void meta_is(const std::string& js, const Meta& m, const char* how) {
  expect_json(js, m, how);
  Exact b(js); GeoArrowMetadataView v; REQUIRE(GeoArrowMetadataViewInit(&v, GeoArrowStringView{(char*)b.p, (int64_t)b.n}, nullptr) == 0, "metadata", "%s: %s", how, quote(js).c_str());
  expect_view(v, m, how);
}
static void is(const GeometryDataType& d, const Model& w, const char* how) {
  int t = w.type;
  REQUIRE((int)d.id() == t, "id", "%s: id %d instead of %d", how, (int)d.id(), t);
  REQUIRE((int)d.geometry_type() == geom_of(t) && (int)d.dimensions() == dims_of(t) && (int)d.coord_type() == coord_of(t), "components", "%s: type %d has geometry type %d, dimensions %d, coordinate type %d", how, t, (int)d.geometry_type(), (int)d.dimensions(), (int)d.coord_type());
  REQUIRE(d.num_dimensions() == (dims_of(t) ? ndim(dims_of(t)) : -1), "components", "%s: %d dimensions", how, d.num_dimensions());
  REQUIRE((int)d.edge_type() == w.m.edge, "edge type", "%s: %d instead of %d", how, (int)d.edge_type(), w.m.edge);
  REQUIRE((int)d.crs_type() == w.m.crs_type, "crs type", "%s: %d instead of %d", how, (int)d.crs_type(), w.m.crs_type);
  if (w.m.crs_type) { std::string c = d.crs(), want = w.m.kind == 2 ? w.m.crs : w.m.plain; REQUIRE(c == want, "crs", "%s: %s instead of %s", how, quote(c).c_str(), quote(want).c_str()); }
  REQUIRE(d.extension_name() == ref_ext(t), "extension name", "%s: %s", how, d.extension_name().c_str());
  meta_is(d.extension_metadata(), w.m, how);
  std::string s = d.ToString(); REQUIRE(s.find(ref_ext(t)) != std::string::npos, "string", "%s: %s", how, quote(s).c_str());
  // the text tells types, edges and CRS apart, and is cut where it should be
  {
    static std::map<std::string, std::pair<int, int>> texts; static std::map<std::pair<int, int>, std::string> of;
    GeometryDataType bare = d; std::string plain = bare.WithCrs("", GEOARROW_CRS_TYPE_NONE).ToString(); std::pair<int, int> te{t, w.m.edge};
    auto& slot = texts.emplace(plain, te).first->second; REQUIRE(slot == te, "string", "%s: type %d edges %d and type %d edges %d are both %s", how, t, w.m.edge, slot.first, slot.second, plain.c_str());
    REQUIRE(of.emplace(te, plain).first->second == plain, "string", "%s: type %d edges %d is %s and %s", how, t, w.m.edge, plain.c_str(), of[te].c_str());
    std::string all = d.ToString((size_t)1 << 20), c = d.crs();
    REQUIRE(all.compare(0, plain.size(), plain) == 0, "string", "%s: %s without CRS, %s with it", how, plain.c_str(), quote(all).c_str());
    if (!w.m.crs_type) REQUIRE(all == plain && s == plain, "string", "%s: no CRS, but %s", how, quote(all).c_str());
    else REQUIRE(all.find(c, plain.size()) != std::string::npos, "string", "%s: %s without the CRS %s", how, quote(all).c_str(), quote(c).c_str());
    if (w.m.crs_type > 1 && !c.empty()) { std::string k = GeoArrowCrsTypeString((GeoArrowCrsType)w.m.crs_type); REQUIRE(all.find(k, plain.size()) != std::string::npos, "string", "%s: %s without the kind of CRS", how, quote(all).c_str()); }
    for (size_t n : {(size_t)5, (size_t)40, c.size() + 2}) { if (n < 5) continue; std::string cut = d.ToString(n); REQUIRE(cut.size() <= plain.size() + n && cut.compare(0, plain.size(), plain) == 0, "string", "%s: at most %zu of CRS, but %s", how, n, quote(cut).c_str()); }
  }
  d.ToString(4); d.ToString(1000);
  count("descriptors");
}
static void schemas(const GeometryDataType& d, const Model& w) {
  ArrowSchema s, c; memset(&s, 0xCB, sizeof s); d.InitSchema(&s);
  SNode n; REQUIRE(snode_read(&s, n), "schema", "unreadable");
  REQUIRE(GeoArrowSchemaInitExtension(&c, (GeoArrowType)w.type) == 0, "schema", "C"); SNode cn; REQUIRE(snode_read(&c, cn), "schema", "C"); c.release(&c);
  REQUIRE(snode_show(n, false) == snode_show(cn, false), "schema", "%s instead of %s", snode_show(n).c_str(), snode_show(cn).c_str());
  REQUIRE(n.meta.size() == 2 && kv_get(n.meta, "ARROW:extension:name") && *kv_get(n.meta, "ARROW:extension:name") == ref_ext(w.type) && kv_get(n.meta, "ARROW:extension:metadata"), "schema", "metadata %s", snode_show(n).c_str());
  meta_is(*kv_get(n.meta, "ARROW:extension:metadata"), w.m, "schema");
  { GeometryDataType back = GeometryDataType::Make(&s); is(back, w, "from its own schema"); }
  s.release(&s);
  memset(&s, 0xCB, sizeof s); d.InitStorageSchema(&s); SNode st; REQUIRE(snode_read(&s, st), "schema", "storage unreadable");
  REQUIRE(snode_show(st, false) == snode_show(cn, false) && !kv_get(st.meta, "ARROW:extension:name"), "schema", "storage %s instead of %s", snode_show(st).c_str(), snode_show(cn).c_str());
  { GeometryDataType back = GeometryDataType::Make(&s, ref_ext(w.type), d.extension_metadata()); is(back, w, "from its own storage"); }
  s.release(&s); count("schemas", 2);
}
template <class F> static bool throws(F f) {
  try { f(); } catch (const geoarrow::Exception& e) { REQUIRE(e.what() && strlen(e.what()) < 1 << 16, "exception", "message"); count("exceptions"); return true; }
  return false;
}
static std::string gen_valid_json(Rng& r, Meta& m) { m = gen_meta(r); Exact b(m.crs); return produce(view_of(m, b)); }

static GeometryDataType make(Rng& r, Model& w) {
  w.type = r.pick(all_types()); std::string js; bool plain = r.one_in(5);
  if (plain) { w.m = Meta(); js = r.one_in(2) ? "" : "{}"; } else js = gen_valid_json(r, w.m);
  crumb("make %d %s", w.type, quote(js).c_str()); distinct(mix64((uint64_t)w.type) ^ fnv(js));
  switch (r.below(4)) {
    case 0: return plain && r.one_in(2) ? GeometryDataType::Make((GeoArrowType)w.type) : GeometryDataType::Make((GeoArrowType)w.type, js);
    case 1: if (is_native(w.type)) {
      auto g = (GeoArrowGeometryType)type_geom(w.type); auto dd = (GeoArrowDimensions)type_dims(w.type); auto ct = (GeoArrowCoordType)coord_of(w.type);
      if (plain && w.type < 10) return GeometryDataType::Make(g);
      return GeometryDataType::Make(g, dd, ct, js);
    } return GeometryDataType::Make((GeoArrowType)w.type, js);
    case 2: { SNode sn = ext_schema(r, w.type, plain && r.one_in(2) ? nullptr : &js); ArrowSchema s; snode_build(sn, &s, nullptr); GeometryDataType d = GeometryDataType::Make(const_cast<const ArrowSchema*>(&s)); s.release(&s); return d; }
    default: { SNode sn = r.one_in(2) ? ref_schema(w.type) : ext_schema(r, w.type, nullptr); ArrowSchema s; snode_build(sn, &s, nullptr); GeometryDataType d = GeometryDataType::Make(&s, ref_ext(w.type), js); s.release(&s); return d; }
  }
}
}  // namespace hz
#endif
