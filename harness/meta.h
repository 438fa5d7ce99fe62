// Extension metadata: model, generator and what a parsed view must say.
#ifndef HZ_META_H
#define HZ_META_H
#include "schema_ref.h"

namespace hz {

static const char* const kEdgeNames[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
static const char* const kCrsNames[] = {"none", "unknown", "projjson", "wkt2:2019", "authority_code", "srid"};

inline std::string produce(const GeoArrowMetadataView& v) {
  int64_t n = GeoArrowMetadataSerialize(&v, nullptr, 0);
  REQUIRE(n >= 2, "size", "%lld", (long long)n);
  Exact b; b.assign(std::string((size_t)n, 'x').data(), (size_t)n);
  int64_t m = GeoArrowMetadataSerialize(&v, (char*)b.p, n);
  REQUIRE(m == n, "size-differs", "%lld then %lld", (long long)n, (long long)m);
  return std::string((char*)b.p, n);
}
inline std::string unescape(GeoArrowStringView v) {
  int64_t n = GeoArrowUnescapeCrs(v, nullptr, 0);
  Exact b; b.assign(std::string((size_t)n, 'x').data(), (size_t)n);
  int64_t m = GeoArrowUnescapeCrs(v, (char*)b.p, n);
  REQUIRE(m == n, "size-differs", "%lld then %lld", (long long)n, (long long)m);
  return std::string((char*)b.p, n);
}
struct Meta { int edge = 0, crs_type = 0; std::string crs; int kind = 0; std::string plain; };  // kind: 0 plain, 1 quoted, 2 object

// what the schema/metadata must say
inline void expect_json(const std::string& js, const Meta& m, const char* how) {
  Json j; REQUIRE(json_parse(js, j) && j.kind == Json::OBJ, "invalid-json", "%s: %s", how, quote(js, 600).c_str());
  std::map<std::string, Json> kv;
  for (auto& p : j.kv) REQUIRE(kv.emplace(p.first, p.second).second, "duplicate-key", "%s", quote(js).c_str());
  size_t want = (m.edge != 0) + (m.crs_type > 1) + (m.crs_type > 0);
  REQUIRE(kv.size() == want, "keys", "%s: %zu keys, expected %zu in %s", how, kv.size(), want, quote(js).c_str());
  if (m.edge) REQUIRE(kv.count("edges") && kv["edges"].str == kEdgeNames[m.edge], "edges", "%s: %s", how, quote(js).c_str());
  if (m.crs_type > 1) REQUIRE(kv.count("crs_type") && kv["crs_type"].str == kCrsNames[m.crs_type], "crs_type", "%s: %s", how, quote(js).c_str());
  if (m.crs_type > 0) {
    REQUIRE(kv.count("crs"), "crs", "%s: %s", how, quote(js).c_str());
    if (m.kind == 2) REQUIRE(kv["crs"].kind == Json::OBJ && kv["crs"].text == m.crs, "crs", "%s: %s", how, quote(js).c_str());
    else REQUIRE(kv["crs"].kind == Json::STR && kv["crs"].str == m.plain, "crs", "%s: %s is not %s", how, quote(kv["crs"].str).c_str(), quote(m.plain).c_str());
  }
}
inline void expect_view(const GeoArrowMetadataView& v, const Meta& m, const char* how) {
  REQUIRE((int)v.edge_type == m.edge, "edge-type", "%s: edge %d instead of %d", how, (int)v.edge_type, m.edge);
  REQUIRE((int)v.crs_type == m.crs_type, "crs-type", "%s: crs type %d instead of %d", how, (int)v.crs_type, m.crs_type);
  if (m.crs_type == 0) return;
  std::string got = v.crs.data ? std::string(v.crs.data, v.crs.size_bytes) : "";
  if (m.kind) REQUIRE(got == m.crs, "crs-value", "%s: %s instead of %s", how, quote(got).c_str(), quote(m.crs).c_str());
  std::string u = unescape(v.crs), w = m.kind == 2 ? m.crs : m.plain;
  REQUIRE(u == w, "unescape", "%s: %s instead of %s", how, quote(u).c_str(), quote(w).c_str());
}
inline Meta gen_meta(Rng& r) {
  Meta m; m.edge = (int)r.below(6); m.crs_type = (int)r.below(6);
  m.kind = (int)r.below(3);
  if (m.kind == 2) m.crs = gen_json(r, (int)r.range(0, 5), true);
  else {
    // a plain value that does not look like JSON; quoted with \" and \\ escapes only
    do m.plain = gen_text(r, r.one_in(10) ? 3000 : 30); while (m.kind == 0 && !m.plain.empty() && (m.plain[0] == '{' || m.plain[0] == '"'));
    m.crs = m.kind == 1 ? json_quote(m.plain) : m.plain;
  }
  return m;
}
inline GeoArrowMetadataView view_of(const Meta& m, const Exact& b) {
  GeoArrowMetadataView v; memset(&v, 0, sizeof v);
  v.edge_type = (GeoArrowEdgeType)m.edge; v.crs_type = (GeoArrowCrsType)m.crs_type;
  v.crs = GeoArrowStringView{(char*)b.p, (int64_t)b.n};
  return v;
}
}  // namespace hz
#endif
