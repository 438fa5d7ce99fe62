#include "nanoarrow/nanoarrow.h"
// P24: extension metadata survives serialisation, schema updates keep the rest.
#include "meta.h"
using namespace hz;
const char* hz_name = "p24";
static KV without_meta(const KV& kv) { KV o; for (auto& k : kv) if (k.first != "ARROW:extension:metadata") o.push_back(k); return o; }
static const std::string* find(const KV& kv, const char* k) { for (auto& p : kv) if (p.first == k) return &p.second; return nullptr; }

void hz_case(Case& c) {
  Rng& r = c.r;
  Meta m = gen_meta(r); Exact b(m.crs);
  GeoArrowMetadataView v = view_of(m, b);
  crumb("edge %d crs_type %d kind %d %s", m.edge, m.crs_type, m.kind, quote(m.crs).c_str());
  if (want_sample()) sample(fmt("edge %d crs_type %d %s", m.edge, m.crs_type, quote(m.crs).c_str()));
  distinct(fnv(m.crs) ^ mix64(m.edge * 8 + m.crs_type)); distinct(mix64(1000 + m.edge * 36 + m.crs_type * 6 + m.kind));
  std::string js = produce(v);
  expect_json(js, m, "serialize"); count("serialized");
  { Exact jb(js); GeoArrowMetadataView q; GeoArrowError err;
    int rc = GeoArrowMetadataViewInit(&q, GeoArrowStringView{(char*)jb.p, (int64_t)jb.n}, &err);
    REQUIRE(rc == 0, "own-output-rejected", "%s: %s", quote(js, 600).c_str(), err.message);
    expect_view(q, m, "round trip");
    if (m.crs_type > 1 || m.edge) count("roundtrip");
    std::string js2 = produce(q); REQUIRE(js2 == js, "not-idempotent", "%s then %s", quote(js).c_str(), quote(js2).c_str()); }
  // the same information written by hand: key order, white space, other keys
  {
    std::vector<std::string> items;
    if (m.edge || r.chance(0.3)) items.push_back("\"edges\"" + gen_ws(r) + ":" + gen_ws(r) + (m.edge || r.chance(0.5) ? "\"" + std::string(kEdgeNames[m.edge]) + "\"" : "null"));
    if (m.crs_type > 1) items.push_back("\"crs_type\"" + gen_ws(r) + ":" + gen_ws(r) + "\"" + kCrsNames[m.crs_type] + "\"");
    if (m.crs_type > 0) items.push_back("\"crs\"" + gen_ws(r) + ":" + gen_ws(r) + (m.kind == 0 ? json_quote(m.plain) : m.crs));
    else if (r.chance(0.3)) items.push_back("\"crs\": null");
    for (size_t i = r.below(3); i > 0; i--) {
      std::string k; do k = gen_text(r, 8); while (k == "edges" || k == "crs" || k == "crs_type");
      items.push_back(json_quote(k) + gen_ws(r) + ":" + gen_ws(r) + (r.chance(0.4) ? gen_json(r, 3, true) : r.chance(0.5) ? json_quote(gen_text(r, 10)) : r.chance(0.5) ? "[1,{\"crs\":\"no\"}]" : "null"));
    }
    for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[r.below(i)]);
    std::string s = gen_ws(r) + "{" + gen_ws(r);
    for (size_t i = 0; i < items.size(); i++) s += (i ? "," + gen_ws(r) : "") + items[i] + gen_ws(r);
    s += "}" + gen_ws(r);
    Exact jb(s); GeoArrowMetadataView q; GeoArrowError err;
    int rc = GeoArrowMetadataViewInit(&q, GeoArrowStringView{(char*)jb.p, (int64_t)jb.n}, &err);
    REQUIRE(rc == 0, "valid-metadata-rejected", "%s: %s", quote(s, 600).c_str(), err.message);
    expect_view(q, m, s.c_str()); count("handwritten");
  }
  // text of more than one line, tabs and other control characters: at least the library reads back what it wrote
  if (r.one_in(4)) {
    Meta t; t.edge = (int)r.below(6); t.crs_type = (int)r.range(1, 5); t.kind = 0; t.plain = r.chance(0.5) ? "GEOGCRS[" : "";
    for (size_t i = r.below(40) + 1; i > 0; i--) { if (r.chance(0.4)) t.plain += (char)r.range(1, 31); else t.plain += gen_text(r, 3); }
    if (t.plain[0] == '{' || t.plain[0] == '"') t.plain.insert(0, "\n");
    t.crs = t.plain; Exact tb(t.crs); std::string tj = produce(view_of(t, tb)); Exact jb(tj); GeoArrowMetadataView q;
    REQUIRE(GeoArrowMetadataViewInit(&q, GeoArrowStringView{(char*)jb.p, (int64_t)jb.n}, nullptr) == 0, "own-output-rejected", "%s", quote(tj, 600).c_str());
    expect_view(q, t, "text with control characters"); count("control_characters");
  }
  // schema update
  int type = r.pick(all_types());
  SNode n = ref_schema(type); n.has_name = r.chance(0.7); n.name = gen_text(r, 6); n.flags = (int64_t)r.below(2) * 2;
  auto kvs = [&](const char* ext, bool with) {
    KV kv; if (ext) kv.push_back({"ARROW:extension:name", ext});
    for (size_t i = r.below(4); i > 0; i--) kv.push_back({fmt("k%zu", i) + gen_text(r, 5), gen_text(r, 12)});
    if (with) kv.insert(kv.begin() + r.below(kv.size() + 1), {"ARROW:extension:metadata", r.chance(0.5) ? "{}" : "{\"crs\":\"old\",\"edges\":\"thomas\"}"});
    return kv;
  };
  bool extd = r.chance(0.8);
  n.meta = kvs(extd ? ref_ext(type) : nullptr, r.chance(0.7)); n.has_meta = !n.meta.empty() || r.chance(0.3);
  // schemas the library may modify are built by it
  ArrowSchema s; memset(&s, 0, sizeof s);
  REQUIRE(GeoArrowSchemaInit(&s, (GeoArrowType)type) == 0, "init", "SchemaInit");
  ArrowSchema tmp; snode_build(n, &tmp, nullptr);
  REQUIRE(ArrowSchemaSetMetadata(&s, tmp.metadata) == 0 && ArrowSchemaSetName(&s, tmp.name) == 0, "init", "nanoarrow");
  s.flags = n.flags; tmp.release(&tmp);
  SNode before; REQUIRE(snode_read(&s, before), "unreadable", "schema");
  int rc = GeoArrowSchemaSetMetadata(&s, &v);
  REQUIRE(rc == 0, "set-metadata", "rc %d", rc);
  SNode after; REQUIRE(snode_read(&s, after), "unreadable", "after SetMetadata");
  REQUIRE(snode_show(before, false) == snode_show(after, false), "layout-changed", "%s -> %s", snode_show(before).c_str(), snode_show(after).c_str());
  REQUIRE(without_meta(before.meta) == without_meta(after.meta), "other-keys-changed", "%s -> %s", snode_show(before).c_str(), snode_show(after).c_str());
  const std::string* em = find(after.meta, "ARROW:extension:metadata");
  REQUIRE(em && *em == js, "extension-metadata", "schema has %s, expected %s", em ? quote(*em).c_str() : "nothing", quote(js).c_str());
  count("schema_set");
  if (extd) {
    GeoArrowSchemaView sv; GeoArrowMetadataView q;
    GeoArrowError e2; REQUIRE(GeoArrowSchemaViewInit(&sv, &s, &e2) == 0 && (int)sv.type == type, "schema-after-update", "type %d: %s", type, e2.message);
    REQUIRE(GeoArrowMetadataViewInit(&q, sv.extension_metadata, nullptr) == 0, "own-output-rejected", "%s", quote(js).c_str());
    expect_view(q, m, "from schema");
  }
  // a view of the schema's own metadata may be the source of its update, and so may the schema itself
  if (extd && r.chance(0.5)) {
    GeoArrowSchemaView sv; REQUIRE(GeoArrowSchemaViewInit(&sv, &s, nullptr) == 0, "schema-after-update", "own view");
    GeoArrowMetadataView own; REQUIRE(GeoArrowMetadataViewInit(&own, sv.extension_metadata, nullptr) == 0, "own-output-rejected", "%s", quote(js).c_str());
    Meta m3 = m; if (r.chance(0.6)) { m3.edge = (int)r.below(6); own.edge_type = (GeoArrowEdgeType)m3.edge; }
    REQUIRE(GeoArrowSchemaSetMetadata(&s, &own) == 0, "set-metadata", "from its own metadata");
    for (int round = 0; round < 2; round++) {
      SNode a; REQUIRE(snode_read(&s, a), "unreadable", "after an update from itself");
      REQUIRE(snode_show(before, false) == snode_show(a, false) && without_meta(before.meta) == without_meta(a.meta), "other-keys-changed", "%s -> %s", snode_show(before).c_str(), snode_show(a).c_str());
      const std::string* e = find(a.meta, "ARROW:extension:metadata"); REQUIRE(e, "extension-metadata", "missing after an update from itself");
      expect_json(*e, m3, "own source");
      if (round == 0) REQUIRE(GeoArrowSchemaSetMetadataFrom(&s, &s) == 0, "set-metadata-from", "from itself");
    }
    count("own_source");
  }
  // copy from another schema
  SNode src = ref_schema(r.pick(all_types()));
  Meta m2 = gen_meta(r); Exact b2(m2.crs); std::string js2 = produce(view_of(m2, b2));
  bool src_has = r.chance(0.8);
  src.meta = kvs("geoarrow.wkb", false); if (src_has) src.meta.insert(src.meta.begin() + r.below(src.meta.size() + 1), {"ARROW:extension:metadata", js2});
  src.has_meta = true;
  ArrowSchema ss; snode_build(src, &ss, nullptr);
  rc = GeoArrowSchemaSetMetadataFrom(&s, &ss);
  REQUIRE(rc == 0, "set-metadata-from", "rc %d", rc);
  SNode a2, s2; REQUIRE(snode_read(&s, a2) && snode_read(&ss, s2), "unreadable", "after SetMetadataFrom");
  REQUIRE(snode_show(s2) == snode_show(src), "source-changed", "%s", snode_show(s2).c_str());
  REQUIRE(snode_show(before, false) == snode_show(a2, false) && without_meta(before.meta) == without_meta(a2.meta), "other-keys-changed", "%s -> %s", snode_show(before).c_str(), snode_show(a2).c_str());
  em = find(a2.meta, "ARROW:extension:metadata");
  if (src_has) REQUIRE(em && *em == js2, "extension-metadata-copied", "%s instead of %s", em ? quote(*em).c_str() : "nothing", quote(js2).c_str());
  else REQUIRE(!em || em->empty() || *em == "{}", "extension-metadata-copied", "source has none but %s kept", quote(*em).c_str());
  count("schema_copied");
  s.release(&s); ss.release(&ss);
  if (c.idx % 50 == 0) {
    GeoArrowMetadataView q; memset(&q, 0, sizeof q); q.edge_type = (GeoArrowEdgeType)r.below(6);
    GeoArrowMetadataSetLonLat(&q);
    Meta l; l.edge = (int)q.edge_type; l.crs_type = 2; l.kind = 2; l.crs.assign(q.crs.data, q.crs.size_bytes);
    expect_json(produce(q), l, "lonlat"); Json j; REQUIRE(json_parse(l.crs, j) && j.kind == Json::OBJ, "lonlat", "not JSON"); count("lonlat");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
