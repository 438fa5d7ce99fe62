// P23: types and schemas correspond one to one.
#include "schema_ref.h"
using namespace hz;
const char* hz_name = "p23";

static std::vector<int> T;
void hz_init() { T = all_types(); }

static void expect_view(const GeoArrowSchemaView& v, int type, const char* how) {
  bool ser = is_wkb(type) || is_wkt(type);
  int g = ser ? 0 : is_box(type) ? 990 : type_geom(type), d = ser ? 0 : type_dims(type), c = ser ? 0 : type_inter(type) ? 2 : 1;
  REQUIRE((int)v.type == type, "type", "%s: type %d instead of %d", how, (int)v.type, type);
  REQUIRE((int)v.geometry_type == g && (int)v.dimensions == d && (int)v.coord_type == c, "components", "%s: type %d gave geometry %d dims %d coord %d", how, type, (int)v.geometry_type, (int)v.dimensions, (int)v.coord_type);
  std::string e = v.extension_name.data ? std::string(v.extension_name.data, v.extension_name.size_bytes) : "";
  REQUIRE(e == ref_ext(type), "extension-name", "%s: %s for type %d", how, quote(e).c_str(), type);
}

static void enumerate() {
  std::map<int, bool> known;
  for (int t : T) {
    known[t] = true;
    bool ser = is_wkb(t) || is_wkt(t);
    GeoArrowType ty = (GeoArrowType)t;
    REQUIRE(std::string(GeoArrowExtensionNameFromType(ty)) == ref_ext(t), "extension-name", "type %d", t);
    if (!ser) REQUIRE((int)GeoArrowMakeType(GeoArrowGeometryTypeFromType(ty), GeoArrowDimensionsFromType(ty), GeoArrowCoordTypeFromType(ty)) == t, "recompose", "type %d", t);
    GeoArrowSchemaView v; memset(&v, 0x5A, sizeof v);
    REQUIRE(GeoArrowSchemaViewInitFromType(&v, ty) == 0, "view-from-type", "type %d", t);
    expect_view(v, t, "InitFromType"); REQUIRE(v.schema == nullptr, "schema-field", "type %d", t);
    for (int ext = 0; ext < 2; ext++) {
      ArrowSchema s; memset(&s, 0, sizeof s);
      int rc = ext ? GeoArrowSchemaInitExtension(&s, ty) : GeoArrowSchemaInit(&s, ty);
      REQUIRE(rc == 0, "schema-init", "type %d rc %d", t, rc);
      SNode n, want = ref_schema(t); REQUIRE(snode_read(&s, n), "schema-unreadable", "type %d", t);
      if (ext) { KV kv = {{"ARROW:extension:name", ref_ext(t)}, {"ARROW:extension:metadata", "{}"}}; REQUIRE(n.has_meta && n.meta == kv, "schema-metadata", "type %d: %s", t, snode_show(n).c_str()); }
      else REQUIRE(!n.has_meta, "schema-metadata", "storage schema of %d has metadata", t);
      want.name = n.name; want.has_name = n.has_name;
      REQUIRE(snode_show(n, false) == snode_show(want, false), "schema-layout", "type %d: %s, documented %s", t, snode_show(n, false).c_str(), snode_show(want, false).c_str());
      GeoArrowError err; memset(&v, 0x5A, sizeof v);
      std::string en = ref_ext(t); Exact eb(en);
      rc = ext ? GeoArrowSchemaViewInit(&v, &s, &err) : GeoArrowSchemaViewInitFromStorage(&v, &s, GeoArrowStringView{(char*)eb.p, (int64_t)eb.n}, &err);
      REQUIRE(rc == 0, "schema-view", "type %d rc %d %s", t, rc, err.message);
      expect_view(v, t, ext ? "extension schema" : "storage schema");
      REQUIRE(v.schema == &s, "schema-field", "schema field not set");
      if (ext) REQUIRE(v.extension_metadata.size_bytes == 2 && !memcmp(v.extension_metadata.data, "{}", 2), "extension-metadata", "type %d", t);
      // components used by readers and builders
      GeoArrowArrayView av; REQUIRE((ext ? GeoArrowArrayViewInitFromSchema(&av, &s, &err) : GeoArrowArrayViewInitFromType(&av, ty)) == 0, "array-view", "type %d", t);
      REQUIRE((int)av.schema_view.type == t && (ser || is_box(t) || av.n_offsets == list_depth(type_geom(t))), "array-view", "type %d offsets %d", t, av.n_offsets);
      s.release(&s); REQUIRE(!s.release, "released-mark", "schema");
      count("types");
    }
    // each storage layout under every other extension name
    SNode w = ref_schema(t);
    for (int u : T) {
      ArrowSchema s; snode_build(w, &s, nullptr);
      GeoArrowSchemaView q; std::string e = ref_ext(u);
      int want = ref_parse(w, e), rc = GeoArrowSchemaViewInitFromStorage(&q, &s, GeoArrowStringView{e.data(), (int64_t)e.size()}, nullptr);
      REQUIRE((rc == 0) == (want >= 0), "cross", "layout of %d as %s: rc %d, expected type %d", t, e.c_str(), rc, want);
      if (rc == 0) expect_view(q, want, "cross");
      s.release(&s); count("cross_pairs");
    }
  }
  // recomposition over all component triples
  for (int g = 0; g <= 7; g++) for (int gg = 0; gg < 2; gg++) for (int d = 0; d <= 4; d++) for (int c = 0; c <= 2; c++) {
    int geom = gg ? 990 : g; if (geom == 7) continue;
    int t = (int)GeoArrowMakeType((GeoArrowGeometryType)geom, (GeoArrowDimensions)d, (GeoArrowCoordType)c);
    bool ok = geom != 0 && d != 0 && c != 0 && !(geom == 990 && c != 1);
    REQUIRE(ok ? t == geom + (d - 1) * 1000 + (c - 1) * 10000 : t == 0, "make-type", "(%d,%d,%d) -> %d", geom, d, c, t);
    count("triples");
  }
  // identifiers that are no type give no schema
  for (int t = 0; t < 131072; t++) {
    if (known.count(t)) continue;
    if (t > 30000 && t < 99000 && t % 37) continue;
    ArrowSchema s; memset(&s, 0, sizeof s);
    int rc = GeoArrowSchemaInit(&s, (GeoArrowType)t);
    REQUIRE(rc != 0, "unknown-type-accepted", "GeoArrowSchemaInit(%d) succeeded", t);
    if (s.release) s.release(&s);
    count("unknown_types");
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (c.idx < 8) { enumerate(); }
  int base = r.pick(T);
  SNode n = ref_schema(base);
  std::string ext = ref_ext(base);
  std::vector<SNode*> all; std::function<void(SNode*)> walk = [&](SNode* p) { all.push_back(p); for (auto& k : p->kids) walk(&k); };
  walk(&n);
  bool benign = r.chance(0.3);
  for (int i = (int)r.range(1, 3); i > 0; i--) {
    SNode* p = all[r.below(all.size())];
    if (benign) {
      switch (r.below(5)) {
        case 0: p->flags = (int64_t)r.below(2) * 2; break;
        case 1: if (p->format == "+l" || p == &n) { p->has_name = false; } break;
        case 2: if (p->format == "+l" || p->format == "+s" || p->format.compare(0, 2, "+w") == 0) p->name = gen_text(r, 8); break;
        case 3: if (p != &n) { p->has_meta = true; p->meta = {{gen_text(r, 5), gen_text(r, 5)}}; } break;
        default: if (all.back()->format == "g" && n.format != "+s") { if (type_inter(base) && !is_box(base) && !is_wkb(base) && !is_wkt(base) && type_dims(base) != D_XYM) all.back()->name = r.pick({std::string("values"), std::string("item"), std::string("")}); } break;
      }
      continue;
    }
    switch (r.below(9)) {
      case 0: p->format = r.pick({std::string("g"), std::string("f"), std::string("+s"), std::string("+l"), std::string("+L"), std::string("+w:2"), std::string("+w:3"), std::string("+w:4"), std::string("+w:5"), std::string("+w:1"), std::string("z"), std::string("Z"), std::string("u"), std::string("U"), std::string("vz"), std::string("vu"), std::string("l")}); break;
      case 1: if (!p->kids.empty()) { p->kids.erase(p->kids.begin() + r.below(p->kids.size())); i = 1; } break;
      case 2: if (!p->kids.empty()) { p->kids.push_back(p->kids[r.below(p->kids.size())]); i = 1; } break;
      case 3: p->has_name = false; break;
      case 4: p->name = r.pick({std::string("x"), std::string("y"), std::string("z"), std::string("m"), std::string("xy"), std::string("xym"), std::string("xyz"), std::string("xyzm"), std::string("X"), std::string("xmin"), std::string("ymax"), std::string("xminn"), std::string("zmin"), std::string("zmax"), std::string("mmax"), std::string("")}); break;
      case 5: if (p->kids.size() > 1) { size_t a = r.below(p->kids.size()), b = r.below(p->kids.size()); std::swap(p->kids[a], p->kids[b]); i = 1; } break;
      case 6: ext = r.chance(0.5) ? ref_ext(r.pick(T)) : ext + gen_text(r, 3); break;
      case 7: if (!ext.empty()) ext.resize(r.below(ext.size())); break;
      default: { SNode q; q.format = "+l"; q.flags = 0; SNode k = *p; q.kids.push_back(k); *p = q; i = 1; }
    }
    all.clear(); walk(&n);
  }
  // childless nested formats are not Arrow schemas
  bool valid_abi = true;
  std::function<void(SNode&)> abi = [&](SNode& p) {
    if ((p.format == "+l" || p.format == "+L" || p.format.compare(0, 2, "+w") == 0) && p.kids.size() != 1) valid_abi = false;
    if (p.format[0] != '+' && !p.kids.empty()) valid_abi = false;
    for (auto& k : p.kids) abi(k);
  };
  abi(n);
  // unrelated metadata, any order
  std::string em = r.chance(0.7) ? "{}" : "{\"edges\":\"spherical\"}";
  KV kv;
  bool has_em = !r.one_in(4);
  kv.push_back({"ARROW:extension:name", ext});
  if (has_em) kv.push_back({"ARROW:extension:metadata", em});
  for (size_t i = r.below(4); i > 0; i--) kv.push_back({r.pick({std::string("ARROW:extension"), std::string("ARROW:extension:nam"), std::string("ARROW:extension:names"), std::string("k"), std::string(""), gen_text(r, 9)}), r.chance(0.3) ? "geoarrow.point" : gen_text(r, 12)});
  for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[r.below(i)]);
  n.has_meta = true; n.meta = kv;
  crumb("schema %s", snode_show(n).c_str());
  if (want_sample()) sample(snode_show(n));
  distinct(fnv(snode_show(n)));
  int want = ref_parse(n, ext);
  ArrowSchema s; ReleaseLog log; snode_build(n, &s, &log);
  GeoArrowSchemaView v; GeoArrowError err; err.message[0] = 0;
  memset(&v, 0x5A, sizeof v);
  int rc = GeoArrowSchemaViewInit(&v, &s, &err);
  if (want >= 0 && valid_abi) REQUIRE(rc == 0, "valid-rejected", "%s is type %d but rejected: %s", snode_show(n).c_str(), want, err.message);
  if (want < 0) REQUIRE(rc != 0, "invalid-accepted", "%s accepted as type %d", snode_show(n).c_str(), (int)v.type);
  if (rc == 0) {
    expect_view(v, want, "extension schema");
    std::string got = v.extension_metadata.data ? std::string(v.extension_metadata.data, v.extension_metadata.size_bytes) : "";
    REQUIRE(got == (has_em ? em : std::string()), "extension-metadata", "%s instead of %s", quote(got).c_str(), em.c_str());
    count("accepted");
  } else count("rejected");
  // the same through the storage interface (no extension name in the schema)
  SNode n2 = n; n2.meta.clear(); for (auto& k : n.meta) if (k.first != "ARROW:extension:name") n2.meta.push_back(k);
  n2.has_meta = !n2.meta.empty();
  ArrowSchema s2; snode_build(n2, &s2, &log); Exact eb(ext);
  int rc2 = GeoArrowSchemaViewInitFromStorage(&v, &s2, GeoArrowStringView{(char*)eb.p, (int64_t)eb.n}, &err);
  REQUIRE(rc2 == rc, "storage-differs", "storage rc %d, extension rc %d for %s", rc2, rc, snode_show(n).c_str());
  if (rc2 == 0) expect_view(v, want, "storage schema");
  bool has_name = false; for (auto& k : n2.meta) has_name |= k.first == "ARROW:extension:name";
  if (!has_name) REQUIRE(GeoArrowSchemaViewInit(&v, &s2, nullptr) != 0, "no-extension-accepted", "%s", snode_show(n2).c_str());
  s.release(&s); s2.release(&s2);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
