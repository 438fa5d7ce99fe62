// P03: metadata, CRS values and schemas are parsed safely.
#include "schema_ref.h"
using namespace hz;
const char* hz_name = "p03";

static const char* kTok[] = {"{", "}", "[", "]", "\"", ":", ",", "\\", "null", "\"crs\"", "\"edges\"", "\"crs_type\"", "\"spherical\"", "\"projjson\"", "\"srid\"", " ", "{}", "[]", "\"a\\\"b\"", "1", "true", "nul", "n", "\"crs\":", "\"edges\":", "{\"crs\":"};
static std::string gen_meta(Rng& r) {
  std::string s = "{"; int n = (int)r.below(4);
  for (int i = 0; i < n; i++) {
    if (i) s += "," + gen_ws(r);
    s += gen_ws(r);
    switch (r.below(5)) {
      case 0: s += "\"edges\":" + gen_ws(r) + r.pick({std::string("\"spherical\""), std::string("\"planar\""), std::string("\"karney\""), std::string("null"), std::string("\"x\"")}); break;
      case 1: s += "\"crs\":" + gen_ws(r) + (r.chance(0.5) ? gen_json(r, 4, true) : r.chance(0.7) ? json_quote(gen_text(r, 20)) : "null"); break;
      case 2: s += "\"crs_type\":" + gen_ws(r) + r.pick({std::string("\"projjson\""), std::string("\"wkt2:2019\""), std::string("\"authority_code\""), std::string("\"srid\""), std::string("\"12345678\"")}); break;
      default: s += json_quote(gen_text(r, 8)) + gen_ws(r) + ":" + gen_ws(r) + gen_json(r, 3, false);
    }
    s += gen_ws(r);
  }
  return s + "}";
}
static std::string hostile(Rng& r) {
  int mode = (int)r.below(10);
  std::string s;
  if (mode == 0) { for (size_t n = r.below(40); n > 0; n--) s += (char)r.next(); return s; }
  if (mode <= 2) { for (size_t n = r.below(24); n > 0; n--) s += kTok[r.below(sizeof kTok / sizeof *kTok)]; return s; }
  if (mode == 3) {
    size_t d = r.pick({(size_t)3, (size_t)30, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)2000});
    if (r.one_in(8)) d = 150000;
    s = r.pick({std::string("{\"crs\":"), std::string("{\"x\": "), std::string("{\"crs\":{\"a\":")});
    const char* o = r.pick({"[", "{", "[{", "{\"k\":", "[ "});
    for (size_t i = 0; i < d; i++) s += o;
    if (r.chance(0.5)) { for (size_t i = 0; i < d; i++) s += o[0] == '[' ? "]" : "}"; s += "}"; }
    return s;
  }
  s = gen_meta(r);
  if (mode == 4) return s;
  if (mode == 5) { s.resize(r.below(s.size() + 1)); return s; }
  for (int i = (int)r.range(1, 3); i > 0 && !s.empty(); i--) {
    size_t p = r.below(s.size());
    switch (r.below(6)) {
      case 0: s[p] = (char)r.next(); break;
      case 1: s[p] = 0; break;
      case 2: s.erase(p, 1 + r.below(3)); break;
      case 3: s.insert(p, kTok[r.below(sizeof kTok / sizeof *kTok)]); break;
      case 4: s[p] = "\"\\{}[],:n"[r.below(9)]; break;
      default: s.insert(p, s.substr(p, r.below(9)));
    }
  }
  return s;
}

static bool inside(GeoArrowStringView v, const Exact& b) {
  return v.size_bytes == 0 || (v.size_bytes > 0 && v.data >= (char*)b.p && v.data + v.size_bytes <= (char*)b.p + b.n);
}

// sizing, prefix, terminator and guard bytes of a (out, n) producer
template <class F>
static std::string sizes(F f, const char* what, bool partial) {
  int64_t need = f((char*)nullptr, (int64_t)0);
  REQUIRE(need >= 0 && need < (1 << 26), "size", "%s reports %lld", what, (long long)need);
  Exact full; full.assign(std::string((size_t)need + 1, '\x7e').data(), (size_t)need + 1);
  int64_t got = f((char*)full.p, need + 1);
  REQUIRE(got == need, "size-differs", "%s: sizing call %lld, full call %lld", what, (long long)need, (long long)got);
  REQUIRE(full.p[need] == 0, "terminator", "%s: no terminator where there is room", what);
  std::string out((char*)full.p, (size_t)need);
  std::vector<int64_t> ns = {0, 1, 2, need / 2, need - 2, need - 1, need, need + 1, need + 9};
  for (int64_t n : ns) {
    if (n < 0 || (n == 0 && need == 0)) continue;
    Exact b; b.assign(std::string((size_t)n, '\x7e').data(), (size_t)n);
    int64_t g = f((char*)b.p, n);
    REQUIRE(g == need, "size-differs", "%s: capacity %lld reports %lld instead of %lld", what, (long long)n, (long long)g, (long long)need);
    int64_t m = n < need ? n : need, i = 0;
    while (i < m && (char)b.p[i] == out[i]) i++;
    int64_t written = i;
    for (; i < n; i++) {
      bool term = i == need && b.p[i] == 0;
      REQUIRE(term || b.p[i] == 0x7e, "not-a-prefix", "%s: capacity %lld: byte %lld is not of the full output", what, (long long)n, (long long)i);
    }
    if (n >= need) REQUIRE(written == need, "not-a-prefix", "%s: capacity %lld of %lld: only %lld bytes match", what, (long long)n, (long long)need, (long long)written);
    else if (partial) REQUIRE(written == n, "not-a-prefix", "%s: capacity %lld: only %lld bytes match", what, (long long)n, (long long)written);
    count("capacities");
  }
  return out;
}

static void check_err(const GeoArrowError& e) { REQUIRE(memchr(e.message, 0, sizeof e.message), "error-message-unterminated", "no NUL in error message"); }

static void metadata_case(Rng& r, const std::string& s) {
  Exact b(s);
  GeoArrowMetadataView mv; memset(&mv, 0x5A, sizeof mv);
  GeoArrowError err; memset(&err, 'X', sizeof err);
  bool ne = r.one_in(5);
  int rc = GeoArrowMetadataViewInit(&mv, GeoArrowStringView{(char*)b.p, (int64_t)b.n}, ne ? nullptr : &err);
  REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  count(rc ? "rejected" : "accepted"); distinct(fnv(s));
  if (rc) { if (!ne) check_err(err); return; }
  REQUIRE(inside(mv.crs, b), "crs-outside-input", "crs view is not inside the metadata");
  REQUIRE((unsigned)mv.edge_type <= 5 && (unsigned)mv.crs_type <= 5, "enum", "edge %d crs %d", (int)mv.edge_type, (int)mv.crs_type);
  sizes([&](char* o, int64_t n) { return GeoArrowMetadataSerialize(&mv, o, n); }, "serialize", false);
  GeoArrowStringView crs = mv.crs;
  sizes([&](char* o, int64_t n) { return GeoArrowUnescapeCrs(crs, o, n); }, "unescape", true);
  // what follows the string does not matter
  std::string big = s + r.pick({std::string("}"), std::string("\"}"), std::string(":null}"), std::string("ull}"), std::string(",\"edges\":\"spherical\"}")});
  Exact bb(big); GeoArrowMetadataView m2;
  int rc2 = GeoArrowMetadataViewInit(&m2, GeoArrowStringView{(char*)bb.p, (int64_t)s.size()}, nullptr);
  REQUIRE(rc2 == rc && m2.edge_type == mv.edge_type && m2.crs_type == mv.crs_type && m2.crs.size_bytes == mv.crs.size_bytes, "depends-on-following-bytes", "%s", quote(s).c_str());
}

static SNode gen_schema(Rng& r, int depth) {
  static const char* F[] = {"g", "+s", "+l", "+w:2", "+w:3", "+w:4", "+w:5", "+w:0", "z", "Z", "u", "U", "vz", "vu", "n", "f", "i", "+L", "+w:", "+w:-1", "+w:99999999999", "", "+", "+w:x", "w:16", "d:1", "tsu:", "+vl", "+m", "+ud:0,1", "+r", "q"};
  static const char* N[] = {"x", "y", "z", "m", "xy", "xyz", "xym", "xyzm", "xmin", "ymin", "xmax", "ymax", "zmin", "zmax", "mmin", "mmax", "", "vertices", "abcd"};
  SNode n; n.format = F[r.below(r.chance(0.8) ? 14 : sizeof F / sizeof *F)];
  n.has_name = !r.one_in(10); n.name = N[r.below(sizeof N / sizeof *N)]; n.flags = (int64_t)r.below(8);
  if (n.format.compare(0, 1, "+") == 0 && depth > 0) {
    size_t k = n.format == "+s" ? r.below(9) : r.one_in(8) ? r.below(3) : 1;
    for (size_t i = 0; i < k; i++) n.kids.push_back(gen_schema(r, depth - 1));
  }
  return n;
}
static void schema_case(Rng& r) {
  SNode n; int base = r.pick(all_types());
  if (r.chance(0.5)) n = gen_schema(r, 5);
  else {
    n = ref_schema(base);
    SNode* p = &n;
    for (int i = (int)r.below(5); i > 0 && !p->kids.empty(); i--) p = &p->kids[r.below(p->kids.size())];
    switch (r.below(6)) {
      case 0: *p = gen_schema(r, 3); break;
      case 1: if (!p->kids.empty()) p->kids.erase(p->kids.begin() + r.below(p->kids.size())); break;
      case 2: p->kids.push_back(gen_schema(r, 2)); break;
      case 3: p->has_name = false; break;
      case 4: p->name += "z"; break;
      default: p->format = gen_schema(r, 0).format;
    }
  }
  std::string ext = r.chance(0.7) ? ref_ext(r.chance(0.6) ? base : r.pick(all_types())) : r.chance(0.5) ? "geoarrow." + gen_text(r, 8) : gen_text(r, 20);
  bool has_ext = !r.one_in(8);
  n.has_meta = !r.one_in(12);
  if (n.has_meta) {
    for (size_t i = r.below(3); i > 0; i--) n.meta.push_back({gen_text(r, 10), gen_text(r, 10)});
    if (has_ext) n.meta.insert(n.meta.begin() + r.below(n.meta.size() + 1), {"ARROW:extension:name", ext});
    if (r.chance(0.7)) n.meta.insert(n.meta.begin() + r.below(n.meta.size() + 1), {"ARROW:extension:metadata", hostile(r)});
  }
  ArrowSchema s; ReleaseLog log; snode_build(n, &s, &log);
  std::string before = snode_show(n);
  GeoArrowSchemaView v; GeoArrowError err; memset(&err, 'X', sizeof err);
  int rc = GeoArrowSchemaViewInit(&v, &s, r.one_in(5) ? nullptr : &err);
  REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  count(rc ? "schema_rejected" : "schema_accepted"); distinct(fnv(before));
  Exact en(ext);
  rc = GeoArrowSchemaViewInitFromStorage(&v, &s, GeoArrowStringView{(char*)en.p, (int64_t)en.n}, r.one_in(5) ? nullptr : &err);
  REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  GeoArrowArrayView av; rc = GeoArrowArrayViewInitFromSchema(&av, &s, r.one_in(5) ? nullptr : &err); REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  GeoArrowArrayReader rd; memset(&rd, 0, sizeof rd);
  if (GeoArrowArrayReaderInitFromSchema(&rd, &s, r.one_in(5) ? nullptr : &err) == 0) { GeoArrowArrayReaderReset(&rd); count("readers"); }
  GeoArrowBuilder bl; memset(&bl, 0, sizeof bl);
  if (GeoArrowBuilderInitFromSchema(&bl, &s, r.one_in(5) ? nullptr : &err) == 0) { GeoArrowBuilderReset(&bl); count("builders"); }
  GeoArrowArrayWriter w; memset(&w, 0, sizeof w);
  if (GeoArrowArrayWriterInitFromSchema(&w, &s) == 0) { GeoArrowArrayWriterReset(&w); count("writers"); }
  SNode after; REQUIRE(snode_read(&s, after) && snode_show(after) == before, "input-schema-changed", "%s", before.c_str());
  // copying metadata onto a schema of our own
  ArrowSchema dst; memset(&dst, 0, sizeof dst);
  if (GeoArrowSchemaInitExtension(&dst, (GeoArrowType)r.pick(all_types())) == 0) {
    rc = GeoArrowSchemaSetMetadataFrom(&dst, &s); REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
    SNode t; REQUIRE(snode_read(&dst, t), "dst-broken", "destination schema unreadable");
    count("copied");
  }
  if (dst.release) dst.release(&dst);
  // kernels parse schemas and options too
  if (r.one_in(3)) {
    static const char* K[] = {"void", "void_agg", "visit_void_agg", "as_wkt", "as_wkb", "as_geoarrow", "format_wkt", "unique_geometry_types_agg", "box", "box_agg", "nope", ""};
    GeoArrowKernel k; memset(&k, 0, sizeof k);
    if (GeoArrowKernelInit(&k, K[r.below(12)], nullptr) == 0) {
      KV o; for (size_t i = r.below(4); i > 0; i--) o.push_back({r.pick({std::string("type"), std::string("precision"), std::string("max_element_size_bytes"), gen_text(r, 6)}), r.chance(0.6) ? fmt("%lld", (long long)r.pick({-1L, 0L, 1L, 4L, 16L, 17L, 100001L, 99999999999L, -2147483649L, 1001L})) : gen_text(r, 30)});
      std::string ob = enc_kv(o); Exact oe(ob);
      ArrowSchema out; memset(&out, 0, sizeof out);
      rc = k.start(&k, &s, r.one_in(4) ? nullptr : (const char*)oe.p, &out, &err);
      REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
      if (rc == 0) { SNode t; REQUIRE(!out.release || snode_read(&out, t), "kernel-schema", "unreadable output schema"); count("kernels"); }
      if (out.release) out.release(&out);
      k.release(&k);
    }
  }
  s.release(&s);
  REQUIRE(log.released == 1, "schema-release", "%d", log.released);
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (c.idx % 10 == 0) {
    std::string s = gen_meta(r);
    for (size_t k = 0; k <= s.size() && k < 400; k++) { metadata_case(r, s.substr(0, k)); count("truncations"); }
  }
  switch (r.below(3)) {
    case 0: { std::string s = hostile(r); crumb("metadata %s", quote(s).c_str()); if (want_sample()) sample(quote(s)); metadata_case(r, s); break; }
    case 1: {
      // a view filled by the caller, with any bytes as CRS
      std::string crs = r.chance(0.3) ? hostile(r) : r.chance(0.5) ? gen_text(r, 40) : "\"" + gen_text(r, 20) + (r.chance(0.5) ? "\"" : "");
      crumb("crs %s", quote(crs).c_str());
      Exact b(crs); GeoArrowMetadataView mv; memset(&mv, 0, sizeof mv);
      mv.edge_type = (GeoArrowEdgeType)r.below(6); mv.crs_type = (GeoArrowCrsType)r.below(6);
      mv.crs = GeoArrowStringView{(char*)b.p, (int64_t)b.n};
      if (crs.empty() && r.chance(0.5)) mv.crs.data = nullptr;
      sizes([&](char* o, int64_t n) { return GeoArrowMetadataSerialize(&mv, o, n); }, "serialize", false);
      GeoArrowStringView v = mv.crs;
      sizes([&](char* o, int64_t n) { return GeoArrowUnescapeCrs(v, o, n); }, "unescape", true);
      ArrowSchema s; memset(&s, 0, sizeof s);
      REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)r.pick(all_types())) == 0, "init", "SchemaInitExtension");
      int rc = GeoArrowSchemaSetMetadata(&s, &mv); REQUIRE(rc == 0, "set-metadata", "rc=%d", rc);
      SNode t; REQUIRE(snode_read(&s, t), "schema-broken", "schema unreadable");
      s.release(&s);
      distinct(fnv(crs)); count("crs_values");
      break;
    }
    default: schema_case(r);
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%lld blocks live: %s", (long long)alloc::live_blocks(), alloc::describe_live().c_str());
}
