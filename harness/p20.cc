// P20: kernels keep the scalar/aggregate protocol, length, nulls and metadata.
#include "kern.h"
using namespace hz;
const char* hz_name = "p20";

static const char* NAMES[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
static bool is_agg(int k) { return k == 1 || k == 2 || k == 5 || k == 7; }

struct MetaV { std::string text; bool has = false; int edge = 0; bool crs = false; std::string crs_text; };
static MetaV gen_metav(Rng& r, bool planar) {
  static const char* E[] = {"planar", "spherical", "vincenty", "thomas", "andoyer", "karney"};
  MetaV m; m.has = r.chance(0.7); if (!m.has) return m;
  KV kv; m.edge = planar ? 0 : (int)r.below(6);
  if (m.edge || r.one_in(4)) kv.push_back({"edges", json_quote(E[m.edge])});
  m.crs = r.one_in(2);
  if (m.crs) { m.crs_text = r.one_in(2) ? json_quote(gen_text(r, 20)) : gen_json(r, 2, true); kv.push_back({"crs", m.crs_text}); }
  if (m.crs && r.one_in(3)) kv.push_back({"crs_type", "\"projjson\""});
  if (kv.size() > 1 && r.one_in(2)) std::swap(kv[0], kv[1]);
  m.text = "{"; for (size_t i = 0; i < kv.size(); i++) m.text += (i ? "," : "") + json_quote(kv[i].first) + ":" + kv[i].second; m.text += "}";
  return m;
}
// the metadata of an output schema says the same as the input's
static void same_meta(const ArrowSchema* out, const MetaV& m, const char* how, int type) {
  KV kv; REQUIRE(dec_kv(out->metadata, kv), "metadata", "undecodable");
  const std::string* ext = kv_get(kv, "ARROW:extension:name");
  REQUIRE(ext && *ext == ref_ext(type), "metadata", "%s: extension name %s for type %d", how, ext ? quote(*ext).c_str() : "missing", type);
  const std::string* em = kv_get(kv, "ARROW:extension:metadata");
  std::string txt = em ? *em : ""; if (txt.empty()) txt = "{}";
  Json a, b; REQUIRE(json_parse(txt, a) && a.kind == Json::OBJ, "metadata", "%s: %s is not an object", how, quote(txt).c_str());
  REQUIRE(json_parse(m.text.empty() ? "{}" : m.text, b), "generator", "%s", m.text.c_str());
  auto get = [](const Json& j, const char* k) -> const Json* { for (auto& p : j.kv) if (p.first == k) return &p.second; return nullptr; };
  for (const char* k : {"edges", "crs", "crs_type"}) {
    const Json* x = get(a, k); const Json* y = get(b, k);
    std::string xs = x ? x->text : "", ys = y ? y->text : "";
    if (!strcmp(k, "edges")) { if (xs.empty()) xs = "\"planar\""; if (ys.empty()) ys = "\"planar\""; }
    // a bare or quoted CRS may be re-quoted
    bool same = xs == ys || (x && y && x->kind == Json::STR && y->kind == Json::STR && x->str == y->str);
    REQUIRE(same, "metadata", "%s: '%s' is %s, input has %s (%s -> %s)", how, k, quote(xs).c_str(), quote(ys).c_str(), quote(m.text).c_str(), quote(txt).c_str());
  }
  count("metadata");
}

// decoded content of one result row as text, whatever the type
static bool rows_of(int kernel, int dst, const ArrowArray* a, std::vector<std::string>& out, std::string& why) {
  Decoder d; bool ok;
  if (kernel == 0) { ok = decode_na(d, a); for (int64_t i = 0; ok && i < a->length; i++) out.push_back("null"); }
  else if (kernel == 6) {
    std::vector<std::pair<bool, std::vector<double>>> rows; ok = decode_box(d, a, 4, rows);
    for (auto& x : rows) out.push_back(!x.first ? "null" : fmt("%a %a %a %a", x.second[0], x.second[1], x.second[2], x.second[3]));
  } else if (kernel == 4 && is_native(dst)) {
    Features f; ok = d.native(a, dst, f);
    for (auto& x : f) { canon_nan(x.g); out.push_back(x.null ? "null" : show(x.g) + hex(&x.g.dims, 1) + fmt("%llx", (unsigned long long)hash_of(x.g))); }
  } else {
    OptStrings s; ok = d.serialized(a, kernel == 3 ? (int)GEOARROW_TYPE_WKT : dst, s);
    for (auto& x : s) out.push_back(x.first ? "v" + x.second : "null");
  }
  why = d.why;
  return ok;
}

static std::string options(int kernel, int dst, int prec, int limit, Rng& r) {
  KV kv;
  if (kernel == 4) kv.push_back({"type", std::to_string(dst)});
  if (kernel == 3) { if (prec >= 0) kv.push_back({"precision", std::to_string(prec)}); if (limit >= 0) kv.push_back({"max_element_size_bytes", std::to_string(limit)}); }
  if (r.one_in(3)) kv.insert(kv.begin() + r.below(kv.size() + 1), {"unrelated", "17"});
  return enc_kv(kv);
}

// a precision there is not is the most there is, however many digits it has
static void far_precision(Rng& r) {
  std::string huge; switch (r.below(5)) {
    case 0: huge = std::to_string(17 + (int64_t)r.below(1000)); break;
    case 1: huge = std::to_string(((int64_t)(1 + r.below(1 << 20)) << 32) + (int64_t)r.below(17)); break;
    case 2: huge = std::to_string(((int64_t)1 << 31) + (int64_t)r.below(17)); break;
    case 3: huge = std::to_string(INT64_MAX - (int64_t)r.below(20)); break;
    default: huge = "1844674407370955161" + std::to_string(6 + r.below(4)); break;  // 2^64 and a little
  }
  GenOpts o; o.num = NUM_FINITE; o.budget = 40; o.big = false; int type = r.one_in(2) ? (int)GEOARROW_TYPE_WKB : r.pick(all_native());
  Features f = gen_for(r, type, 1 + r.below(5), 0.1); std::vector<std::string> got[2];
  crumb("precision %s of %s", huge.c_str(), show(f).c_str()); distinct(fnv(huge));
  for (int pass = 0; pass < 2; pass++) {
    Kernel k("format_wkt"); KV kv{{"precision", pass ? huge : "16"}}; std::string opt = enc_kv(kv); ArrowSchema s, out; snode_build(ext_schema(r, type, nullptr), &s, nullptr);
    REQUIRE(k.start(&s, &opt, &out) == 0, "start", "precision %s", kv[0].second.c_str()); s.release(&s); out.release(&out);
    ReleaseLog log; ArrowArray a, res; build_source(r, type, f, &a, &log); int rc = k.push(&a, &res); a.release(&a); REQUIRE(rc == 0, "push", "%s", k.err.message);
    std::string why; bool ok = rows_of(3, 0, &res, got[pass], why); res.release(&res); REQUIRE(ok, "array", "%s", why.c_str()); k.release();
  }
  REQUIRE(got[0] == got[1], "precision", "%s is not like 16: %s", huge.c_str(), quote(got[1][0]).c_str()); count("far_precisions");
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}

static void rejects(Rng& r) {
  GeoArrowKernel k; k.release = nullptr; GeoArrowError err; err.message[0] = 0;
  int mode = (int)r.below(7); if (mode == 6) return far_precision(r);
  distinct(mix64(5000 + mode)); count("reject_cases");
  if (mode == 0) {
    std::string nm;
    switch (r.below(4)) {
      case 0: nm = NAMES[r.below(8)]; nm += r.pick({"x", " ", "_agg", "\n"}); if (nm == "void_agg" || nm == "box_agg") nm += "2"; break;
      case 1: nm = NAMES[r.below(8)]; nm.pop_back(); break;
      case 2: nm = gen_text(r, 12); for (auto& q : nm) if (!q) q = 'z'; for (auto& q : NAMES) if (nm == q) nm += "!"; break;
      default: nm = NAMES[r.below(8)]; nm[r.below(nm.size())] ^= 0x20;
    }
    for (auto& q : NAMES) if (nm == q) return;
    int rc = GeoArrowKernelInit(&k, nm.c_str(), nullptr);
    REQUIRE(rc != 0, "unknown-kernel", "%s accepted", quote(nm).c_str());
    REQUIRE(k.release == nullptr, "output-set", "%s rejected with a release callback", quote(nm).c_str());
  } else {
    int kind = mode == 1 ? 4 : (int)r.range(2, 7);
    Kernel kk(NAMES[kind]);
    ArrowSchema s, out; int type = r.pick(all_types()); std::string opt; KV kv; std::string what; MetaV m;
    if (mode == 1) {  // as_geoarrow without a usable type
      static const char* bad[] = {"0", "-1", "7", "8", "999", "abc", "", "20001", "3007", "4001", "100000", "100007", "5", "10007"};
      int w = (int)r.below(20);
      if (w < 14) { std::string t = bad[w]; if (t == "5") t = "90000"; kv.push_back({"type", t}); what = "type=" + t; }
      else if (w >= 16) { int64_t t = r.pick(std::vector<int>(all_types())); what = w == 19 ? "18446744073709551617" : std::to_string(((int64_t)(w == 16 ? 1 : 1 + r.below(1 << 30)) << 32) + (w == 18 ? (int64_t)r.pick({1, 2, 3, 4, 5, 6}) : t)); kv.push_back({"type", what}); what = "type=" + what; }
      else if (w == 14) { kv.push_back({"typ", "1"}); kv.push_back({"types", "1"}); what = "no type"; }
      else what = "no options";
      opt = enc_kv(kv); snode_build(ext_schema(r, type, nullptr), &s, nullptr);
    } else if (mode == 2) {  // not a geometry
      SNode n; n.format = r.pick({"i", "g", "n", "u", "z", "+s", "tdD", "b"}); n.name = "x";
      if (r.one_in(2)) { n.has_meta = true; n.meta.push_back({"ARROW:extension:name", r.pick({"geoarrow.pointy", "other", "", "geoarrow", "arrow.json"})}); }
      snode_build(n, &s, nullptr); opt = options(kind, 1, 4, -1, r); what = "schema " + snode_show(n);
    } else if (mode == 3) {  // an extension over the wrong storage
      SNode n = ref_schema(type); int other = r.pick(all_types()); n.has_meta = true; n.meta.push_back({"ARROW:extension:name", ref_ext(other)});
      if (ref_parse(n, ref_ext(other)) != -1) { kk.release(); return; }
      snode_build(n, &s, nullptr); opt = options(kind, 1, 4, -1, r); what = "schema " + snode_show(n);
    } else if (mode == 4) {  // a type no array can be written in
      kk.release(); Kernel k2("as_geoarrow");
      std::vector<int> no{(int)GEOARROW_TYPE_BOX, (int)GEOARROW_TYPE_BOX_Z, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKB_VIEW, (int)GEOARROW_TYPE_LARGE_WKT, (int)GEOARROW_TYPE_WKT_VIEW};
      int dst = r.pick(no); snode_build(ext_schema(r, type, nullptr), &s, nullptr); opt = options(4, dst, 0, 0, r);
      int rc = k2.start(&s, &opt, &out);
      if (rc == 0) { out.release(&out); count("wide_writer"); } else REQUIRE(out.release == nullptr, "output-set", "as_geoarrow type %d", dst);
      k2.release(); s.release(&s);
      REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
      return;
    } else {  // a second start of as_geoarrow
      kk.release(); Kernel k2("as_geoarrow"); int dst = r.pick(all_native());
      snode_build(ext_schema(r, type, nullptr), &s, nullptr); opt = options(4, dst, 0, 0, r);
      REQUIRE(k2.start(&s, &opt, &out) == 0, "start", "as_geoarrow %d", dst);
      out.release(&out);
      int rc = k2.start(&s, &opt, &out);
      REQUIRE(rc != 0, "second-start", "accepted"); REQUIRE(out.release == nullptr, "output-set", "second start");
      k2.release(); s.release(&s);
      REQUIRE(alloc::live_blocks() == 0, "leak", "after a second start: %s", alloc::describe_live().c_str());
      return;
    }
    int rc = kk.start(&s, opt.empty() || r.one_in(2) ? (kv.empty() && mode == 1 && r.one_in(2) ? nullptr : &opt) : &opt, &out);
    REQUIRE(rc != 0, "accepted", "%s start with %s", NAMES[kind], what.c_str());
    REQUIRE(out.release == nullptr, "output-set", "%s start failed with an output schema", NAMES[kind]);
    REQUIRE(s.release != nullptr, "input-released", "%s", NAMES[kind]);
    s.release(&s); kk.release();
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (r.one_in(6)) return rejects(r);
  static std::vector<int> types; if (types.empty()) { types = all_types(); for (int t : all_serialized()) for (int i = 0; i < 3; i++) types.push_back(t); }
  int kernel = (int)(c.idx % 8);
  int type = r.pick(types); if (is_box(type)) type = 990;
  int dst = r.one_in(3) ? (int)r.pick({(int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_WKB}) : r.pick(all_native());
  if (kernel == 4 && is_native(dst) && is_native(type) && r.chance(0.7)) dst = native_type(type_geom(type) <= 3 && r.one_in(2) ? type_geom(type) + 3 : type_geom(type), (int)r.range(1, 4), r.one_in(2));
  int prec = r.one_in(2) ? -1 : (int)r.below(17), limit = r.one_in(2) ? -1 : (int)r.below(60);
  MetaV m = gen_metav(r, kernel >= 6);
  size_t nb = r.one_in(10) ? 0 : (size_t)r.range(1, 3);
  std::vector<Features> batches;
  for (size_t b = 0; b < nb; b++) batches.push_back(gen_for(r, type, r.one_in(3) ? gen_nfeat(r) : r.below(6), gen_pnull(r)));
  for (auto& f : batches) { distinct(hash_of(f) ^ mix64(kernel * 977 + type)); distinct(shape_of(f)); }
  distinct(mix64(kernel * 1000003 + type * 131 + (kernel == 4 ? dst : 0)));
  crumb("%s type %d -> %d %s", NAMES[kernel], type, dst, nb ? show(batches[0]).c_str() : "");
  if (want_sample()) sample(fmt("%s type %d ", NAMES[kernel], type) + (nb ? show(batches[0]) : ""));
  std::string opt = options(kernel, dst, prec, limit, r);
  ArrowSchema schema; ReleaseLog slog; snode_build(ext_schema(r, type, m.has ? &m.text : nullptr), &schema, &slog);
  SNode before; snode_read(&schema, before); std::string before_s = snode_show(before);
  {
    Kernel k(NAMES[kernel]); ArrowSchema out;
    int rc = k.start(&schema, (kernel == 3 || kernel == 4) ? &opt : r.one_in(2) ? &opt : nullptr, &out);
    REQUIRE(rc == 0, "start", "%s of %d (%s) rc %d %s", NAMES[kernel], type, m.text.c_str(), rc, k.err.message);
    REQUIRE(out.release, "output-unset", "%s start", NAMES[kernel]);
    SNode after; snode_read(&schema, after);
    REQUIRE(snode_show(after) == before_s && slog.released == 0, "input-changed", "schema");
    SNode os; snode_read(&out, os);
    switch (kernel) {
      case 0: case 1: case 2: REQUIRE(os.format == "n", "schema", "%s: %s", NAMES[kernel], snode_show(os).c_str()); break;
      case 3: REQUIRE(os.format == "u", "schema", "%s", snode_show(os).c_str()); break;
      case 5: REQUIRE(os.format == "i", "schema", "%s", snode_show(os).c_str()); break;
      default: {
        int ot = kernel == 4 ? dst : 990; SNode want = ref_schema(ot);
        auto strip = [](SNode n) { n.has_meta = false; n.meta.clear(); n.has_name = true; n.name = ""; n.flags = 0; return n; };
        SNode a = strip(os), b = strip(want);
        std::string as = snode_show(a, false), bs = snode_show(b, false);
        REQUIRE(os.format == want.format && ref_parse(os, ref_ext(ot)) == ot, "schema", "%s: %s instead of %s", NAMES[kernel], as.c_str(), bs.c_str());
        same_meta(&out, m, NAMES[kernel], ot);
      }
    }
    out.release(&out);
    std::vector<ArrowArray> outs; size_t total = 0; bool failed_push = false;
    for (auto& f : batches) {
      ArrowArray a, o; ReleaseLog log; build_source(r, type, f, &a, &log); uint64_t dig = digest(&a);
      rc = k.push(&a, is_agg(kernel) ? nullptr : &o);
      REQUIRE(a.release && digest(&a) == dig && log.released == 0, "input-changed", "%s push", NAMES[kernel]);
      a.release(&a);
      if (rc != 0) {
        REQUIRE(kernel == 4 && is_native(dst), "push", "%s of %d -> %d rc %d %s: %s", NAMES[kernel], type, dst, rc, k.err.message, show(f).c_str());
        REQUIRE(o.release == nullptr, "output-set", "push failed with an output array");
        // one of the features alone has to be refused as well
        bool some = false;
        for (auto& x : f) {
          Kernel q(NAMES[4]); ArrowSchema o2; REQUIRE(q.start(&schema, &opt, &o2) == 0, "start", "again"); o2.release(&o2);
          ArrowArray a2, r2; build_source(r, type, Features{x}, &a2, &log); int e = q.push(&a2, &r2); a2.release(&a2);
          if (e == 0) r2.release(&r2); else some = true;
        }
        REQUIRE(some, "batch-rejected", "%d -> %d: batch refused (%s), every feature accepted: %s", type, dst, k.err.message, show(f).c_str());
        failed_push = true; count("refused"); break;
      }
      total += f.size();
      if (is_agg(kernel)) continue;
      REQUIRE(o.release, "output-unset", "%s push", NAMES[kernel]);
      REQUIRE(o.length == (int64_t)f.size(), "length", "%s: %lld of %zu", NAMES[kernel], (long long)o.length, f.size());
      std::vector<std::string> rows; std::string why;
      REQUIRE(rows_of(kernel, dst, &o, rows, why), "array-structure", "%s: %s", NAMES[kernel], why.c_str());
      for (size_t i = 0; i < f.size(); i++) if (kernel != 0) REQUIRE((rows[i] == "null") == f[i].null, "null", "%s row %zu", NAMES[kernel], i);
      // any feature alone gives the same
      for (int t = 0; t < 2 && !f.empty(); t++) {
        size_t i = r.below(f.size()); Kernel q(NAMES[kernel]); ArrowSchema o2; ArrowArray a2, r2;
        REQUIRE(q.start(&schema, &opt, &o2) == 0, "start", "again"); o2.release(&o2);
        build_source(r, type, Features{f[i]}, &a2, &log); int e = q.push(&a2, &r2); a2.release(&a2);
        REQUIRE(e == 0, "single-rejected", "%s feature %zu alone rc %d", NAMES[kernel], i, e);
        std::vector<std::string> one; bool ok = rows_of(kernel, dst, &r2, one, why); r2.release(&r2);
        REQUIRE(ok && one.size() == 1, "array-structure", "%s", why.c_str());
        REQUIRE(one[0] == rows[i], "row-differs", "%s %d -> %d row %zu of %zu: %s alone %s", NAMES[kernel], type, dst, i, f.size(), quote(rows[i]).c_str(), quote(one[0]).c_str());
        count("rows");
      }
      outs.push_back(o); count("batches");
    }
    if (!failed_push) {
      if (!is_agg(kernel)) REQUIRE(k.finish(nullptr) == 0, "finish", "%s", NAMES[kernel]);
      else for (int i = (int)r.range(1, 2); i > 0; i--) {
        ArrowArray o; rc = k.finish(&o);
        REQUIRE(rc == 0 && o.release, "finish", "%s rc %d", NAMES[kernel], rc);
        Decoder d; bool ok = true; std::vector<int32_t> v; std::vector<std::pair<bool, std::vector<double>>> rows;
        if (kernel <= 2) { ok = decode_na(d, &o); REQUIRE(!ok || o.length == 1, "length", "%s: %lld", NAMES[kernel], (long long)o.length); }
        else if (kernel == 5) ok = decode_i32(d, &o, v);
        else { ok = decode_box(d, &o, 4, rows); REQUIRE(!ok || rows.size() == 1, "length", "%s: %zu", NAMES[kernel], rows.size()); }
        o.release(&o);
        REQUIRE(ok, "array-structure", "%s: %s", NAMES[kernel], d.why.c_str());
        count("aggregates");
      }
    }
    k.release();
    for (auto& o : outs) o.release(&o);  // results outlive the kernel
  }
  schema.release(&schema);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
