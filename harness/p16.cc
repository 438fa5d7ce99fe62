// P16: batches are independent; every producer can be used again, and what it
// handed out earlier never changes.
#include "kern.h"
#include <functional>
#include <memory>
using namespace hz;
const char* hz_name = "p16";

// What a finished array says, independently of the library
struct Content { Features f; OptStrings s; std::vector<std::pair<bool, std::vector<double>>> b; std::vector<int32_t> i; int64_t length = 0, nulls = 0; };
static Content content(const ArrowArray* a, int type, const char* when) {
  Content c; Decoder d; c.length = a->length; bool ok;
  if (type == 0) ok = decode_na(d, a);
  else if (type == -1) ok = decode_i32(d, a, c.i);
  else if (is_box(type)) ok = decode_box(d, a, 2 * ndim(type_dims(type)), c.b);
  else if (is_native(type)) ok = d.native(a, type, c.f);
  else ok = d.serialized(a, type, c.s);
  REQUIRE(ok, "array-structure", "%s type %d: %s", when, type, d.why.c_str());
  for (auto& x : c.f) c.nulls += x.null;
  for (auto& x : c.s) c.nulls += !x.first;
  for (auto& x : c.b) c.nulls += !x.first;
  if (type > 0) REQUIRE(a->null_count == -1 || a->null_count == c.nulls, "null-count", "%s type %d: null_count %lld of %lld", when, type, (long long)a->null_count, (long long)c.nulls);
  return c;
}
static bool same(const Content& a, const Content& b, std::string& why) {
  if (a.length != b.length) { why = fmt("length %lld vs %lld", (long long)a.length, (long long)b.length); return false; }
  if (!equal(a.f, b.f, &why)) return false;
  if (a.s.size() != b.s.size()) { why = "number of values"; return false; }
  for (size_t i = 0; i < a.s.size(); i++) if (a.s[i] != b.s[i]) { why = fmt("row %zu: %s / %s", i, a.s[i].first ? quote(a.s[i].second.substr(0, 200)).c_str() : "null", b.s[i].first ? quote(b.s[i].second.substr(0, 200)).c_str() : "null"); return false; }
  if (a.i != b.i) { why = "integers"; return false; }
  if (a.b.size() != b.b.size()) { why = "number of boxes"; return false; }
  for (size_t i = 0; i < a.b.size(); i++) {
    if (a.b[i].first != b.b[i].first) { why = fmt("row %zu null", i); return false; }
    for (size_t j = 0; j < a.b[i].second.size(); j++) if (!same_bits(a.b[i].second[j], b.b[i].second[j])) { why = fmt("row %zu value %zu: %g / %g", i, j, a.b[i].second[j], b.b[i].second[j]); return false; }
  }
  return true;
}

// A producer makes one array from one batch
struct Producer {
  virtual ~Producer() {}
  virtual void init() = 0;
  virtual void batch(const Features& f, Rng& r, ArrowArray* out) = 0;
  virtual void reset() = 0;
  int type = 0; std::string name;
};

struct NativeP : Producer {
  GeoArrowNativeWriter w; GeoArrowVisitor v; GeoArrowError err; int mode;  // 0 visit 1 append 2 mixed
  void init() override { err.message[0] = 0; memset(&w, 0x5a, sizeof w); memset(&v, 0, sizeof v); v.error = &err; REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)type) == 0, "init", "native"); REQUIRE(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "visitor"); }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    int how = mode == 2 ? (int)r.below(3) : mode;
    for (auto& x : f) {
      bool ap = how == 2 ? r.one_in(2) : how == 1; int rc;
      if (how >= 1 && mode >= 1 && r.one_in(12)) reject(r);
      if (!ap) { Layout L; L.r = &r; rc = play(&v, x, L); count("visited"); }
      else if (x.null) { rc = GeoArrowNativeWriterAppendNull(&w); count("appended"); }
      else { NodeStyle st; st.r = &r; OwnedView ov = make_view(x.g, st); rc = GeoArrowNativeWriterAppend(&w, ov.view(), &err); count("appended"); }
      REQUIRE(rc == 0, "write", "native type %d %s: rc %d %s for %s", type, ap ? "append" : "visit", rc, err.message, x.null ? "null" : show(x.g).c_str());
      if (how == 2) count("mixed");
    }
    REQUIRE(GeoArrowNativeWriterFinish(&w, out, &err) == 0, "finish", "native type %d: %s", type, err.message);
  }
  // a geometry that does not fit is refused and leaves nothing behind
  void reject(Rng& r) {
    Geom g; g.dims = type_dims(type); int gt = type_geom(type);
    GenOpts o; o.num = NUM_NO_NAN; o.budget = 30; o.empties = false;
    for (int t = 0; t < 5; t++) {
      g = gen_geom(r, gt == T_POINT ? (int)T_LINESTRING : (int)T_COLLECTION, g.dims, o);
      if (total_coords(g) > 1) break;
    }
    if (total_coords(g) <= 1) return;
    OwnedView ov = make_view(g, NodeStyle());
    int rc = GeoArrowNativeWriterAppend(&w, ov.view(), &err);
    REQUIRE(rc > 0, "append-accepted", "type %d took %s", type, show(g).c_str());
    count("rejected");
  }
  void reset() override { GeoArrowNativeWriterReset(&w); }
};
struct WkbP : Producer {
  GeoArrowWKBWriter w; GeoArrowVisitor v; GeoArrowError err; int mode;
  void init() override { err.message[0] = 0; memset(&w, 0x5a, sizeof w); REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "wkb"); memset(&v, 0, sizeof v); GeoArrowWKBWriterInitVisitor(&w, &v); v.error = &err; }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    int how = mode == 2 ? (int)r.below(3) : mode;
    for (auto& x : f) {
      bool ap = how == 2 ? r.one_in(2) : how == 1; int rc;
      if (how >= 1 && mode >= 1 && r.one_in(12)) {  // nodes that are no geometry
        GenOpts o; o.budget = 20; Geom g = gen_any(r, o); OwnedView ov = make_view(g, NodeStyle());
        auto w0 = ov.view(); auto* n = (GeoArrowGeometryNode*)&w0.root[r.below((uint64_t)w0.size_nodes)];
        bool ring = false; { uint32_t rem = 0; for (int64_t i = 0; i < w0.size_nodes; i++) { const auto& q = w0.root[i]; bool in = rem > 0; if (in) rem--; else if (q.geometry_type == T_POLYGON) rem = q.size; if (&q == n) ring = in; } }
        if (!ring) { n->geometry_type = r.pick({0, 8, 99}); rc = GeoArrowWKBWriterAppend(&w, w0); REQUIRE(rc > 0, "append-accepted", "geometry type %d", n->geometry_type); count("rejected"); }
      }
      if (!ap) { Layout L; L.r = &r; rc = play(&v, x, L); count("visited"); }
      else if (x.null) { rc = GeoArrowWKBWriterAppendNull(&w); count("appended"); }
      else { NodeStyle st; st.r = &r; OwnedView ov = make_view(x.g, st); rc = GeoArrowWKBWriterAppend(&w, ov.view()); count("appended"); }
      REQUIRE(rc == 0, "write", "wkb %s: rc %d for %s", ap ? "append" : "visit", rc, show(x.g).c_str());
      if (how == 2) count("mixed");
    }
    REQUIRE(GeoArrowWKBWriterFinish(&w, out, &err) == 0, "finish", "wkb: %s", err.message);
  }
  void reset() override { GeoArrowWKBWriterReset(&w); }
};
struct WktP : Producer {
  GeoArrowWKTWriter w; GeoArrowVisitor v; GeoArrowError err; int precision, flat; int64_t limit;
  void init() override { err.message[0] = 0; memset(&w, 0x5a, sizeof w); REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "wkt"); w.precision = precision; w.use_flat_multipoint = flat; w.max_element_size_bytes = limit; memset(&v, 0, sizeof v); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &err; }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    for (auto& x : f) {
      Layout L; L.r = &r; int rc = play(&v, x, L); count("visited");
      if (rc == EAGAIN && limit >= 0) { rc = v.feat_end(&v); count("truncated"); }
      REQUIRE(rc == 0, "write", "wkt rc %d for %s", rc, show(x.g).c_str());
    }
    REQUIRE(GeoArrowWKTWriterFinish(&w, out, &err) == 0, "finish", "wkt: %s", err.message);
  }
  void reset() override { GeoArrowWKTWriterReset(&w); }
};
struct ArrayP : Producer {
  GeoArrowArrayWriter w; GeoArrowVisitor v; GeoArrowError err; int precision = 16, flat = 1; bool opts = false;
  void init() override {
    err.message[0] = 0; memset(&w, 0x5a, sizeof w);
    REQUIRE(GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)type) == 0, "init", "array writer %d", type);
    if (opts) { REQUIRE(GeoArrowArrayWriterSetPrecision(&w, precision) == 0, "init", "precision"); REQUIRE(GeoArrowArrayWriterSetFlatMultipoint(&w, flat) == 0, "init", "flat"); }
    memset(&v, 0, sizeof v); REQUIRE(GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "init", "visitor"); v.error = &err;
  }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    for (auto& x : f) { Layout L; L.r = &r; int rc = play(&v, x, L); count("visited"); REQUIRE(rc == 0, "write", "array writer %d rc %d %s", type, rc, err.message); }
    REQUIRE(GeoArrowArrayWriterFinish(&w, out, &err) == 0, "finish", "array writer %d: %s", type, err.message);
  }
  void reset() override { GeoArrowArrayWriterReset(&w); }
};
static void free_raw(uint8_t* p, int64_t, void*) { raw_free(p); }
struct BuilderP : Producer {
  GeoArrowBuilder b; GeoArrowError err; int mode;  // 0 append 1 hand over 2 mixed per buffer
  std::vector<int> per;
  void init() override { err.message[0] = 0; memset(&b, 0x5a, sizeof b); REQUIRE(GeoArrowBuilderInitFromType(&b, (GeoArrowType)type) == 0, "init", "builder %d", type); }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    ArrayStyle st; ArrowArray src;
    if (is_native(type)) build_native(type, f, &src, nullptr, st);
    else { OptStrings s; for (auto& x : f) s.push_back({!x.null, x.null ? "" : wkb_iso(x.g)}); build_serialized(type, s, &src, nullptr, st); }
    int64_t at = 0;
    std::function<void(const ArrowArray*, bool)> walk = [&](const ArrowArray* a, bool root) {
      NodePriv* p = (NodePriv*)a->private_data;
      for (int64_t i = 0; i < a->n_buffers; i++) {
        if (i == 0 && !root) continue;
        size_t n = 0; if (a->buffers[i]) for (auto& q : p->sizes) if (q.first == a->buffers[i]) n = q.second;
        if (a->buffers[i]) {
          bool hand = mode == 1 || (mode == 2 && per[at % per.size()]);
          GeoArrowBufferView bv; bv.size_bytes = (int64_t)n;
          if (hand) { uint8_t* m = (uint8_t*)raw_malloc(n); if (n) memcpy(m, a->buffers[i], n); bv.data = m; REQUIRE(GeoArrowBuilderSetOwnedBuffer(&b, at, bv, free_raw, nullptr) == 0, "owned", "buffer %lld", (long long)at); count("handed_over"); }
          else for (size_t k = 0; k < n;) { size_t m = 1 + r.below(n - k); bv.data = (const uint8_t*)a->buffers[i] + k; bv.size_bytes = (int64_t)m; REQUIRE(GeoArrowBuilderAppendBuffer(&b, at, bv) == 0, "append", "buffer %lld", (long long)at); k += m; count("pieces"); }
        }
        at++;
      }
      for (int64_t i = 0; i < a->n_children; i++) walk(a->children[i], false);
    };
    walk(&src, true);
    src.release(&src);
    REQUIRE(GeoArrowBuilderFinish(&b, out, &err) == 0, "finish", "builder %d: %s", type, err.message);
  }
  void reset() override { GeoArrowBuilderReset(&b); }
};
struct KernelP : Producer {
  std::unique_ptr<Kernel> k; int source; std::string opt; std::string kernel; ArrowSchema out_schema;
  void init() override {
    k.reset(new Kernel(kernel.c_str())); Rng r(5); SNode sn = ext_schema(r, source, nullptr); ArrowSchema s; snode_build(sn, &s, nullptr);
    int rc = k->start(&s, &opt, &out_schema); s.release(&s);
    REQUIRE(rc == 0, "start", "%s: rc %d %s", kernel.c_str(), rc, k->err.message); out_schema.release(&out_schema);
  }
  void batch(const Features& f, Rng& r, ArrowArray* out) override {
    ArrowArray src; build_source(r, source, f, &src, nullptr);
    int rc = k->push(&src, out); src.release(&src); count("pushed");
    REQUIRE(rc == 0, "push", "%s source %d: rc %d %s", kernel.c_str(), source, rc, k->err.message);
  }
  void reset() override { k->release(); k.reset(); }
};

static std::unique_ptr<Producer> make(Rng& r, uint64_t idx, int& in_type) {
  static const std::vector<int> nat = all_native();
  switch (idx % 8) {
    case 0: case 1: { auto p = std::unique_ptr<NativeP>(new NativeP); p->type = nat[(idx / 8) % nat.size()]; p->mode = (int)r.below(3); p->name = fmt("native writer mode %d", p->mode); in_type = p->type; return std::unique_ptr<Producer>(p.release()); }
    case 2: { auto p = std::unique_ptr<WkbP>(new WkbP); p->type = GEOARROW_TYPE_WKB; p->mode = (int)r.below(3); p->name = fmt("WKB writer mode %d", p->mode); in_type = 0; return std::unique_ptr<Producer>(p.release()); }
    case 3: { auto p = std::unique_ptr<WktP>(new WktP); p->type = GEOARROW_TYPE_WKT; p->precision = r.pick({16, 16, 3, 0}); p->flat = (int)r.below(2); p->limit = r.one_in(2) ? -1 : r.pick({(int64_t)0, (int64_t)10, (int64_t)100}); p->name = "WKT writer"; in_type = 0; return std::unique_ptr<Producer>(p.release()); }
    case 4: { auto p = std::unique_ptr<ArrayP>(new ArrayP); p->type = r.one_in(2) ? r.pick(nat) : r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}); p->opts = p->type == GEOARROW_TYPE_WKT && r.one_in(2); p->precision = (int)r.below(17); p->flat = (int)r.below(2); p->name = "array writer"; in_type = is_native(p->type) ? p->type : 0; return std::unique_ptr<Producer>(p.release()); }
    case 5: { auto p = std::unique_ptr<BuilderP>(new BuilderP); p->type = r.one_in(5) ? r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB}) : nat[(idx / 8) % nat.size()]; p->mode = (int)r.below(3); for (int k = 0; k < 8; k++) p->per.push_back((int)r.below(2)); p->name = fmt("builder mode %d", p->mode); in_type = is_native(p->type) ? p->type : 0; return std::unique_ptr<Producer>(p.release()); }
    default: {
      auto p = std::unique_ptr<KernelP>(new KernelP); std::vector<int> src = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKB}) src.push_back(t);
      p->source = r.one_in(2) ? r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}) : r.pick(src);
      switch (r.below(3)) {
        case 0: { p->kernel = "as_geoarrow"; p->type = is_native(p->source) ? native_type(type_geom(p->source), type_dims(p->source), r.one_in(2)) : r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}); p->opt = enc_kv({{"type", std::to_string(p->type)}}); break; }
        case 1: p->kernel = "format_wkt"; p->type = GEOARROW_TYPE_WKT; { KV kv; if (r.one_in(2)) kv.push_back({"precision", std::to_string(r.below(17))}); if (r.one_in(2)) kv.push_back({"max_element_size_bytes", std::to_string(r.below(60))}); p->opt = enc_kv(kv); } break;
        default: p->kernel = "box"; p->type = 990; p->opt = enc_kv({});
      }
      p->name = p->kernel; in_type = is_native(p->source) ? p->source : is_wkt(p->source) ? -2 : 0; return std::unique_ptr<Producer>(p.release());
    }
  }
}

static void producers(Case& c) {
  Rng& r = c.r; int in_type; uint64_t s0 = r.next(); uint64_t idx = c.idx - c.idx / 10;
  Rng rm(s0); std::unique_ptr<Producer> used = make(rm, idx, in_type);
  int nb = (int)r.range(2, 6);
  std::vector<ArrowArray> kept; std::vector<Content> was; std::vector<bool> gone;
  used->init();
  std::string hist;
  for (int b = 0; b < nb; b++) {
    size_t n = r.one_in(4) ? 0 : r.one_in(8) ? 20 + r.below(60) : r.below(9);
    double pn = r.pick({0.0, 0.0, 0.3, 1.0, 0.1});
    Features f;
    if (in_type == -2) f = gen_for(r, GEOARROW_TYPE_WKT, n, pn);
    else f = gen_for(r, in_type ? in_type : GEOARROW_TYPE_WKB, n, pn);
    if (r.one_in(8)) for (auto& x : f) { x.g.xs.clear(); x.g.kids.clear(); }  // nothing but empties
    hist += fmt("%zu%s ", n, pn == 1 ? "n" : pn > 0 ? "m" : "");
    distinct(mix64(used->type) ^ hash_of(f)); distinct(fnv(hist) ^ mix64(used->type));
    crumb("%s type %d batch %d of %zu rows (history %s)", used->name.c_str(), used->type, b, f.size(), hist.c_str());
    uint64_t bs = r.next();
    ArrowArray a; memset(&a, 0x5a, sizeof a); a.release = nullptr; { Rng br(bs); used->batch(f, br, &a); }
    REQUIRE(a.release, "no-array", "%s", used->name.c_str());
    Rng rm2(s0); int it2; std::unique_ptr<Producer> fresh = make(rm2, idx, it2); ArrowArray fa; fa.release = nullptr;
    fresh->init(); { Rng br(bs); fresh->batch(f, br, &fa); } fresh->reset();
    Content got = content(&a, used->type, used->name.c_str()), want = content(&fa, used->type, "fresh producer"); std::string why;
    REQUIRE(got.length == (int64_t)f.size(), "batch-length", "%s type %d batch %d (history %s): %lld rows of %zu", used->name.c_str(), used->type, b, hist.c_str(), (long long)got.length, f.size());
    REQUIRE(same(got, want, why), "batch-content", "%s type %d batch %d (history %s): %s", used->name.c_str(), used->type, b, hist.c_str(), why.c_str());
    fa.release(&fa);
    kept.push_back(a); was.push_back(got); gone.push_back(false); count("batches"); if (f.empty()) count("empty_batches");
    for (size_t k = 0; k < kept.size(); k++) if (!gone[k]) { REQUIRE(same(content(&kept[k], used->type, "earlier array"), was[k], why), "earlier-changed", "%s type %d: array %zu after batch %d: %s", used->name.c_str(), used->type, k, b, why.c_str()); count("rechecked"); }
    if (r.one_in(4)) { size_t k = r.below(kept.size()); if (!gone[k]) { kept[k].release(&kept[k]); gone[k] = true; count("released_early"); } }
    if (r.one_in(10)) { used->reset(); used->init(); hist += "reset "; count("reinitialised"); }
  }
  if (want_sample()) sample(used->name + ": " + hist);
  used->reset();
  for (size_t k = 0; k < kept.size(); k++) if (!gone[k]) { std::string why; REQUIRE(same(content(&kept[k], used->type, "array after reset"), was[k], why), "earlier-changed", "%s type %d: array %zu after the producer was reset: %s", used->name.c_str(), used->type, k, why.c_str()); kept[k].release(&kept[k]); }
}

// Readers, views and collectors see each input as if it were the first
static void readers(Case& c) {
  Rng& r = c.r; int kind = (int)r.below(5); std::string hist; int nb = (int)r.range(2, 8);
  static const char* kn[] = {"WKT reader", "WKB reader", "array reader", "array view", "geometry"};
  std::vector<int> types = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_LARGE_WKT, (int)GEOARROW_TYPE_WKB_VIEW, (int)GEOARROW_TYPE_WKT_VIEW, 990}) types.push_back(t);
  int type = kind == 3 ? r.pick(all_native()) : r.pick(types);
  GeoArrowWKTReader tr; GeoArrowWKBReader br; GeoArrowArrayReader ar; GeoArrowArrayView av; GeoArrowGeometry ge;
  auto init = [&](int k, GeoArrowWKTReader* t, GeoArrowWKBReader* b, GeoArrowArrayReader* a, GeoArrowArrayView* v, GeoArrowGeometry* g) {
    int rc = 0;
    switch (k) { case 0: rc = GeoArrowWKTReaderInit(t); break; case 1: rc = GeoArrowWKBReaderInit(b); break; case 2: rc = GeoArrowArrayReaderInitFromType(a, (GeoArrowType)type); break; case 3: rc = GeoArrowArrayViewInitFromType(v, (GeoArrowType)type); break; default: rc = GeoArrowGeometryInit(g); }
    REQUIRE(rc == 0, "init", "%s", kn[k]);
  };
  auto fini = [&](int k, GeoArrowWKTReader* t, GeoArrowWKBReader* b, GeoArrowArrayReader* a, GeoArrowGeometry* g) {
    switch (k) { case 0: GeoArrowWKTReaderReset(t); break; case 1: GeoArrowWKBReaderReset(b); break; case 2: GeoArrowArrayReaderReset(a); break; case 3: break; default: GeoArrowGeometryReset(g); }
  };
  init(kind, &tr, &br, &ar, &av, &ge);
  for (int b = 0; b < nb; b++) {
    if (kind == 0 || kind == 1) {
      GenOpts o; o.budget = 60; o.num = kind ? NUM_ANY : NUM_FINITE; std::string s; WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); };
      Geom g = r.one_in(3) ? gen_nested(r, (int)r.range(1, 6), D_XYZ, o) : gen_any(r, o);
      if (kind == 0) wkt_tagged(g, s, ws); else { WkbStyle st; st.r = &r; enc_wkb(g, s, st); }
      int bad = (int)r.below(4);  // broken inputs in between
      if (bad == 0 && !s.empty()) s.resize(r.below(s.size()));
      if (bad == 1 && !s.empty()) s[r.below(s.size())] = (char)r.below(256);
      hist += bad == 0 ? "cut " : bad == 1 ? "changed " : "good ";
      Exact e(s); Monitor m, m2; m.strict = m2.strict = bad > 1; int rc, rc2; bool stop = r.one_in(5);
      if (stop) { m.fail_at = m2.fail_at = (int)r.below(12); m.fail_code = m2.fail_code = r.pick({(int)EAGAIN, (int)EINVAL, 77}); }
      GeoArrowWKTReader t2; GeoArrowWKBReader b2; init(kind, &t2, &b2, nullptr, nullptr, nullptr);
      if (kind == 0) { GeoArrowStringView v; v.data = (const char*)e.p; v.size_bytes = (int64_t)s.size(); rc = GeoArrowWKTReaderVisit(&tr, v, &m.v); rc2 = GeoArrowWKTReaderVisit(&t2, v, &m2.v); }
      else { GeoArrowBufferView v; v.data = e.p; v.size_bytes = (int64_t)s.size(); if (r.one_in(3)) { GeoArrowGeometryView x, y; rc = GeoArrowWKBReaderRead(&br, v, &x, &m.err); rc2 = GeoArrowWKBReaderRead(&b2, v, &y, &m2.err); if (!rc && !rc2) { Geom gx, gy; std::string why; REQUIRE(view_to_geom(x, gx, why) == view_to_geom(y, gy, why), "reader-reuse", "WKB reader: node arrays differ"); REQUIRE(hash_of(gx) == hash_of(gy), "reader-reuse", "WKB reader (history %s): %s, fresh %s", hist.c_str(), show(gx).c_str(), show(gy).c_str()); } } else { rc = GeoArrowWKBReaderVisit(&br, v, &m.v); rc2 = GeoArrowWKBReaderVisit(&b2, v, &m2.v); } }
      fini(kind, &t2, &b2, nullptr, nullptr);
      distinct(fnv(s)); count("reads"); if (rc) count("failed_reads");
      crumb("%s history %s", kn[kind], hist.c_str());
      REQUIRE(rc == rc2 && m.trace == m2.trace, "reader-reuse", "%s after history %s: rc %d (%llu events), fresh reader rc %d (%llu events)", kn[kind], hist.c_str(), rc, (unsigned long long)m.n_events, rc2, (unsigned long long)m2.n_events);
      std::string why; REQUIRE(equal(m.feats, m2.feats, &why), "reader-reuse", "%s after history %s: %s", kn[kind], hist.c_str(), why.c_str());
    } else if (kind == 2 || kind == 3) {
      Features f = gen_for(r, type, r.below(8), gen_pnull(r)); ArrowArray a; ReleaseLog log; build_source(r, type, f, &a, &log);
      bool bad = r.one_in(5); int64_t keep = a.n_buffers; int64_t nb0 = a.n_children;
      GeoArrowError err; err.message[0] = 0; hist += bad ? "bad " : fmt("%zu ", f.size());
      GeoArrowArrayReader a2; GeoArrowArrayView v2; GeoArrowGeometry gg; init(kind, nullptr, nullptr, &a2, &v2, &gg);
      if (bad) { if (is_native(type) || is_box(type)) a.n_children = 7; else a.n_buffers = 1; int rc = kind == 2 ? GeoArrowArrayReaderSetArray(&ar, &a, &err) : GeoArrowArrayViewSetArray(&av, &a, &err); a.n_buffers = keep; a.n_children = nb0; if (rc) count("failed_sets"); else bad = true; fini(kind, nullptr, nullptr, &a2, &gg); a.release(&a); continue; }
      Monitor m, m2; int rc, rc2; int64_t off = 0, len = a.length; if (r.one_in(3)) { off = r.range(0, a.length); len = r.range(0, a.length - off); }
      if (kind == 2) { rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err); rc2 = GeoArrowArrayReaderSetArray(&a2, &a, &m2.err); if (!rc) rc = GeoArrowArrayReaderVisit(&ar, off, len, &m.v); if (!rc2) rc2 = GeoArrowArrayReaderVisit(&a2, off, len, &m2.v); }
      else { rc = GeoArrowArrayViewSetArray(&av, &a, &m.err); rc2 = GeoArrowArrayViewSetArray(&v2, &a, &m2.err); if (!rc) rc = GeoArrowArrayViewVisitNative(&av, off, len, &m.v); if (!rc2) rc2 = GeoArrowArrayViewVisitNative(&v2, off, len, &m2.v); }
      fini(kind, nullptr, nullptr, &a2, &gg); check_noted(); distinct(hash_of(f)); count("sets");
      std::string why; REQUIRE(rc == 0 && rc2 == 0 && m.trace == m2.trace && equal(m.feats, m2.feats, &why), "reader-reuse", "%s type %d after history %s: rc %d / %d %s", kn[kind], type, hist.c_str(), rc, rc2, why.c_str());
      REQUIRE((int64_t)m.feats.size() == len, "reader-reuse", "%s type %d: %zu of %lld rows", kn[kind], type, m.feats.size(), (long long)len);
      a.release(&a);
    } else {
      // a geometry collected again holds only the new one
      GenOpts o; o.budget = 60; Geom g = gen_any(r, o), g2; std::string why; int how = (int)r.below(3); int rc; NodeStyle st; st.r = &r; OwnedView ov = make_view(g, st);
      if (how == 0) { GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError err; GeoArrowGeometryInitVisitor(&ge, &v); v.error = &err; Layout L; L.r = &r; Feature x; x.null = false; x.g = g; rc = play(&v, x, L); hist += "visit "; }
      else if (how == 1) { rc = GeoArrowGeometryShallowCopy(ov.view(), &ge); hist += "shallow "; }
      else { rc = GeoArrowGeometryDeepCopy(ov.view(), &ge); hist += "deep "; }
      REQUIRE(rc == 0, "geometry", "rc %d", rc); distinct(hash_of(g)); count("collected");
      REQUIRE(view_to_geom(GeoArrowGeometryAsView(&ge), g2, why), "geometry-reuse", "history %s: %s", hist.c_str(), why.c_str());
      Geom a1 = g, b1 = g2; norm_empty_points(a1); norm_empty_points(b1);
      REQUIRE(equal(a1, b1, &why), "geometry-reuse", "history %s: %s; given %s, holds %s", hist.c_str(), why.c_str(), show(g).c_str(), show(g2).c_str());
      if (how == 1) {  // the next use must not read the old coordinates
      }
    }
  }
  fini(kind, &tr, &br, &ar, &ge);
  if (want_sample()) sample(std::string(kn[kind]) + ": " + hist);
}

void hz_case(Case& c) {
  if (c.idx % 10 == 9) readers(c); else producers(c);
  REQUIRE(alloc::live_blocks() == 0 && !alloc::bad_frees(), "leak", "%s", alloc::describe_live().c_str());
}
