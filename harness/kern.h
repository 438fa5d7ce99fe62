// Driving kernels and decoding what they return.
#ifndef HZ_KERN_H
#define HZ_KERN_H
#include "big.h"
#include "schema_ref.h"
#include "wktgen.h"
namespace hz {

// A source array of any type from the model
inline void build_near(Rng& r, int type, const Features& f, ArrowArray* a, ReleaseLog* log) {
  ArrayStyle st; st.r = &r;
  if (is_native(type)) { build_native(type, f, a, log, st); return; }
  if (is_box(type)) {
    int nd = ndim(type_dims(type));
    std::vector<std::pair<bool, std::vector<double>>> rows;
    for (auto& x : f) {
      std::vector<double> v(2 * nd, 0.0);
      if (!x.null) {
        if (x.g.kids.empty()) for (int j = 0; j < nd; j++) { v[j] = 1; v[nd + j] = 0; }
        else { const auto& q = x.g.kids[0].xs; v[0] = q[0]; v[1] = q[1]; v[nd] = q[4]; v[nd + 1] = q[5]; }
      }
      rows.push_back({!x.null, v});
    }
    build_box(type, rows, a, log, st); return;
  }
  OptStrings vals; WktStyle ws = random_style(r);
  ws.num = [](double d) { return fmt("%.17g", d); };
  for (auto& x : f) {
    std::string s;
    if (!x.null) { if (is_wkt(type)) wkt_tagged(x.g, s, ws); else { WkbStyle b; b.r = &r; enc_wkb(x.g, s, b); } }
    vals.push_back({!x.null, s});
  }
  build_serialized(type, vals, a, log, st);
}
inline void build_source(Rng& r, int type, const Features& f, ArrowArray* a, ReleaseLog* log) {
  build_near(r, type, f, a, log);
#ifndef HZ_NEAR
  if (r.one_in(6)) far_away(r, type, a);
#endif
}
// features a source of that type can hold (boxes: as the polygons they stand for)
inline Features gen_for(Rng& r, int type, size_t n, double p_null, bool nested = true) {
  Neutral neutral; GenOpts o; o.num = is_wkt(type) ? NUM_FINITE : NUM_ANY; o.budget = r.one_in(20) ? 1500 : 150; o.huge = 5000; o.big = r.chance(0.3);
  if (!nested) o.max_depth = 1;
  if (is_box(type)) {
    Features f;
    for (size_t i = 0; i < n; i++) {
      Feature x; x.null = r.chance(p_null);
      if (!x.null) {
        x.g.type = T_POLYGON; x.g.dims = D_XY;
        if (!r.one_in(4)) {
          double a = gen_double(r, NUM_NICE), b = gen_double(r, NUM_NICE), c = a + (double)r.below(9), d = b + (double)r.below(9);
          Geom q; q.type = T_LINESTRING; q.dims = D_XY; q.xs = {a, b, c, b, c, d, a, d, a, b}; x.g.kids.push_back(q);
        }
      }
      f.push_back(x);
    }
    return f;
  }
  return gen_features(r, is_native(type) ? type_geom(type) : 0, is_native(type) ? type_dims(type) : 0, o, n, p_null);
}

struct Kernel {
  GeoArrowKernel k; bool live = false; GeoArrowError err;
  explicit Kernel(const char* name) { err.message[0] = 0; memset(&k, 0x5a, sizeof k); int rc = GeoArrowKernelInit(&k, name, nullptr); REQUIRE(rc == 0, "kernel-init", "%s rc %d", name, rc); live = true; }
  // each call gets an error object of its own, which is gone afterwards
  template <class F> int call(F f) {
    GeoArrowError* e = (GeoArrowError*)raw_malloc(sizeof *e); e->message[0] = 0;
    int rc = f(e); memcpy(err.message, e->message, sizeof err.message); err.message[sizeof err.message - 1] = 0; raw_free(e); return rc;
  }
  int start(ArrowSchema* s, const std::string* opt, ArrowSchema* out) { out->release = nullptr; return call([&](GeoArrowError* e) { return k.start(&k, s, opt ? opt->data() : nullptr, out, e); }); }
  int push(ArrowArray* a, ArrowArray* out) { if (out) out->release = nullptr; return call([&](GeoArrowError* e) { return k.push_batch(&k, a, out, e); }); }
  int finish(ArrowArray* out) { if (out) out->release = nullptr; return call([&](GeoArrowError* e) { return k.finish(&k, out, e); }); }
  void release() { if (live) { k.release(&k); live = false; REQUIRE(k.release == nullptr, "kernel-release", "release callback left set"); } }
  ~Kernel() { if (live) k.release(&k); }
};

// struct of n double children, none of them null
inline bool decode_box(Decoder& d, const ArrowArray* a, int n, std::vector<std::pair<bool, std::vector<double>>>& rows) {
  if (!d.common(a, 1, n)) return false;
  std::vector<bool> v; if (!d.validity(a, v, true)) return false;
  for (int64_t i = 0; i < a->length; i++) rows.push_back({v[i], {}});
  for (int j = 0; j < n; j++) {
    const ArrowArray* c = a->children[j]; std::vector<bool> cv;
    if (!d.common(c, 2, 0) || !d.validity(c, cv, false)) return false;
    if (c->length != a->offset + a->length) return d.bad(fmt("box child %d has length %lld of %lld", j, (long long)c->length, (long long)a->length));
    if (a->length && !c->buffers[1]) return d.bad("no values");
    for (int64_t i = 0; i < a->length; i++) rows[(size_t)i].second.push_back(((const double*)c->buffers[1])[c->offset + a->offset + i]);
  }
  return true;
}
inline bool decode_na(Decoder& d, const ArrowArray* a) { return d.common(a, 0, 0) && (a->null_count == a->length || a->null_count == -1 || d.bad("null_count of a null array")); }
inline bool decode_i32(Decoder& d, const ArrowArray* a, std::vector<int32_t>& out) {
  if (!d.common(a, 2, 0)) return false;
  std::vector<bool> v; if (!d.validity(a, v, false)) return false;
  if (a->length && !a->buffers[1]) return d.bad("no values");
  for (int64_t i = 0; i < a->length; i++) out.push_back(((const int32_t*)a->buffers[1])[a->offset + i]);
  return true;
}

// an extension schema of the type with metadata (may be absent)
inline SNode ext_schema(Rng& r, int type, const std::string* meta) {
  SNode n = ref_schema(type); n.name = r.one_in(2) ? "geometry" : "";
  n.has_meta = true;
  n.meta.push_back({"ARROW:extension:name", ref_ext(type)});
  if (meta) n.meta.push_back({"ARROW:extension:metadata", *meta});
  if (r.one_in(3)) n.meta.insert(n.meta.begin() + r.below(n.meta.size() + 1), {"other", "value"});
  if (r.one_in(4)) n.flags = 0;
  return n;
}
inline const std::string* kv_get(const KV& kv, const char* k) { for (auto& p : kv) if (p.first == k) return &p.second; return nullptr; }
}  // namespace hz
#endif
