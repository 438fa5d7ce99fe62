// Deterministic scenarios that use every part of the C interface and digest what
// comes out; the caller decides what goes wrong, or what runs beside them.
#ifndef HZ_SCEN_H
#define HZ_SCEN_H
#include "kern.h"
#include <functional>
#include <errno.h>
using namespace hz;

static int g_dirty = -1;  // what an object holds before it is initialised
template <class T> static void dirty(T& x) { if (g_dirty >= 0) memset((void*)&x, g_dirty, sizeof x); }

struct Ctx {
  Rng r; bool err = false; bool cont = false; uint64_t h = 17;
  explicit Ctx(Rng r_) : r(r_) {}
  void mix(uint64_t x) { h = mix64(h ^ x); }
  // true: go on with the scenario
  bool ok(int rc) { if (rc) { err = true; last = rc; if (last < 0) neg = true; } return rc == 0 || cont; }
  bool need(int rc) { ok(rc); return rc == 0; }  // initialisers: no going on without the object
  int last = 0; bool neg = false;
};

// what an output array holds (decoded independently where it is ours to check)
static void take(Ctx& c, ArrowArray* a, int type) {
  if (!a->release) return;
  if (!c.err) {
    Decoder d; bool ok = true;
    if (is_native(type)) { Features f; ok = d.native(a, type, f); for (auto& x : f) canon_nan(x.g); c.mix(hash_of(f)); }
    else if (type == 990) { std::vector<std::pair<bool, std::vector<double>>> rows; ok = decode_box(d, a, 4, rows); for (auto& x : rows) { c.mix(x.first); if (x.first) for (double v : x.second) { uint64_t u; memcpy(&u, &v, 8); c.mix(u); } } }
    else if (type == -1) { ok = decode_na(d, a); c.mix((uint64_t)a->length); }
    else if (type == -2) { std::vector<int32_t> v; ok = decode_i32(d, a, v); for (int x : v) c.mix((uint64_t)x); }
    else { OptStrings s; ok = d.serialized(a, type, s); for (auto& x : s) { c.mix(x.first); if (x.first) c.mix(fnv(x.second)); } }
    if (!ok) note_fail("bad-result", "reported success with an invalid array of type %d: %s", type, d.why.c_str());
  }
  a->release(a);
}
static void take_schema(Ctx& c, ArrowSchema* s) {
  if (!s->release) return;
  if (!c.err) { SNode n; if (snode_read(s, n)) c.mix(fnv(snode_show(n))); else note_fail("bad-result", "reported success with an unreadable schema"); }
  s->release(s);
}

static std::string wkb_of(Rng& r, const Geom& g) { WkbStyle b; b.r = &r; std::string s; enc_wkb(g, s, b); return s; }
static std::string wkt_of(Rng& r, const Geom& g) { WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); }; std::string s; wkt_tagged(g, s, ws); return s; }
static GenOpts opts(Rng& r, NumKind k) { GenOpts o; o.num = k; o.budget = r.one_in(6) ? 400 : 60; o.big = r.chance(0.4); o.max_depth = 3; return o; }

static void visit_geom(Ctx& c, GeoArrowGeometryView w) {
  Monitor m; m.check = false;
  int rc = GeoArrowGeometryViewVisit(w, &m.v);
  if (!c.ok(rc)) return;
  if (!c.err) c.mix(hash_of(m.feats));
}

static void sc_wkb(Ctx& c) {
  Geom g = gen_any(c.r, opts(c.r, NUM_ANY)); Exact in(wkb_of(c.r, g));
  GeoArrowWKBReader rd; dirty(rd); if (GeoArrowWKBReaderInit(&rd)) { c.err = true; return; }
  GeoArrowGeometryView w; dirty(w); GeoArrowBufferView bv{}; bv.data = in.p; bv.size_bytes = (int64_t)in.n; GeoArrowError e;
  bool visit = c.r.one_in(2);
  for (int k = 0; k < 2; k++) {
    if (visit) { Monitor m; m.check = false; int rc = GeoArrowWKBReaderVisit(&rd, bv, &m.v); if (!c.ok(rc)) break; if (!c.err) c.mix(hash_of(m.feats)); }
    else {
      int rc = GeoArrowWKBReaderRead(&rd, bv, &w, &e); if (rc) { c.ok(rc); break; }
      GeoArrowGeometry o; dirty(o); if (GeoArrowGeometryInit(&o)) { c.err = true; break; }
      bool deep = c.r.one_in(2);
      rc = deep ? GeoArrowGeometryDeepCopy(w, &o) : GeoArrowGeometryShallowCopy(w, &o);
      if (c.ok(rc) && rc == 0) visit_geom(c, GeoArrowGeometryAsView(&o));
      GeoArrowGeometryReset(&o);
      if (c.err && !c.cont) break;
    }
  }
  GeoArrowWKBReaderReset(&rd);
}
static void sc_wkt(Ctx& c) {
  GeoArrowWKTReader rd; dirty(rd); if (GeoArrowWKTReaderInit(&rd)) { c.err = true; return; }
  GeoArrowGeometry o, cp; dirty(o); dirty(cp); bool ho = false, hc = false;
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; v.error = &e;
  do {
    if (GeoArrowGeometryInit(&o)) { c.err = true; break; } ho = true;
    if (GeoArrowGeometryInit(&cp)) { c.err = true; break; } hc = true;
    GeoArrowGeometryInitVisitor(&o, &v);
    int n = (int)c.r.range(1, 3);
    for (int i = 0; i < n; i++) {
      Geom g = gen_any(c.r, opts(c.r, NUM_FINITE)); Exact t(wkt_of(c.r, g));
      GeoArrowStringView sv{(const char*)t.p, (int64_t)t.n};
      int rc = GeoArrowWKTReaderVisit(&rd, sv, &v);
      if (rc) { c.ok(rc); if (!c.cont) break; continue; }
      visit_geom(c, GeoArrowGeometryAsView(&o));
      int how = (int)c.r.below(3);
      rc = how == 0 ? GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&o), &cp) : how == 1 ? GeoArrowGeometryShallowCopy(GeoArrowGeometryAsView(&o), &cp) : GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&o), &cp);
      if (rc == 0) visit_geom(c, GeoArrowGeometryAsView(&cp)); else if (!c.ok(rc)) break;
      if (c.err && !c.cont) break;
    }
  } while (0);
  if (ho) GeoArrowGeometryReset(&o);
  if (hc) GeoArrowGeometryReset(&cp);
  GeoArrowWKTReaderReset(&rd);
}
static void sc_nodes(Ctx& c) {
  GeoArrowGeometry o; dirty(o); if (GeoArrowGeometryInit(&o)) { c.err = true; return; }
  int n = (int)c.r.range(1, 40);
  bool inl = c.r.one_in(2);
  for (int i = 0; i < n; i++) {
    int rc;
    if (c.r.one_in(5)) {
      int64_t k = (int64_t)c.r.below(30), old = o.size_nodes;
      rc = inl ? GeoArrowGeometryResizeNodesInline(&o, k) : GeoArrowGeometryResizeNodes(&o, k);
      if (!rc) { for (int64_t j = old; j < k; j++) memset(&o.root[j], 0, sizeof o.root[j]); }
    } else {
      GeoArrowGeometryNode* nd = nullptr;
      rc = inl ? GeoArrowGeometryAppendNodeInline(&o, &nd) : GeoArrowGeometryAppendNode(&o, &nd);
      if (!rc) { memset(nd, 0, sizeof *nd); nd->size = (uint32_t)i; }
    }
    if (!c.ok(rc)) break;
    if (!c.err) { c.mix((uint64_t)o.size_nodes); for (int64_t j = 0; j < o.size_nodes; j++) c.mix(o.root[j].size); }
  }
  GeoArrowGeometryReset(&o);
}

// features into a writer: events or appended geometries
static bool feed(Ctx& c, GeoArrowVisitor* v, const Features& f) {
  Layout L; L.r = &c.r;
  for (auto& x : f) if (!c.ok(play(v, x, L))) return false;
  return true;
}
static void sc_wkb_writer(Ctx& c) {
  GeoArrowWKBWriter w; dirty(w); if (GeoArrowWKBWriterInit(&w)) { c.err = true; return; }
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowWKBWriterInitVisitor(&w, &v); GeoArrowError e; v.error = &e;
  bool append = c.r.one_in(2);
  for (int b = 0; b < 2; b++) {
    Features f = gen_features(c.r, 0, 0, opts(c.r, NUM_ANY), c.r.below(5), 0.3); bool go = true;
    if (append) for (auto& x : f) { NodeStyle st; st.r = &c.r; OwnedView ov = make_view(x.g, st); if (!c.ok(x.null ? GeoArrowWKBWriterAppendNull(&w) : GeoArrowWKBWriterAppend(&w, ov.view()))) { go = false; break; } }
    else go = feed(c, &v, f);
    if (!go) break;
    ArrowArray a; a.release = nullptr; int rc = GeoArrowWKBWriterFinish(&w, &a, &e); bool cont = c.need(rc); take(c, &a, GEOARROW_TYPE_WKB); if (!cont) break;
  }
  GeoArrowWKBWriterReset(&w);
}
static void sc_wkt_writer(Ctx& c) {
  GeoArrowWKTWriter w; dirty(w); if (GeoArrowWKTWriterInit(&w)) { c.err = true; return; }
  if (c.r.one_in(4)) w.max_element_size_bytes = (int64_t)c.r.below(80);
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInitVisitor(&w, &v); GeoArrowError e; v.error = &e;
  for (int b = 0; b < 2; b++) {
    Features f = gen_features(c.r, 0, 0, opts(c.r, NUM_ANY), c.r.below(5), 0.3); Layout L; L.r = &c.r; bool go = true;
    for (auto& x : f) { int rc = play(&v, x, L); if (rc == EAGAIN) rc = v.feat_end(&v); if (!c.ok(rc)) { go = false; break; } }
    if (!go) break;
    ArrowArray a; a.release = nullptr; int rc = GeoArrowWKTWriterFinish(&w, &a, &e); bool cont = c.need(rc); take(c, &a, GEOARROW_TYPE_WKT); if (!cont) break;
  }
  GeoArrowWKTWriterReset(&w);
}
static void sc_native(Ctx& c) {
  static const std::vector<int> types = all_native(); int type = c.r.pick(types);
  GeoArrowNativeWriter w; dirty(w); if (GeoArrowNativeWriterInit(&w, (GeoArrowType)type)) { c.err = true; return; }
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; v.error = &e;
  if (c.need(GeoArrowNativeWriterInitVisitor(&w, &v))) {
    bool append = c.r.one_in(2);
    for (int b = 0; b < 3; b++) {
      Features f = gen_features(c.r, type_geom(type), type_dims(type), opts(c.r, NUM_ANY), c.r.below(5), 0.3); bool go = true;
      if (append) for (auto& x : f) { NodeStyle st; st.r = &c.r; OwnedView ov = make_view(x.g, st); if (!c.ok(x.null ? GeoArrowNativeWriterAppendNull(&w) : GeoArrowNativeWriterAppend(&w, ov.view(), &e))) { go = false; break; } }
      else go = feed(c, &v, f);
      if (!go) break;
      ArrowArray a; a.release = nullptr; int rc = GeoArrowNativeWriterFinish(&w, &a, &e); bool cont = c.need(rc); take(c, &a, type); if (!cont) break;
    }
  }
  GeoArrowNativeWriterReset(&w);
}
static void sc_array(Ctx& c) {
  int type = c.r.pick(all_types()); if (is_box(type)) type = 990;
  Features f = gen_for(c.r, type, c.r.below(6), 0.3); ReleaseLog log; ArrowArray src; build_source(c.r, type, f, &src, &log);
  uint64_t dg = digest(&src);
  GeoArrowArrayReader rd; GeoArrowArrayWriter w; dirty(rd); dirty(w); GeoArrowError e; bool hr = false, hw = false; SNode sn = ext_schema(c.r, type, nullptr); ArrowSchema s; snode_build(sn, &s, nullptr);
  int dst = c.r.one_in(2) ? (int)GEOARROW_TYPE_WKB : is_native(type) ? native_type(type_geom(type), (int)c.r.range(1, 4), c.r.one_in(2)) : (int)GEOARROW_TYPE_WKT;
  do {
    int rc = c.r.one_in(2) ? GeoArrowArrayReaderInitFromSchema(&rd, &s, &e) : GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)type);
    if (rc) { c.err = true; break; } hr = true;
    if (c.r.one_in(2)) rc = GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)dst);
    else { ArrowSchema ws; SNode wn = ext_schema(c.r, dst, nullptr); snode_build(wn, &ws, nullptr); rc = GeoArrowArrayWriterInitFromSchema(&w, &ws); ws.release(&ws); }
    if (rc) { c.err = true; break; } hw = true;
    GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.error = &e;
    if (!c.ok(GeoArrowArrayWriterInitVisitor(&w, &v))) break;
    for (int k = 0; k < 2; k++) {
      if (!c.ok(GeoArrowArrayReaderSetArray(&rd, &src, &e))) break;
      if (!c.ok(GeoArrowArrayReaderVisit(&rd, 0, src.length, &v))) break;
      ArrowArray a; a.release = nullptr; rc = GeoArrowArrayWriterFinish(&w, &a, &e); bool cont = c.need(rc); take(c, &a, dst); if (!cont) break;
    }
  } while (0);
  if (hr) GeoArrowArrayReaderReset(&rd);
  if (hw) GeoArrowArrayWriterReset(&w);
  if (digest(&src) != dg) note_fail("input-changed", "type %d", type);
  src.release(&src); s.release(&s);
}
static void owned_free(uint8_t* p, int64_t, void* priv) { ++*(int*)priv; raw_free(p); }
static void sc_builder(Ctx& c) {
  static const std::vector<int> types = all_native(); int type = c.r.one_in(5) ? c.r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKT}) : c.r.pick(types);
  Features f = gen_for(c.r, type, c.r.range(1, 5), 0); ArrayStyle st; ArrowArray src;  // plain layout: buffers as they would be built
  ReleaseLog log;
  if (is_native(type)) build_native(type, f, &src, &log, st);
  else { OptStrings v; for (auto& x : f) v.push_back({true, is_wkt(type) ? wkt_of(c.r, x.g) : wkb_of(c.r, x.g)}); build_serialized(type, v, &src, &log, st); }
  GeoArrowBuilder b; dirty(b); GeoArrowError e; int freed = 0, given = 0;
  ArrowSchema s; SNode sn = ext_schema(c.r, type, nullptr); snode_build(sn, &s, nullptr);
  int rc = c.r.one_in(2) ? GeoArrowBuilderInitFromType(&b, (GeoArrowType)type) : GeoArrowBuilderInitFromSchema(&b, &s, &e);
  bool finished_ok = false;
  if (rc) c.err = true;
  else {
    // flatten the source buffers in builder order
    std::vector<std::pair<const void*, int64_t>> bufs;
    std::function<void(const ArrowArray*, int, bool)> walk = [&](const ArrowArray* a, int64_t len, bool root) {
      (void)len;
      NodePriv* p = (NodePriv*)a->private_data;
      for (int64_t i = 0; i < a->n_buffers; i++) {
        if (i == 0 && !root) continue;
        int64_t sz = 0; for (auto& q : p->sizes) if (q.first == a->buffers[i]) sz = (int64_t)q.second;
        bufs.push_back({a->buffers[i], a->buffers[i] ? sz : 0});
      }
      for (int64_t i = 0; i < a->n_children; i++) walk(a->children[i], 0, false);
    };
    walk(&src, 0, true);
    for (int k = 0; k < 2; k++) {
      bool owned = c.r.one_in(2); bool go = true;
      for (size_t i = 1; i < bufs.size() && go; i++) {
        if (owned) {
          uint8_t* p = (uint8_t*)raw_malloc((size_t)bufs[i].second); if (bufs[i].second) memcpy(p, bufs[i].first, (size_t)bufs[i].second);
          GeoArrowBufferView bv{}; bv.data = p; bv.size_bytes = bufs[i].second;
          rc = GeoArrowBuilderSetOwnedBuffer(&b, (int64_t)i, bv, owned_free, &freed);
          if (rc) raw_free(p); else given++;
          go = c.ok(rc);
        } else {
          int64_t at = 0;
          while (at < bufs[i].second && go) {
            int64_t n = c.r.range(1, bufs[i].second - at);
            GeoArrowBufferView bv{}; bv.data = (const uint8_t*)bufs[i].first + at; bv.size_bytes = n;
            go = c.ok(GeoArrowBuilderAppendBuffer(&b, (int64_t)i, bv)); at += n;
          }
        }
      }
      if (!go) break;
      ArrowArray a; a.release = nullptr; rc = GeoArrowBuilderFinish(&b, &a, &e); bool cont = c.need(rc); take(c, &a, type); if (!cont) break;
      finished_ok = true;
    }
    GeoArrowBuilderReset(&b);
  }
  (void)finished_ok;
  if (freed != given) note_fail("owned-buffer", "%d of %d buffers taken over were freed", freed, given);
  src.release(&src); s.release(&s);
}
static void sc_schema(Ctx& c) {
  int type = c.r.pick(all_types()); ArrowSchema s; s.release = nullptr;
  bool plain = c.r.one_in(3);
  int rc = plain ? GeoArrowSchemaInit(&s, (GeoArrowType)type) : GeoArrowSchemaInitExtension(&s, (GeoArrowType)type);
  if (rc) { c.err = true; if (s.release) s.release(&s); return; }
  GeoArrowMetadataView mv; memset(&mv, 0, sizeof mv); std::string crs = gen_text(c.r, 30);
  mv.edge_type = (GeoArrowEdgeType)c.r.below(6); mv.crs_type = (GeoArrowCrsType)c.r.below(6); mv.crs.data = crs.data(); mv.crs.size_bytes = (int64_t)crs.size();
  int k = (int)c.r.below(3);
  if (k == 0) c.ok(GeoArrowSchemaSetMetadata(&s, &mv));
  else if (k == 1) {
    std::string meta = "{\"edges\":\"spherical\"}"; ArrowSchema q; SNode sn = ext_schema(c.r, c.r.pick(all_types()), c.r.one_in(2) ? &meta : nullptr); snode_build(sn, &q, nullptr);
    c.ok(GeoArrowSchemaSetMetadataFrom(&s, &q)); q.release(&q);
  }
  const char* en = GeoArrowExtensionNameFromType((GeoArrowType)type); std::string ename = en ? en : "";
  GeoArrowSchemaView sv; dirty(sv); GeoArrowError e; rc = plain ? GeoArrowSchemaViewInitFromStorage(&sv, &s, GeoArrowStringView{ename.data(), (int64_t)ename.size()}, &e) : GeoArrowSchemaViewInit(&sv, &s, &e);
  if (c.ok(rc) && !rc && !c.err) c.mix((uint64_t)sv.type);
  take_schema(c, &s);
}
static void sc_kernel(Ctx& c) {
  static const char* NAMES[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"};
  int k = (int)c.r.below(8); bool agg = k == 1 || k == 2 || k == 5 || k == 7;
  int type = c.r.pick(all_types()); if (is_box(type)) type = 990;
  int dst = is_native(type) && c.r.one_in(2) ? native_type(type_geom(type), (int)c.r.range(1, 4), c.r.one_in(2)) : (int)c.r.pick({(int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_WKB});
  static const int res[] = {-1, -1, -1, (int)GEOARROW_TYPE_WKT, 0, -2, 990, 990};
  int rt = k == 4 ? dst : res[k];
  GeoArrowKernel kn; dirty(kn); GeoArrowError e; kn.release = nullptr;
  if (GeoArrowKernelInit(&kn, NAMES[k], nullptr)) { c.err = true; return; }
  std::string meta = "{\"crs\":\"OGC:CRS84\"}"; ArrowSchema s, out; SNode sn = ext_schema(c.r, type, c.r.one_in(2) ? &meta : nullptr); snode_build(sn, &s, nullptr);
  KV kv; kv.push_back({"type", std::to_string(dst)}); if (c.r.one_in(2)) kv.push_back({"precision", "5"}); std::string opt = enc_kv(kv);
  out.release = nullptr;
  int rc = kn.start(&kn, &s, opt.data(), &out, &e);
  bool go = c.ok(rc) && rc == 0; take_schema(c, &out);
  if (go) {
    int nb = (int)c.r.below(3); std::vector<ArrowArray> kept;
    for (int b = 0; b < nb && go; b++) {
      Features f = gen_for(c.r, type, c.r.below(5), 0.3); ArrowArray a, o; build_source(c.r, type, f, &a, nullptr); o.release = nullptr;
      rc = kn.push_batch(&kn, &a, agg ? nullptr : &o, &e); a.release(&a);
      go = c.need(rc);
      if (!agg && o.release) { if (c.r.one_in(2)) take(c, &o, rt); else kept.push_back(o); }
    }
    if (go) { ArrowArray o; o.release = nullptr; rc = kn.finish(&kn, agg ? &o : nullptr, &e); c.ok(rc); if (agg) take(c, &o, rt); }
    for (auto& o : kept) take(c, &o, rt);
  }
  kn.release(&kn); s.release(&s);
}
static void sc_udf(Ctx& c) {
  GeoArrowScalarUdfFactory f; dirty(f); GeoArrowError e; if (GeoArrowScalarUdfFactoryInit(&f, "void", nullptr, &e)) { c.err = true; return; }
  GeoArrowScalarUdf u; dirty(u); f.new_scalar_udf_impl(&f, &u);
  ArrowSchema out; out.release = nullptr; bool go = c.ok(u.init(&u, nullptr, nullptr, 0, &out)); take_schema(c, &out);
  if (go) { ArrowArray o; o.release = nullptr; c.ok(u.execute(&u, nullptr, 0, (int64_t)c.r.below(9), &o)); take(c, &o, -1); }
  u.release(&u); f.release(&f);
}

static void (*const SC[])(Ctx&) = {sc_wkb, sc_wkt, sc_nodes, sc_wkb_writer, sc_wkt_writer, sc_native, sc_array, sc_builder, sc_schema, sc_kernel, sc_udf};
static const char* SN[] = {"wkb", "wkt", "nodes", "wkb_writer", "wkt_writer", "native_writer", "array", "builder", "schema", "kernel", "udf"};
#endif
