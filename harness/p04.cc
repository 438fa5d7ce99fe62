// P04: every visitor consumer survives events in any order.
#include "arrow_ref.h"
using namespace hz;
const char* hz_name = "p04";

// one event of a history
struct Ev { int kind; int type, dims; int64_t n; int nv; int stride; };

static int gtype(Rng& r) { return r.chance(0.9) ? (int)r.range(1, 7) : (int)r.pick({0, 8, 255, 990, -1, 1 << 20}); }
static int gdims(Rng& r) { return r.chance(0.9) ? (int)r.range(1, 4) : (int)r.pick({0, 5, 31, -1, 1 << 20}); }
static int64_t ncoords(Rng& r) { return r.chance(0.5) ? (int64_t)r.below(3) : r.one_in(15) ? (int64_t)r.below(600) : (int64_t)r.below(12); }
static Ev ev(Rng& r, int kind) { Ev e; e.kind = kind; e.type = gtype(r); e.dims = gdims(r); e.n = ncoords(r); e.nv = (int)r.range(2, 4); e.stride = (int)r.pick({0, 1, -1, 2}); return e; }

static void events_of(const Geom& g, std::vector<Ev>& o, Rng& r) {
  Ev e = ev(r, 2); e.type = g.type; e.dims = g.dims; o.push_back(e);
  auto co = [&](size_t n) { Ev c = ev(r, 4); c.n = (int64_t)n; c.nv = ndim(g.dims); o.push_back(c); };
  if (is_seq(g.type)) co(g.ncoords());
  else if (g.type == T_POLYGON) for (auto& k : g.kids) { o.push_back(ev(r, 3)); co(k.ncoords()); o.push_back(ev(r, 5)); }
  else for (auto& k : g.kids) events_of(k, o, r);
  o.push_back(ev(r, 6));
}

static std::vector<Ev> history(Rng& r) {
  std::vector<Ev> o;
  int mode = (int)r.below(5);
  if (mode == 0) {  // anything at all
    for (size_t n = r.below(r.one_in(5) ? 200 : 25); n > 0; n--) o.push_back(ev(r, (int)r.range(1, 8)));
  } else if (mode == 1) {  // starts and ends in long runs
    if (r.chance(0.8)) o.push_back(ev(r, 1));
    for (int runs = (int)r.range(1, 8); runs > 0; runs--) {
      int k = (int)r.pick({2, 2, 2, 3, 5, 6, 6, 4});
      size_t n = r.below(40);
      Ev e = ev(r, k); bool same = r.one_in(2);
      for (size_t i = 0; i < n; i++) { Ev x = ev(r, k); if (same) { x.type = e.type; x.dims = e.dims; } o.push_back(x); }
    }
    if (r.chance(0.8)) o.push_back(ev(r, 7));
  } else {  // well-formed features with a few edits
    for (size_t n = r.range(1, 8); n > 0; n--) {
      o.push_back(ev(r, 1));
      if (r.one_in(5)) o.push_back(ev(r, 8));
      else { GenOpts g; g.big = r.one_in(4); g.budget = 60; events_of(gen_any(r, g), o, r); }
      o.push_back(ev(r, 7));
    }
    int edits = mode == 2 ? 0 : (int)r.range(1, 6);
    while (edits-- > 0 && !o.empty()) {
      size_t i = r.below(o.size());
      switch (r.below(5)) {
        case 0: o.erase(o.begin() + i); break;
        case 1: o.insert(o.begin() + i, ev(r, (int)r.range(1, 8))); break;
        case 2: o[i] = ev(r, (int)r.range(1, 8)); break;
        case 3: { Ev d = o[i]; for (size_t k = r.below(40); k > 0; k--) o.insert(o.begin() + i, d); break; }
        default: std::swap(o[i], o[r.below(o.size())]);
      }
    }
  }
  return o;
}

static std::string show_ev(const std::vector<Ev>& h) {
  static const char* n[] = {"", "FS", "GS", "RS", "C", "RE", "GE", "FE", "NULL"};
  std::string s;
  for (auto& e : h) { s += n[e.kind]; if (e.kind == 2) s += fmt("(%d,%d)", e.type, e.dims); if (e.kind == 4) s += fmt("(%lldx%d)", (long long)e.n, e.nv); s += " "; if (s.size() > 1500) break; }
  return s;
}

static int fire(GeoArrowVisitor* v, const Ev& e) {
  switch (e.kind) {
    case 1: return v->feat_start(v);
    case 2: return v->geom_start(v, (GeoArrowGeometryType)e.type, (GeoArrowDimensions)e.dims);
    case 3: return v->ring_start(v);
    case 5: return v->ring_end(v);
    case 6: return v->geom_end(v);
    case 7: return v->feat_end(v);
    case 8: return v->null_feat(v);
  }
  // values beyond n_values are not part of the view
  GeoArrowCoordView c; memset(&c, 0xCB, sizeof c);
  c.n_coords = e.n; c.n_values = e.nv;
  double* b = nullptr; size_t len = 0;
  if (e.stride == 0) { c.coords_stride = 0; len = e.n ? e.nv : 0; }
  else if (e.stride == 1) { c.coords_stride = e.nv; len = e.n * e.nv; }
  else if (e.stride == 2) { c.coords_stride = e.nv + 2; len = e.n ? (e.n - 1) * (e.nv + 2) + e.nv : 0; }
  else { c.coords_stride = 1; len = e.n * e.nv; }
  b = (double*)raw_malloc(len * 8);
  for (size_t i = 0; i < len; i++) b[i] = (double)i * 0.5 - 3;
  for (int j = 0; j < e.nv; j++) c.values[j] = e.n == 0 ? b : e.stride == -1 ? b + j * e.n : b + j;
  int rc = v->coords(v, &c);
  raw_free(b);
  return rc;
}

static volatile uint64_t g_sink;
static void touch(const void* p, size_t n) { uint64_t s = 0; for (size_t i = 0; i < n; i++) s += ((const volatile uint8_t*)p)[i]; g_sink += s; }
// reads everything the lengths of a finished array entitle a consumer to read
static void read_all(const ArrowArray* a, int depth, int nd, bool inter) {
  REQUIRE(a->release && a->length >= 0, "array", "released or negative length");
  if (a->buffers[0]) touch(a->buffers[0], (a->length + 7) / 8);
  if (depth > 0) {
    if (a->length == 0) return;
    const int32_t* o = (const int32_t*)a->buffers[1];
    touch(o, (a->length + 1) * 4);
    for (int64_t i = 0; i <= a->length; i++) REQUIRE(o[i] >= 0 && o[i] <= a->children[0]->length, "offset-range", "offset %d of a child of length %lld", o[i], (long long)a->children[0]->length);
    read_all(a->children[0], depth - 1, nd, inter);
  } else if (inter) {
    REQUIRE(a->children[0]->length >= a->length * nd, "child-length", "%lld values for %lld coordinates", (long long)a->children[0]->length, (long long)a->length);
    touch(a->children[0]->buffers[1], a->length * nd * 8);
  } else for (int j = 0; j < nd; j++) {
    REQUIRE(a->children[j]->length >= a->length, "child-length", "%lld values for %lld coordinates", (long long)a->children[j]->length, (long long)a->length);
    touch(a->children[j]->buffers[1], a->length * 8);
  }
}
static void check_out(ArrowArray* a, int type) {
  count("finished");
  if (is_native(type)) read_all(a, list_depth(type_geom(type)), ndim(type_dims(type)), type_inter(type));
  else {
    if (a->buffers[0]) touch(a->buffers[0], (a->length + 7) / 8);
    if (a->length) { const int32_t* o = (const int32_t*)a->buffers[1]; touch(o, (a->length + 1) * 4); for (int64_t i = 0; i < a->length; i++) REQUIRE(o[i] <= o[i + 1] && o[i] >= 0, "offset-range", "offsets %d %d", o[i], o[i + 1]); touch(a->buffers[2], o[a->length]); }
  }
  // and the library reads it back without leaving its buffers
  GeoArrowArrayReader rd; Monitor m; m.check = false;
  if (GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)type) == 0) {
    if (GeoArrowArrayReaderSetArray(&rd, a, &m.err) == 0) {
      if (is_native(type)) { GeoArrowArrayReaderVisit(&rd, 0, a->length, &m.v); count("reread"); }
      else for (int64_t i = 0; i < a->length; i++) { m.clear(); GeoArrowArrayReaderVisit(&rd, i, 1, &m.v); count("reread"); }
    }
    GeoArrowArrayReaderReset(&rd);
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static const std::vector<int> nat = all_native();
  int who = (int)r.below(7);  // 0 wkt 1 wkb 2,3 native 4 array writer 5 geometry 6 void
  int type = who == 0 ? GEOARROW_TYPE_WKT : who == 1 ? GEOARROW_TYPE_WKB : r.pick(nat);
  if (who == 4 && r.chance(0.4)) type = r.pick({(int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_WKB});
  GeoArrowVisitor v; GeoArrowError err; err.message[0] = 0; memset(&v, 0, sizeof v);
  v.error = r.chance(0.8) ? &err : nullptr;
  GeoArrowError* ep = v.error;
  GeoArrowWKTWriter wt; GeoArrowWKBWriter wb; GeoArrowNativeWriter wn; GeoArrowArrayWriter wa; GeoArrowGeometry g;
  if (who == 0) {
    REQUIRE(GeoArrowWKTWriterInit(&wt) == 0, "init", "wkt");
    wt.precision = (int)r.range(-2, 20); wt.use_flat_multipoint = (int)r.below(2); if (r.one_in(3)) wt.max_element_size_bytes = (int64_t)r.below(60);
  } else if (who == 1) REQUIRE(GeoArrowWKBWriterInit(&wb) == 0, "init", "wkb");
  else if (who <= 3) REQUIRE(GeoArrowNativeWriterInit(&wn, (GeoArrowType)type) == 0, "init", "native");
  else if (who == 4) REQUIRE(GeoArrowArrayWriterInitFromType(&wa, (GeoArrowType)type) == 0, "init", "array writer");
  else if (who == 5) REQUIRE(GeoArrowGeometryInit(&g) == 0, "init", "geometry");
  int rounds = (int)r.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (k == 0 || r.one_in(2)) {
      if (who == 0) GeoArrowWKTWriterInitVisitor(&wt, &v);
      else if (who == 1) GeoArrowWKBWriterInitVisitor(&wb, &v);
      else if (who <= 3) REQUIRE(GeoArrowNativeWriterInitVisitor(&wn, &v) == 0, "init", "visitor");
      else if (who == 4) REQUIRE(GeoArrowArrayWriterInitVisitor(&wa, &v) == 0, "init", "visitor");
      else if (who == 5) GeoArrowGeometryInitVisitor(&g, &v);
      else GeoArrowVisitorInitVoid(&v);
      v.error = ep;
    }
    std::vector<Ev> h = history(r);
    uint64_t hs = who; for (auto& e : h) hs = mix64(hs ^ (uint64_t)(e.kind * 131 + (e.kind == 2 ? e.type * 7 + e.dims : e.kind == 4 ? e.n * 3 + e.nv : 0)));
    distinct(hs);
    crumb("consumer %d type %d round %d: %s", who, type, k, show_ev(h).c_str());
    if (want_sample()) sample(fmt("consumer %d type %d: ", who, type) + show_ev(h));
    bool stop = r.one_in(2), any_error = false;
    for (auto& e : h) {
      int rc = fire(&v, e); count("events");
      if (rc) { count("errors"); any_error = true; if (stop) { if (r.one_in(2)) v.feat_end(&v); break; } }
      // the other interfaces of the same object in between
      if (r.one_in(30) && (who == 1 || who == 2 || who == 3)) {
        GenOpts go; go.budget = 30; Geom x = gen_any(r, go); NodeStyle st; st.r = &r; OwnedView ov = make_view(x, st);
        if (who == 1) { if (r.one_in(3)) GeoArrowWKBWriterAppendNull(&wb); else GeoArrowWKBWriterAppend(&wb, ov.view()); }
        else { if (r.one_in(3)) GeoArrowNativeWriterAppendNull(&wn); else GeoArrowNativeWriterAppend(&wn, ov.view(), ep); }
        count("appends");
      }
    }
    count(any_error ? "histories_with_error" : "histories_clean");
    if (who == 5) {
      // whatever was collected can be walked, copied and visited
      Monitor m; m.check = false;
      GeoArrowGeometryView gv = GeoArrowGeometryAsView(&g);
      if (gv.size_nodes > 0) {
        GeoArrowGeometryVisit(&g, &m.v); m.clear(); GeoArrowGeometryViewVisit(gv, &m.v);
        GeoArrowGeometry cp; if (GeoArrowGeometryInit(&cp) == 0) { if (GeoArrowGeometryDeepCopy(gv, &cp) == 0) { m.clear(); GeoArrowGeometryVisit(&cp, &m.v); } GeoArrowGeometryReset(&cp); }
        count("collected");
      }
      if (k + 1 == rounds && r.one_in(4)) {  // by hand
        GeoArrowGeometryNode* nd = nullptr;
        GeoArrowGeometryResizeNodes(&g, (int64_t)r.below(5));
        for (size_t q = r.below(70); q > 0; q--) GeoArrowGeometryAppendNode(&g, &nd);
      }
      continue;
    }
    if (who == 6 || (k + 1 == rounds && r.one_in(3))) continue;  // reset without finishing
    ArrowArray a; a.release = nullptr; int rc;
    if (who == 0) rc = GeoArrowWKTWriterFinish(&wt, &a, ep);
    else if (who == 1) rc = GeoArrowWKBWriterFinish(&wb, &a, ep);
    else if (who <= 3) rc = GeoArrowNativeWriterFinish(&wn, &a, ep);
    else rc = GeoArrowArrayWriterFinish(&wa, &a, ep);
    if (rc == 0) { check_out(&a, type); a.release(&a); }
    else { count("finish_refused"); if (a.release) a.release(&a); break; }
  }
  if (who == 0) GeoArrowWKTWriterReset(&wt);
  else if (who == 1) GeoArrowWKBWriterReset(&wb);
  else if (who <= 3) GeoArrowNativeWriterReset(&wn);
  else if (who == 4) GeoArrowArrayWriterReset(&wa);
  else if (who == 5) GeoArrowGeometryReset(&g);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
