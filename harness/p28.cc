// P28: C++ type descriptors and reader/writer/builder wrappers mirror the C library.
#include <memory>
#include "exttype.h"
#include "bufs.h"
using namespace hz;
const char* hz_name = "p28";

static const char* LONLAT_START = "{";
static void descriptors(Rng& r) {
  if (r.one_in(8)) {  // impossible ones
    Model w; GeometryDataType keep = make(r, w);
    switch (r.below(6)) {
      case 0: REQUIRE(throws([&] { GeometryDataType::Make(GEOARROW_TYPE_UNINITIALIZED); }), "accepted", "the uninitialised type"); break;
      case 1: { int t = r.pick({7, 8, 11, 999, 100000, 100009, 991}); REQUIRE(throws([&] { GeometryDataType::Make((GeoArrowType)t); }), "accepted", "type %d", t); break; }
      case 2: { int g = r.one_in(8) ? (int)GEOARROW_GEOMETRY_TYPE_BOX : (int)r.range(0, 7), dd = (int)r.below(5), c = (int)r.below(3); int id = make_id(g, dd, c); bool th = throws([&] { GeometryDataType d = GeometryDataType::Make((GeoArrowGeometryType)g, (GeoArrowDimensions)dd, (GeoArrowCoordType)c); REQUIRE((int)d.id() == id, "id", "%d from %d/%d/%d", (int)d.id(), g, dd, c); }); REQUIRE(th == (id == 0), "combination", "%d/%d/%d", g, dd, c); break; }
      case 3: { std::string bad = r.pick({"{", "{\"crs\"", "[]", "{\"edges\": \"round\"}", "{\"crs_type\": \"other\"}", "x", "{\"edges\": {}}"}); GeoArrowMetadataView mv; bool refuse = GeoArrowMetadataViewInit(&mv, GeoArrowStringView{bad.data(), (int64_t)bad.size()}, nullptr) != 0; REQUIRE(throws([&] { GeometryDataType::Make((GeoArrowType)w.type, bad); }) == refuse, "accepted", "metadata %s", bad.c_str()); break; }
      case 4: { int other = r.pick(all_types()); ArrowSchema s; snode_build(ref_schema(other), &s, nullptr); std::string ext = ref_ext(w.type); int want = ref_parse(ref_schema(other), ext); bool th = throws([&] { GeometryDataType d = GeometryDataType::Make(&s, ext, ""); REQUIRE((int)d.id() == want, "id", "%d instead of %d", (int)d.id(), want); }); s.release(&s); REQUIRE(th == (want < 0), "storage", "storage of %d as %s", other, ext.c_str()); break; }
      default: { ArrowSchema s; snode_build(ref_schema(w.type), &s, nullptr); bool th = throws([&] { GeometryDataType::Make(const_cast<const ArrowSchema*>(&s)); }); s.release(&s); REQUIRE(th, "accepted", "a schema without extension name"); }
    }
    is(keep, w, "after a refused one"); count("refused"); return;
  }
  Model w; std::unique_ptr<GeometryDataType> d(new GeometryDataType(make(r, w))); is(*d, w, "made"); if (want_sample()) sample(fmt("type %d: %s", w.type, d->ToString().c_str()));
  for (int k = (int)r.range(1, 8); k > 0; k--) {
    Model u = w; bool changed = true;
    std::unique_ptr<GeometryDataType> n;
    switch (r.below(14)) {
      case 0: case 1: case 2: case 3: {
        int what = (int)r.below(3), g = geom_of(w.type), dd = dims_of(w.type), c = coord_of(w.type), v;
        if (what == 0) v = g = (int)r.range(0, 7); else if (what == 1) v = dd = (int)r.below(5); else v = c = (int)r.below(3);
        u.type = make_id(g, dd, c); crumb("type %d component %d := %d", w.type, what, v);
        bool th = throws([&] { n.reset(new GeometryDataType(what == 0 ? d->WithGeometryType((GeoArrowGeometryType)v) : what == 1 ? d->WithDimensions((GeoArrowDimensions)v) : d->WithCoordType((GeoArrowCoordType)v))); });
        REQUIRE(th == (u.type == 0), "component", "type %d component %d := %d: %s", w.type, what, v, th ? "refused" : "accepted"); changed = !th; break; }
      case 4: case 5: {
        int v = (int)r.range(1, 4); u.type = make_id(geom_of(w.type), v, coord_of(w.type));
        bool th = throws([&] { n.reset(new GeometryDataType(v == 1 ? d->XY() : v == 2 ? d->XYZ() : v == 3 ? d->XYM() : d->XYZM())); });
        REQUIRE(th == (u.type == 0), "component", "type %d dimensions %d: %s", w.type, v, th ? "refused" : "accepted"); changed = !th; break; }
      case 6: case 7: {
        bool multi = r.one_in(2); int g = geom_of(w.type); bool ok = g >= 1 && g <= 6; if (ok) u.type = make_id(multi ? (g <= 3 ? g + 3 : g) : (g > 3 ? g - 3 : g), dims_of(w.type), coord_of(w.type));
        bool th = throws([&] { n.reset(new GeometryDataType(multi ? d->Multi() : d->Simple())); });
        REQUIRE(th == !ok, "component", "type %d %s: %s", w.type, multi ? "Multi()" : "Simple()", th ? "refused" : "accepted"); changed = !th; break; }
      case 8: u.m.edge = (int)r.below(6); n.reset(new GeometryDataType(d->WithEdgeType((GeoArrowEdgeType)u.m.edge))); break;
      case 9: case 10: {
        Meta m = gen_meta(r); if (!m.crs_type) m.crs_type = 1; u.m.crs_type = m.crs_type; u.m.kind = m.kind; u.m.crs = m.crs; u.m.plain = m.plain;
        std::unique_ptr<std::string> tmp(new std::string(m.crs)); n.reset(new GeometryDataType(m.crs_type == 1 && r.one_in(2) ? d->WithCrs(*tmp) : d->WithCrs(*tmp, (GeoArrowCrsType)m.crs_type))); break; }
      case 11: { n.reset(new GeometryDataType(d->WithCrsLonLat())); std::string c = n->crs(); Json j;
        REQUIRE(n->crs_type() == GEOARROW_CRS_TYPE_PROJJSON && c.compare(0, 1, LONLAT_START) == 0 && json_parse(c, j) && j.kind == Json::OBJ, "lonlat", "%s", quote(c).c_str());
        GeoArrowMetadataView v; memset(&v, 0, sizeof v); GeoArrowMetadataSetLonLat(&v); REQUIRE(c == std::string(v.crs.data, (size_t)v.crs.size_bytes), "lonlat", "%s", quote(c).c_str());
        u.m.crs_type = 2; u.m.kind = 2; u.m.crs = c; break; }
      case 12: {  // copies and moves, the source gone
        switch (r.below(5)) {
          case 0: n.reset(new GeometryDataType(*d)); is(*n, w, "copy"); break;
          case 1: n.reset(new GeometryDataType(std::move(*d))); *d = *n; break;
          case 2: { Model x; n.reset(new GeometryDataType(make(r, x))); is(*n, x, "other"); *n = *d; break; }
          case 3: { Model x; n.reset(new GeometryDataType(make(r, x))); *n = std::move(*d); d->ToString(); *d = *n; break; }
          default: { n.reset(new GeometryDataType()); REQUIRE(n->id() == GEOARROW_TYPE_UNINITIALIZED && !n->ToString().empty(), "fresh", "%d", (int)n->id()); n->MoveFrom(d.get()); REQUIRE(d->id() == GEOARROW_TYPE_UNINITIALIZED, "moved", "the source of a move still has type %d", (int)d->id()); is(*n, w, "moved to"); *d = *n; break; }
        } break; }
      default: schemas(*d, w); changed = false;
    }
    is(*d, w, "after deriving another");
    if (changed) { if (r.one_in(3)) *d = *n; else { d = std::move(n); } w = u; is(*d, w, "derived"); count("derived"); distinct(mix64((uint64_t)w.type * 36 + (uint64_t)w.m.edge * 6 + (uint64_t)w.m.crs_type)); }
  }
}

// ---- wrappers ---------------------------------------------------------------
template <class W> static std::unique_ptr<W> wrap(Rng& r, int type) {
  switch (r.below(3)) {
    case 0: return std::unique_ptr<W>(new W((GeoArrowType)type));
    case 1: return std::unique_ptr<W>(new W(GeometryDataType::Make((GeoArrowType)type)));
    default: { std::string js = "{}"; SNode sn = ext_schema(r, type, r.one_in(2) ? &js : nullptr); ArrowSchema s; snode_build(sn, &s, nullptr); std::unique_ptr<W> w; try { w.reset(new W(const_cast<const ArrowSchema*>(&s))); } catch (...) { s.release(&s); throw; } s.release(&s); return w; }
  }
}
static bool array_viewable(int t) { return is_native(t) || is_box(t) || t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_WKT; }

static void readers(Rng& r) {
  std::vector<std::unique_ptr<ReleaseLog>> logs;
  int type = r.pick(all_types()); auto rd = wrap<geoarrow::ArrayReader>(r, type); crumb("reader %d", type);
  std::vector<ArrowArray> mine; Features cur; bool set = false; int owned_by_reader = 0;
  for (int k = (int)r.range(2, 10); k > 0; k--) {
    switch (r.below(5)) {
      case 0: case 1: case 2: {
        int t2 = type; bool misfit = false;
        if (r.one_in(8) && is_native(type)) { misfit = true; t2 = GEOARROW_TYPE_WKB; }  // has no children
        Features f = gen_for(r, t2, r.below(8), gen_pnull(r)); ArrowArray a;
        logs.emplace_back(new ReleaseLog()); build_source(r, t2, f, &a, logs.back().get());
        bool owning = r.one_in(2);
        if (owning) {
          ArrowArray give = a;
          bool th = throws([&] { rd->SetArray(&give); }); REQUIRE(give.release == nullptr, "ownership", "SetArray() left the source alive");
          REQUIRE(th == misfit, "set", "type %d: %s", t2, th ? "refused" : "accepted"); owned_by_reader++; count("owned");
        } else {
          bool th = throws([&] { rd->SetArrayNonOwning(&a); }); REQUIRE(th == misfit && a.release, "set", "type %d: %s", t2, th ? "refused" : "accepted"); mine.push_back(a); count("borrowed");
          }
        if (misfit) { set = false; k = 1; count("misfits"); } else { set = true; cur = f; }
        break; }
      case 3: {
        bool th = throws([&] { auto& v = rd->View(); REQUIRE(v.is_valid() && v.array_view() && (int)v.array_view()->schema_view.type == type, "view", "type %d", type); if (set) REQUIRE(v.array_view()->length[0] == (int64_t)cur.size(), "view", "length %lld of %zu", (long long)v.array_view()->length[0], cur.size()); });
        if (array_viewable(type)) { REQUIRE(!th, "view", "type %d has no view", type); count("views"); }
        break; }
      default: {
        if (!set || (is_box(type) && type != 990)) break;
        int64_t n = (int64_t)cur.size(), o = r.one_in(2) ? 0 : (int64_t)r.below((uint64_t)n + 1), l = o == 0 && r.one_in(2) ? n : (int64_t)r.below((uint64_t)(n - o) + 1);
        Monitor m; int rc = rd->Visit(&m.v, o, l, r.one_in(2) ? &m.err : nullptr); check_noted();
        Features want(cur.begin() + o, cur.begin() + o + l); if (!is_wkt(type)) { norm_empty_points(want); norm_empty_points(m.feats); } if (is_wkt(type)) { for (auto& x : m.feats) canon_nan(x.g); for (auto& x : want) canon_nan(x.g); }
        if (is_native(type)) { m.feats = prune(m.feats); want = prune(want); }
        std::string why; REQUIRE(rc == 0 && (is_box(type) ? m.feats.size() == want.size() : equal(m.feats, want, &why)), "features", "type %d: rc %d %s", type, rc, why.c_str()); count("visits"); break; }
    }
    // only what the reader was given and has replaced may be gone
    int64_t gone = 0; for (auto& l : logs) gone += l->released > 0; REQUIRE(gone <= owned_by_reader, "released", "a borrowed array was released");
  }
  rd.reset();
  for (auto& a : mine) REQUIRE(a.release, "released", "a borrowed array was released");
  for (auto& a : mine) a.release(&a);
  for (auto& l : logs) REQUIRE(l->live == 0, "released", "%lld arrays not released", (long long)l->live);
  count("readers");
}

static void writers(Rng& r) {
  int type; do type = r.pick(all_types()); while (is_box(type));
  std::unique_ptr<geoarrow::ArrayWriter> w; GeoArrowArrayWriter c;
  bool ok = GeoArrowArrayWriterInitFromType(&c, (GeoArrowType)type) == 0;
  bool th = throws([&] { w = wrap<geoarrow::ArrayWriter>(r, type); }); REQUIRE(th == !ok, "init", "type %d: %s", type, th ? "refused" : "accepted");
  if (!ok) return;
  for (int k = (int)r.below(3); k > 0; k--) {
    if (r.one_in(2)) { int p = (int)r.below(17); int rc = GeoArrowArrayWriterSetPrecision(&c, p); bool t = throws([&] { w->SetPrecision(p); }); REQUIRE(t == (rc != 0), "option", "precision %d on type %d", p, type); }
    else { bool fl = r.one_in(2); int rc = GeoArrowArrayWriterSetFlatMultipoint(&c, fl); bool t = throws([&] { w->SetFlatMultipoint(fl); }); REQUIRE(t == (rc != 0), "option", "flat multipoint %d on type %d", fl, type); }
    count("options");
  }
  GeoArrowVisitor cv; memset(&cv, 0, sizeof cv); GeoArrowError e; REQUIRE(GeoArrowArrayWriterInitVisitor(&c, &cv) == 0, "init", "C visitor"); cv.error = &e;
  GeoArrowVisitor* v = w->visitor(); REQUIRE(v && v == w->visitor(), "visitor", "visitor() changes"); GeoArrowError e2; v->error = &e2;
  for (int k = (int)r.range(1, 3); k > 0; k--) {
    Features f = gen_for(r, type, r.below(8), gen_pnull(r)); if (is_wkt(type) || is_wkb(type)) { if (r.one_in(3)) { GenOpts o; o.num = NUM_FINITE; f = gen_features(r, T_MULTIPOINT, 0, o, 1 + r.below(4), 0.1); } }
    Layout l; crumb("writer %d: %s", type, show(f).c_str());
    int rc = play(&cv, f, l), rc2 = play(w->visitor(), f, l); REQUIRE(rc == 0 && rc2 == 0, "visit", "type %d: rc %d and %d", type, rc, rc2);
    ArrowArray a, b; a.release = b.release = nullptr; REQUIRE(GeoArrowArrayWriterFinish(&c, &a, nullptr) == 0, "finish", "C"); bool t = throws([&] { w->Finish(&b); }); REQUIRE(!t && b.release, "finish", "type %d", type);
    Decoder d, d2; std::string why;
    if (is_native(type)) { Features x, y, want = f; norm_empty_points(want); REQUIRE(d.native(&a, type, x) && d2.native(&b, type, y), "array", "%s %s", d.why.c_str(), d2.why.c_str()); REQUIRE(equal(x, y, &why) && equal(prune(y), prune(want), &why), "features", "type %d: %s", type, why.c_str()); }
    else { OptStrings x, y; REQUIRE(d.serialized(&a, type, x) && d2.serialized(&b, type, y), "array", "%s %s", d.why.c_str(), d2.why.c_str()); REQUIRE(x == y && y.size() == f.size(), "features", "type %d", type); }
    a.release(&a); b.release(&b); count("written", f.size()); distinct(mix64((uint64_t)type) ^ hash_of(f));
  }
  GeoArrowArrayWriterReset(&c); count("writers");
}

// an object whose lifetime is counted, holding the bytes of a buffer
static int g_live_objects = 0;
struct Counted {
  using value_type = uint8_t; uint8_t* p; size_t n;
  explicit Counted(const std::string& s) : p((uint8_t*)raw_malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.data(), n); g_live_objects++; }
  Counted(Counted&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; g_live_objects++; }
  Counted(const Counted&) = delete;
  ~Counted() { g_live_objects--; if (p) { memset(p, 0xEE, n); raw_free(p); } }
  const uint8_t* data() const { return p; } size_t size() const { return n; }
};
static void builders(Rng& r) {
  std::vector<int> types = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_LARGE_WKT}) types.push_back(t);
  int type = r.pick(types); auto b = wrap<geoarrow::ArrayBuilder>(r, type); int objects = g_live_objects; bool abandoned = false;
  int mech = (int)r.below(3);  // appended, wrapped, typed
  std::vector<ArrowArray> kept; std::vector<std::vector<Buf>> model;
  for (int k = (int)r.range(1, 3); k > 0 && !abandoned; k--) {
    Features f = gen_for(r, type, r.below(8), gen_pnull(r)); ArrowArray src; ArrayStyle st;
    if (is_native(type)) build_native(type, f, &src, nullptr, st);
    else { OptStrings s; for (auto& x : f) s.push_back({!x.null, x.null ? "" : "TEXT " + std::to_string(r.next() % 100000)}); build_serialized(type, s, &src, nullptr, st); }
    std::vector<Buf> bufs = flatten(&src); src.release(&src); crumb("builder %d mechanism %d", type, mech);
    int depth = is_native(type) ? list_depth(type_geom(type)) : 0, nd = is_native(type) ? ndim(type_dims(type)) : 0;
    for (size_t i = 0; i < bufs.size(); i++) {
      if (!bufs[i].present) continue;
      const std::string& by = bufs[i].bytes; int64_t ix = (int64_t)i; bool is_off = is_native(type) && i >= 1 && i <= (size_t)depth, is_crd = is_native(type) && i > (size_t)depth;
      if (mech == 2 && is_off) { std::vector<int32_t> o(by.size() / 4); memcpy(o.data(), by.data(), by.size()); b->AppendToOffsetBuffer(ix - 1, o); count("offset_appends"); continue; }
      if (mech == 2 && is_crd) {
        if (i != bufs.size() - 1) continue;
        bool inter = type_inter(type); size_t n = by.size() / 8 / (inter ? (size_t)nd : 1); GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_values = nd; cv.n_coords = (int64_t)n; cv.coords_stride = inter ? nd : 1;
        std::vector<Exact> cols; if (inter) { cols.emplace_back(by); for (int j = 0; j < nd; j++) cv.values[j] = (const double*)cols[0].p + j; } else for (int j = 0; j < nd; j++) { cols.emplace_back(bufs[(size_t)(1 + depth + j)].bytes); } if (!inter) for (int j = 0; j < nd; j++) cv.values[j] = (const double*)cols[(size_t)j].p;
        int64_t cut = (int64_t)r.below(n + 1); b->AppendCoords(&cv, (GeoArrowDimensions)type_dims(type), 0, cut); b->AppendCoords(&cv, (GeoArrowDimensions)type_dims(type), cut, (int64_t)n - cut); count("coord_appends"); continue;
      }
      if (mech != 1) {
        size_t cut = r.below(by.size() + 1); if (is_crd) { cut = cut / 8 * 8; std::vector<double> x(cut / 8); memcpy(x.data(), by.data(), cut); b->AppendToBuffer(ix, x); } else b->AppendToBuffer(ix, by.substr(0, cut));
        std::vector<uint8_t> rest(by.begin() + (long)cut, by.end()); b->AppendToBuffer(ix, rest); count("appended"); continue;
      }
      switch (r.below(3)) {
        case 0: { Counted c(by); GeoArrowBufferView bv; bv.data = c.p; bv.size_bytes = (int64_t)c.n; b->SetBufferWrapped(ix, std::move(c), bv); break; }
        case 1: b->SetBufferWrapped(ix, Counted(by)); break;
        default: if (is_crd) { std::vector<double> x(by.size() / 8); memcpy(x.data(), by.data(), by.size()); b->SetBufferWrapped(ix, std::move(x)); } else if (is_off) { std::vector<int32_t> x(by.size() / 4); memcpy(x.data(), by.data(), by.size()); b->SetBufferWrapped(ix, std::move(x)); } else b->SetBufferWrapped(ix, std::vector<uint8_t>(by.begin(), by.end()));
      }
      count("wrapped");
    }
    if (r.one_in(6)) {  // an index out of range: refused, nothing kept
      int64_t bad = r.pick({(int64_t)bufs.size(), (int64_t)-1, (int64_t)100}); int before = g_live_objects;
      bool t1 = throws([&] { b->SetBufferWrapped(bad, Counted("abc")); }), t2 = throws([&] { Counted c("defg"); GeoArrowBufferView bv; bv.data = c.p; bv.size_bytes = 4; b->SetBufferWrapped(bad, std::move(c), bv); }), t3 = throws([&] { b->AppendToBuffer(bad, std::string("xyz")); });
      REQUIRE(t1 && t2 && t3 && g_live_objects == before, "index", "buffer %lld of %zu: %d %d %d, %d objects kept", (long long)bad, bufs.size(), t1, t2, t3, g_live_objects - before); count("bad_index");
    }
    if (r.one_in(10)) { abandoned = true; break; }
    ArrowArray a; a.release = nullptr; b->Finish(&a); REQUIRE(a.release, "finish", "no array"); kept.push_back(a); model.push_back(bufs);
    REQUIRE(a.length == (int64_t)f.size(), "length", "%lld of %zu", (long long)a.length, f.size());
  }
  bool early = r.one_in(2); if (early) b.reset();
  for (size_t i = 0; i < kept.size(); i++) same_buffers(&kept[i], model[i], fmt("type %d mechanism %d", type, mech));
  if (!early) b.reset();
  for (auto& a : kept) a.release(&a);
  REQUIRE(g_live_objects == objects, "wrapped", "%d wrapped objects alive after everything was released", g_live_objects - objects);
  if (abandoned) count("abandoned"); count("builders", 1);
}

// every allocation of these fails once: an exception, nothing leaked
static void faults(Rng& r) {
  Model w; GeometryDataType d = make(r, w); int what = (int)r.below(6); int type = what >= 4 && is_box(w.type) ? 1 : w.type; uint64_t seed = r.next();
  alloc::reset();
  auto run = [&](bool& threw) {
    Rng q(seed); threw = false;
    try {
      switch (what) {
        case 0: { ArrowSchema s; memset(&s, 0xCB, sizeof s); d.InitSchema(&s); s.release(&s); break; }
        case 1: { ArrowSchema s; memset(&s, 0xCB, sizeof s); d.InitStorageSchema(&s); s.release(&s); break; }
        case 2: { std::string a = d.extension_metadata(), b = d.crs(), c = d.ToString(); GeometryDataType e = d.WithEdgeType(GEOARROW_EDGE_TYPE_KARNEY); break; }
        case 3: { Features f = gen_for(q, type, 3, 0.2); ArrowArray a; ReleaseLog log; build_source(q, type, f, &a, &log); struct Back { ArrowArray* a; ~Back() { if (a->release) a->release(a); } } back{&a}; geoarrow::ArrayReader rd((GeoArrowType)type); rd.SetArray(&a); Monitor m; int rc = rd.Visit(&m.v, 0, 3); if (rc) throw geoarrow::ErrnoException(rc, "visit", nullptr); break; }
        case 4: { geoarrow::ArrayWriter wr((GeoArrowType)type); Features f = gen_for(q, type, 3, 0.2); int rc = play(wr.visitor(), f, Layout()); if (rc) throw geoarrow::ErrnoException(rc, "visit", nullptr); ArrowArray a; a.release = nullptr; wr.Finish(&a); a.release(&a); break; }
        default: { int t = is_native(type) ? type : 2; geoarrow::ArrayBuilder b((GeoArrowType)t); b.AppendToBuffer(1, std::string(8, 'a')); b.SetBufferWrapped(0, std::vector<uint8_t>(3, (uint8_t)255)); break; }
      }
    } catch (const geoarrow::Exception&) { threw = true; }
  };
  bool threw; run(threw);
  if (threw) return;  // (a writer that does not exist)
  REQUIRE(alloc::live_blocks() == 0, "leak", "operation %d on type %d: %s", what, type, alloc::describe_live().c_str());
  uint64_t n = 0; { alloc::reset(); run(threw); n = alloc::n_allocs(); }
  for (uint64_t k = 0; k < n && k < 40; k++) {
    alloc::reset(); crumb("operation %d type %d allocation %llu", what, type, (unsigned long long)k); alloc::arm((int64_t)k, r.one_in(2)); run(threw); bool fired = alloc::fired(); alloc::disarm();
    REQUIRE(alloc::live_blocks() == 0, "leak", "operation %d on type %d, allocation %llu of %llu failing: %s", what, type, (unsigned long long)k, (unsigned long long)n, alloc::describe_live().c_str());
    REQUIRE(alloc::bad_frees() == 0, "bad-free", "operation %d on type %d, allocation %llu", what, type, (unsigned long long)k);
    if (fired) count("faults"); if (fired && threw) count("faults_thrown");
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  try { switch (r.below(10)) {
    case 0: case 1: case 2: case 3: descriptors(r); break;
    case 4: case 5: readers(r); break;
    case 6: writers(r); break;
    case 7: case 8: builders(r); break;
    default: faults(r);
  } } catch (const geoarrow::Exception& e) { fail("unexpected-exception", "%s", e.what()); }
}
