// P06: ownership. Random life cycles of every object, with failing steps in
// between, abandoned at any point; what was handed out is released in any order
// (also piece by piece), what was handed in stays untouched and ours.
#include "kern.h"
#include <errno.h>
#include <memory>
using namespace hz;
const char* hz_name = "p06";

// ---- things handed in
struct In { ArrowArray a; ReleaseLog log; uint64_t dg; };
struct InS { ArrowSchema s; ReleaseLog log; std::string was; };
// ---- things handed out
struct World {
  Rng& r; std::string hist; std::vector<std::unique_ptr<In>> ins; std::vector<std::unique_ptr<InS>> inss;
  std::vector<ArrowArray> outs; std::vector<ArrowSchema> souts; std::vector<ArrowArray> pieces;
  int fails = 0; bool reads = true;
  explicit World(Rng& r_) : r(r_) {}
  ~World() { for (auto& i : ins) if (i->a.release) i->a.release(&i->a); for (auto& s : inss) if (s->s.release) s->s.release(&s->s); }
  void op(const char* f, int rc) { hist += f; if (rc) { hist += "! "; fails++; count("failed_steps"); } else hist += " "; count("steps"); }
  ArrowArray* in_array(int type, bool broken) {
    ins.emplace_back(new In); In& x = *ins.back(); Features f = gen_for(r, type, r.below(6), gen_pnull(r), true);
    build_source(r, type, f, &x.a, &x.log); distinct(hash_of(f) ^ mix64((uint64_t)type));
    if (broken) { switch (r.below(3)) { case 0: x.a.n_children += 1; break; case 1: x.a.n_buffers = (type == (int)GEOARROW_TYPE_WKB_VIEW || type == (int)GEOARROW_TYPE_WKT_VIEW) ? (int64_t)r.below(3) : (int64_t)r.pick({0, 1, 7}); break;  /* claiming more buffers than there are cannot be seen through for view types */ default: x.a.n_children = 0; } }
    x.dg = in_digest(&x.a); return &x.a;
  }
  // a serialized array whose values are no geometry
  ArrowArray* in_garbage(int type) {
    ins.emplace_back(new In); In& x = *ins.back(); OptStrings s; size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; i++) { std::string t; GenOpts o; o.budget = 30; o.num = is_wkt(type) ? NUM_FINITE : NUM_ANY; Geom g = gen_any(r, o); if (is_wkt(type)) { WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); }; wkt_tagged(g, t, ws); } else t = wkb_iso(g); if (i + 1 == n && !t.empty()) { if (r.one_in(2)) t.resize(r.below(t.size())); else t[r.below(std::min<size_t>(t.size(), 8))] ^= (char)(1 + r.below(255)); } s.push_back({true, t}); }
    ArrayStyle st; st.r = &r; build_serialized(type, s, &x.a, &x.log, st); x.dg = in_digest(&x.a); return &x.a;
  }
  static uint64_t in_digest(const ArrowArray* a) { int64_t v[5] = {a->length, a->null_count, a->offset, a->n_buffers, a->n_children}; uint64_t h = fnv(v, sizeof v); NodePriv* p = (NodePriv*)a->private_data; for (auto& s : p->sizes) h = fnv(s.first, s.second, h); for (ArrowArray* c : p->children) h = mix64(h ^ digest(c)); return h; }
  ArrowSchema* in_schema(int type, const std::string* meta) {
    inss.emplace_back(new InS); InS& x = *inss.back(); SNode n = ext_schema(r, type, meta); if (r.one_in(6)) n.format = r.pick({std::string("n"), std::string("+s"), std::string("i"), std::string("+w:9"), std::string("junk")});
    snode_build(n, &x.s, &x.log); SNode b; REQUIRE(snode_read(&x.s, b), "harness", "schema"); x.was = snode_show(b); return &x.s;
  }
  void took(ArrowArray* a) { if (!a->release) return; outs.push_back(*a); a->release = nullptr; count("arrays_out"); }
  void took(ArrowSchema* s) { if (!s->release) return; souts.push_back(*s); s->release = nullptr; count("schemas_out"); }
  void read_all(const ArrowArray* a) {
    if (!reads) return;  // every byte that must be there (ASan watches)
    volatile uint8_t sink = 0; std::string f; (void)f;
    if (a->n_buffers > 0 && a->buffers[0] && a->length) for (int64_t i = 0; i < (a->offset + a->length + 7) / 8; i++) sink = sink ^ ((const uint8_t*)a->buffers[0])[i];
    for (int64_t i = 0; i < a->n_children; i++) read_all(a->children[i]);
  }
  void release_one(ArrowArray a) {
    REQUIRE(a.release, "released", "a released array was handed out");
    if (a.n_children && r.one_in(3)) {  // take a child out first: it outlives its parent
      int64_t k = (int64_t)r.below((uint64_t)a.n_children); if (a.children[k]->release) { pieces.push_back(*a.children[k]); a.children[k]->release = nullptr; count("children_moved"); }
    }
    a.release(&a); REQUIRE(a.release == nullptr, "not-marked", "array not marked released (history %s)", hist.c_str()); count("arrays_released");
  }
  void release_one(ArrowSchema s) {
    if (s.n_children && r.one_in(4)) { ArrowSchema c = *s.children[0]; if (c.release) { s.children[0]->release = nullptr; s.release(&s); volatile size_t n = strlen(c.format); (void)n; c.release(&c); REQUIRE(!c.release && !s.release, "not-marked", "schema"); count("children_moved"); return; } }
    s.release(&s); REQUIRE(s.release == nullptr, "not-marked", "schema not marked released"); count("schemas_released");
  }
  void some() {  // let go of something now and then
    if (!outs.empty() && r.one_in(4)) { size_t k = r.below(outs.size()); ArrowArray a = outs[k]; outs.erase(outs.begin() + (long)k); read_all(&a); release_one(a); }
    if (!souts.empty() && r.one_in(4)) { size_t k = r.below(souts.size()); ArrowSchema a = souts[k]; souts.erase(souts.begin() + (long)k); release_one(a); }
    // inputs may go away as soon as they were used, unless a reader still looks at them
  }
  void check_inputs() {
    for (auto& i : ins) { REQUIRE(i->log.released == 0 && i->a.release, "input-released", "history %s", hist.c_str()); REQUIRE(in_digest(&i->a) == i->dg, "input-changed", "an input array changed (history %s)", hist.c_str()); count("inputs_checked"); }
    for (auto& s : inss) { REQUIRE(s->log.released == 0 && s->s.release, "input-released", "schema, history %s", hist.c_str()); SNode b; REQUIRE(snode_read(&s->s, b) && snode_show(b) == s->was, "input-changed", "an input schema changed (history %s)", hist.c_str()); count("inputs_checked"); }
  }
  void drop_inputs() { for (auto& i : ins) { i->a.release(&i->a); REQUIRE(i->log.released == 1, "input-released", "array"); } for (auto& s : inss) s->s.release(&s->s); ins.clear(); inss.clear(); }
  void finish() {
    check_inputs(); bool first = r.one_in(2);
    if (first) drop_inputs();  // outputs do not lean on inputs
    while (!outs.empty()) { size_t k = r.below(outs.size()); ArrowArray a = outs[k]; outs.erase(outs.begin() + (long)k); read_all(&a); release_one(a); }
    while (!souts.empty()) { ArrowSchema a = souts.back(); souts.pop_back(); release_one(a); }
    for (auto& p : pieces) { read_all(&p); p.release(&p); REQUIRE(!p.release, "not-marked", "child"); }
    pieces.clear();
    if (!first) drop_inputs();
  }
};

static int pick_type(Rng& r) { static const std::vector<int> nat = all_native(), ser = all_serialized(); int k = (int)r.below(8); return k < 5 ? r.pick(nat) : k < 7 ? r.pick(ser) : 990; }

// some events, possibly stopping in the middle of a feature or with an error
static int some_events(World& w, GeoArrowVisitor* v, int type) {
  Rng& r = w.r; Layout L; L.r = &r; GenOpts o; o.budget = 50; o.num = NUM_ANY;
  bool match = is_native(type) && !r.one_in(6);
  Geom g = gen_geom(r, match ? type_geom(type) : (int)r.range(1, 7), match ? type_dims(type) : (int)r.range(1, 4), o);
  Feature f; f.null = r.one_in(6); f.g = g; distinct(hash_of(g));
  int rc;
  if (r.one_in(10)) {  // abandoned in the middle
    rc = v->feat_start(v); if (!rc) rc = v->geom_start(v, (GeoArrowGeometryType)g.type, (GeoArrowDimensions)g.dims); if (!rc && g.type == T_POLYGON) rc = v->ring_start(v); if (!rc && r.one_in(2)) rc = play_coords(v, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, g.dims, L);
    w.op("part", rc); return rc;
  }
  rc = play(v, f, L); if (rc == EAGAIN) rc = v->feat_end(v);
  w.op(f.null ? "null" : "feat", rc); return rc;
}

template <class W, class Init, class InitV, class Fin, class Reset, class App, class AppN>
static void writer(World& w, const char* name, int type, Init init, InitV initv, Fin fin, Reset reset, App app, AppN appn) {
  Rng& r = w.r; w.hist += name; w.hist += ": ";
  W x; memset(&x, 0x5a, sizeof x); int rc = init(&x); w.op("init", rc); if (rc) return;
  GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; e.message[0] = 0; v.error = &e; bool hv = false;
  if (!r.one_in(12)) { rc = initv(&x, &v); v.error = &e; hv = rc == 0; w.op("visitor", rc); }
  int n = (int)r.below(14);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10); crumb("%s next %d", w.hist.c_str(), k);
    if (k < 6 && hv) rc = some_events(w, &v, type);
    else if (k == 6) { GenOpts o; o.budget = 40; Geom g = r.one_in(3) ? gen_any(r, o) : gen_geom(r, is_native(type) ? type_geom(type) : (int)r.range(1, 7), is_native(type) ? type_dims(type) : D_XYZ, o); NodeStyle st; st.r = &r; OwnedView ov = make_view(g, st); rc = app(&x, ov.view(), &e); if (rc != -77) w.op("append", rc); }
    else if (k == 7) { rc = appn(&x); if (rc != -77) w.op("appendnull", rc); }
    else {
      ArrowArray a; a.release = nullptr; rc = fin(&x, &a, &e); w.op("finish", rc); w.took(&a);
      if (rc) break;  // only a reset is left
    }
    w.some();
  }
  reset(&x); w.hist += "reset "; count("objects");
}

static void o_native(World& w) {
  int type = w.r.pick(all_native()); if (w.r.one_in(25)) type = w.r.pick({(int)GEOARROW_TYPE_WKB, 990, 0, 777});
  writer<GeoArrowNativeWriter>(w, fmt("native %d", type).c_str(), type, [&](GeoArrowNativeWriter* x) { return GeoArrowNativeWriterInit(x, (GeoArrowType)type); }, GeoArrowNativeWriterInitVisitor, GeoArrowNativeWriterFinish, GeoArrowNativeWriterReset, GeoArrowNativeWriterAppend, GeoArrowNativeWriterAppendNull);
}
static void o_wkb(World& w) {
  writer<GeoArrowWKBWriter>(w, "wkb writer", GEOARROW_TYPE_WKB, GeoArrowWKBWriterInit, [](GeoArrowWKBWriter* x, GeoArrowVisitor* v) { GeoArrowWKBWriterInitVisitor(x, v); return 0; }, GeoArrowWKBWriterFinish, GeoArrowWKBWriterReset, [](GeoArrowWKBWriter* x, GeoArrowGeometryView g, GeoArrowError*) { return GeoArrowWKBWriterAppend(x, g); }, GeoArrowWKBWriterAppendNull);
}
static void o_wkt(World& w) {
  int64_t lim = w.r.one_in(3) ? (int64_t)w.r.below(60) : -1;
  writer<GeoArrowWKTWriter>(w, "wkt writer", GEOARROW_TYPE_WKT, [&](GeoArrowWKTWriter* x) { int rc = GeoArrowWKTWriterInit(x); if (!rc) x->max_element_size_bytes = lim; return rc; }, [](GeoArrowWKTWriter* x, GeoArrowVisitor* v) { GeoArrowWKTWriterInitVisitor(x, v); return 0; }, GeoArrowWKTWriterFinish, GeoArrowWKTWriterReset, [](GeoArrowWKTWriter*, GeoArrowGeometryView, GeoArrowError*) { return -77; }, [](GeoArrowWKTWriter*) { return -77; });
}
static void o_array_writer(World& w) {
  Rng& r = w.r; int type = r.one_in(12) ? r.pick({(int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKT_VIEW, 990, 0, 12345}) : r.one_in(3) ? r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}) : r.pick(all_native()); bool sch = r.one_in(2);
  std::string md = r.one_in(2) ? "{\"edges\":\"spherical\"}" : "{broken";
  writer<GeoArrowArrayWriter>(w, fmt("array writer %d", type).c_str(), type, [&](GeoArrowArrayWriter* x) {
    if (!sch || type == 0 || type == 12345) return GeoArrowArrayWriterInitFromType(x, (GeoArrowType)type);
    return GeoArrowArrayWriterInitFromSchema(x, w.in_schema(type, r.one_in(3) ? &md : nullptr)); },
    GeoArrowArrayWriterInitVisitor, GeoArrowArrayWriterFinish, GeoArrowArrayWriterReset, [&](GeoArrowArrayWriter* x, GeoArrowGeometryView, GeoArrowError*) { return r.one_in(2) ? GeoArrowArrayWriterSetPrecision(x, (int)r.below(17)) : GeoArrowArrayWriterSetFlatMultipoint(x, (int)r.below(2)); }, [](GeoArrowArrayWriter*) { return -77; });
}

static void o_reader(World& w) {
  Rng& r = w.r; int type = pick_type(r); w.hist += fmt("array reader %d: ", type);
  GeoArrowArrayReader x; memset(&x, 0x5a, sizeof x); GeoArrowError e; e.message[0] = 0; int rc;
  if (r.one_in(2)) { std::string md = r.pick({std::string("{}"), std::string("[1,"), std::string("{\"crs\":\"x\"}")}); rc = GeoArrowArrayReaderInitFromSchema(&x, w.in_schema(type, r.one_in(2) ? &md : nullptr), &e); }
  else rc = GeoArrowArrayReaderInitFromType(&x, (GeoArrowType)(r.one_in(15) ? 4321 : type));
  w.op("init", rc); if (rc) return;
  bool set = false; int64_t len = 0;
  for (int i = (int)r.below(10); i > 0; i--) {
    int k = (int)r.below(5); crumb("%s next %d", w.hist.c_str(), k);
    if (k < 2 || !set) { bool bad = r.one_in(4); ArrowArray* a = bad && !is_native(type) && !is_box(type) && r.one_in(2) ? w.in_garbage(type) : w.in_array(type, bad); rc = GeoArrowArrayReaderSetArray(&x, a, &e); set = rc == 0; len = a->length; w.op(bad ? "set(bad)" : "set", rc); }
    else if (k == 2) { const GeoArrowArrayView* v = nullptr; rc = GeoArrowArrayReaderArrayView(&x, &v); w.op("view", rc); }
    else { Monitor m; m.check = false; if (r.one_in(3)) { m.fail_at = (int)r.below(20); m.fail_code = r.pick({(int)EAGAIN, (int)EINVAL, 5}); } int64_t at = (int64_t)r.below((uint64_t)len + 1); rc = GeoArrowArrayReaderVisit(&x, at, (int64_t)r.below((uint64_t)(len - at) + 1), &m.v); w.op("visit", rc); }
  }
  if (r.one_in(2)) w.check_inputs();
  GeoArrowArrayReaderReset(&x); w.hist += "reset "; count("objects");
}
static void o_text_readers(World& w) {
  Rng& r = w.r; bool wkb = r.one_in(2); w.hist += wkb ? "wkb reader: " : "wkt reader: ";
  GeoArrowWKBReader b; GeoArrowWKTReader t; GeoArrowGeometry keep; bool has = r.one_in(2);
  int rc = wkb ? GeoArrowWKBReaderInit(&b) : GeoArrowWKTReaderInit(&t); w.op("init", rc); if (rc) return;
  if (has && GeoArrowGeometryInit(&keep)) has = false;
  for (int i = (int)r.below(8); i > 0; i--) {
    GenOpts o; o.budget = 60; o.num = wkb ? NUM_ANY : NUM_FINITE; Geom g = r.one_in(4) ? gen_nested(r, (int)r.range(1, 12), D_XY, o) : gen_any(r, o); std::string s;
    if (wkb) { WkbStyle st; st.r = &r; enc_wkb(g, s, st); } else { WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); }; wkt_tagged(g, s, ws); }
    int bad = (int)r.below(4); if (bad == 0 && !s.empty()) s.resize(r.below(s.size())); if (bad == 1 && !s.empty()) s[r.below(s.size())] = (char)r.below(256);
    std::string before = s; Exact e(s); Monitor m; m.check = false; if (r.one_in(4)) { m.fail_at = (int)r.below(12); m.fail_code = (int)EINVAL; } crumb("%s", w.hist.c_str());
    GeoArrowBufferView bv; bv.data = e.p; bv.size_bytes = (int64_t)s.size(); GeoArrowStringView sv{(const char*)e.p, (int64_t)s.size()};
    if (wkb && r.one_in(2)) { GeoArrowGeometryView gv; rc = GeoArrowWKBReaderRead(&b, bv, &gv, &m.err); if (!rc && has) { int rc2 = r.one_in(2) ? GeoArrowGeometryDeepCopy(gv, &keep) : GeoArrowGeometryShallowCopy(gv, &keep); w.op("copy", rc2); } w.op("read", rc); }
    else { GeoArrowVisitor* v = &m.v; GeoArrowVisitor gv; memset(&gv, 0, sizeof gv); if (has && r.one_in(2)) { GeoArrowGeometryInitVisitor(&keep, &gv); gv.error = &m.err; v = &gv; } rc = wkb ? GeoArrowWKBReaderVisit(&b, bv, v) : GeoArrowWKTReaderVisit(&t, sv, v); w.op("visit", rc); }
    REQUIRE(!memcmp(e.p, before.data(), before.size()), "input-changed", "the text or bytes that were read"); distinct(fnv(s)); count("inputs_checked");
  }
  bool order = r.one_in(2);
  if (has && order) GeoArrowGeometryReset(&keep);
  if (wkb) GeoArrowWKBReaderReset(&b); else GeoArrowWKTReaderReset(&t);
  if (has && !order) GeoArrowGeometryReset(&keep);
  count("objects");
}
static void o_geometry(World& w) {
  Rng& r = w.r; w.hist += "geometries: "; GeoArrowGeometry g[3]; std::vector<Geom> src; std::vector<OwnedView> views;
  views.reserve(32);
  for (auto& x : g) if (GeoArrowGeometryInit(&x)) throw CaseFail();
  for (int i = (int)r.range(1, 12); i > 0; i--) {
    int a = (int)r.below(3), b = (int)r.below(3), k = (int)r.below(7); int rc; crumb("%s next %d", w.hist.c_str(), k);
    GenOpts o; o.budget = 40; Geom q = gen_any(r, o); NodeStyle st; st.r = &r; distinct(hash_of(q));
    switch (k) {
      case 0: views.push_back(make_view(q, st)); rc = GeoArrowGeometryShallowCopy(views.back().view(), &g[a]); w.op("shallow", rc); break;
      case 1: { OwnedView v = make_view(q, st); rc = GeoArrowGeometryDeepCopy(v.view(), &g[a]); w.op("deep", rc); break; }
      case 2: if (a != b && g[b].size_nodes > 0) { rc = GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&g[b]), &g[a]); w.op("deepof", rc); } break;
      case 3: { GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; GeoArrowGeometryInitVisitor(&g[a], &v); v.error = &e; some_events(w, &v, 0); break; }
      case 4: { int64_t n = (int64_t)r.below(30), old = g[a].size_nodes; rc = GeoArrowGeometryResizeNodes(&g[a], n); if (!rc) for (int64_t j = old; j < n; j++) memset(&g[a].root[j], 0, sizeof *g[a].root); w.op("resize", rc); if (!rc) { rc = GeoArrowGeometryResizeNodes(&g[a], 0); w.op("resize0", rc); } break; }
      case 5: { GeoArrowGeometryNode* n; rc = GeoArrowGeometryResizeNodes(&g[a], 0); for (int j = 0; j < 5 && !rc; j++) { rc = GeoArrowGeometryAppendNode(&g[a], &n); if (!rc) memset(n, 0, sizeof *n); } w.op("nodes", rc); rc = GeoArrowGeometryResizeNodes(&g[a], 0); break; }
      case 6: GeoArrowGeometryReset(&g[a]); if (GeoArrowGeometryInit(&g[a])) throw CaseFail(); w.hist += "reset "; break;
    }
  }
  for (auto& x : g) GeoArrowGeometryReset(&x);
  count("objects");
}

struct Tok { int* calls; uint8_t* p; };
static void tok_free(uint8_t* p, int64_t, void* priv) { Tok* t = (Tok*)priv; ++*t->calls; raw_free(p); }
static void o_builder(World& w) {
  Rng& r = w.r; int type = r.one_in(5) ? r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKT, 990, 3990, (int)GEOARROW_TYPE_WKB_VIEW, 5}) : r.pick(all_native());
  w.reads = false;  /* its buffers are arbitrary bytes */ w.hist += fmt("builder %d: ", type); GeoArrowBuilder b; memset(&b, 0x5a, sizeof b); GeoArrowError e; e.message[0] = 0; int rc;
  if (r.one_in(2) || type == 5 || type == (int)GEOARROW_TYPE_WKB_VIEW) rc = GeoArrowBuilderInitFromType(&b, (GeoArrowType)type); else rc = GeoArrowBuilderInitFromSchema(&b, w.in_schema(type, nullptr), &e);
  w.op("init", rc); if (rc) return;
  std::vector<std::unique_ptr<Tok>> toks; std::vector<int> calls(64, 0); size_t given = 0;
  for (int i = (int)r.below(18); i > 0 && given < 60; i--) {
    int k = (int)r.below(6); int64_t at = r.range(-1, b.view.n_buffers); crumb("%s next %d", w.hist.c_str(), k);
    size_t n = r.below(5) * 8; uint8_t buf[64] = {0}; GeoArrowBufferView bv; bv.data = buf; bv.size_bytes = (int64_t)n;
    if (k < 2) { rc = GeoArrowBuilderAppendBuffer(&b, at, bv); w.op("append", rc); }
    else if (k == 2) { rc = GeoArrowBuilderReserveBuffer(&b, at, (int64_t)r.below(300)); w.op("reserve", rc); }
    else if (k == 3) {
      uint8_t* p = (uint8_t*)raw_malloc(n); memset(p, 0, n); bv.data = p; toks.emplace_back(new Tok{&calls[given], p});
      rc = GeoArrowBuilderSetOwnedBuffer(&b, at, bv, tok_free, toks.back().get()); w.op("own", rc);
      if (rc) { REQUIRE(calls[given] == 0, "owned", "a refused buffer was freed"); raw_free(p); calls[given] = 1; toks.pop_back(); }
      given++;
    } else if (k == 4 && i % 3 == 0) {
      ArrowArray a; a.release = nullptr; rc = GeoArrowBuilderFinish(&b, &a, &e); w.op("finish", rc); w.took(&a); if (rc) break;
    }
    w.some();
  }
  GeoArrowBuilderReset(&b); w.hist += "reset "; count("objects");
  for (size_t k = 0; k < given; k++) REQUIRE(calls[k] <= 1, "owned-freed-twice", "history %s", w.hist.c_str());
  w.finish();
  for (size_t k = 0; k < given; k++) REQUIRE(calls[k] == 1, "owned-not-freed", "buffer %zu: %d calls (history %s)", k, calls[k], w.hist.c_str());
  if (given) count("owned_buffers", given);
}
static void o_kernel(World& w) {
  Rng& r = w.r; static const char* NAMES[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg", "nothing"};
  int k = (int)r.below(r.one_in(20) ? 9 : 8); bool agg = k == 1 || k == 2 || k == 5 || k == 7; w.hist += fmt("kernel %s: ", NAMES[k]);
  GeoArrowKernel kn; memset(&kn, 0x5a, sizeof kn); kn.release = nullptr; GeoArrowError e; e.message[0] = 0; int rc = GeoArrowKernelInit(&kn, NAMES[k], nullptr); w.op("init", rc); if (rc) return;
  bool started = false; int type = pick_type(r);
  for (int i = (int)r.below(9); i > 0; i--) {
    int op = (int)r.below(6); crumb("%s next %d", w.hist.c_str(), op);
    if (!started || op == 0) {
      if (started && r.one_in(2)) continue;
      type = pick_type(r); std::string md = r.pick({std::string("{}"), std::string("{\"edges\":\"spherical\"}"), std::string("{\"crs\":"), std::string("{\"crs\":\"x\"}")});
      KV kv; if (!r.one_in(6)) kv.push_back({"type", std::to_string(r.one_in(6) ? (int)r.below(200000) : is_native(type) ? native_type(type_geom(type), (int)r.range(1, 4), r.one_in(2)) : (int)r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}))}); if (r.one_in(3)) kv.push_back({"max_element_size_bytes", "20"}); std::string opt = enc_kv(kv);
      ArrowSchema out; out.release = nullptr; rc = kn.start(&kn, w.in_schema(type, r.one_in(2) ? &md : nullptr), opt.data(), &out, &e); w.op("start", rc);
      if (rc) REQUIRE(!out.release, "failed-output", "start failed (%d) but left a schema (history %s)", rc, w.hist.c_str());
      w.took(&out); if (rc) break; started = true;
    } else if (op < 5) {
      bool bad = r.one_in(6); ArrowArray* a = bad && !is_native(type) && !is_box(type) ? w.in_garbage(type) : w.in_array(type, bad);
      ArrowArray o; o.release = nullptr; rc = kn.push_batch(&kn, a, agg ? nullptr : &o, &e); w.op(bad ? "push(bad)" : "push", rc);
      if (rc) REQUIRE(!o.release, "failed-output", "push_batch failed (%d) but left an array (history %s)", rc, w.hist.c_str());
      w.took(&o); if (rc) break;
    } else { ArrowArray o; o.release = nullptr; rc = kn.finish(&kn, agg ? &o : nullptr, &e); w.op("finish", rc); w.took(&o); if (rc) break; }
    w.some();
  }
  kn.release(&kn); REQUIRE(kn.release == nullptr, "not-marked", "kernel %s not marked released", NAMES[k]); w.hist += "release "; count("objects");
}
static void o_schema(World& w) {
  Rng& r = w.r; w.hist += "schema: "; int type = r.pick(all_types()); if (r.one_in(8)) type = r.pick({0, 99, 5555, 990990}); ArrowSchema s; memset(&s, 0x5a, sizeof s); s.release = nullptr;
  bool ext = !r.one_in(3); int rc = ext ? GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) : GeoArrowSchemaInit(&s, (GeoArrowType)type); w.op("init", rc);
  if (rc) { REQUIRE(!s.release, "failed-output", "schema init failed (%d) but left a schema, type %d", rc, type); return; }
  for (int i = (int)r.below(8); i > 0; i--) {
    int k = (int)r.below(4); crumb("%s next %d", w.hist.c_str(), k); GeoArrowError e;
    if (k == 0) { std::string crs = gen_text(r, 40); GeoArrowMetadataView mv; memset(&mv, 0, sizeof mv); mv.edge_type = (GeoArrowEdgeType)r.below(7); mv.crs_type = (GeoArrowCrsType)r.below(7); mv.crs.data = crs.data(); mv.crs.size_bytes = (int64_t)crs.size(); rc = GeoArrowSchemaSetMetadata(&s, &mv); w.op("meta", rc); }
    else if (k == 1) { std::string md = r.pick({std::string("{}"), std::string("{\"edges\":\"spherical\",\"crs\":\"abc\"}"), std::string("")}); ArrowSchema* q = w.in_schema(r.pick(all_types()), r.one_in(3) ? nullptr : &md); rc = GeoArrowSchemaSetMetadataFrom(&s, q); w.op("metafrom", rc); }
    else if (k == 2) { GeoArrowSchemaView v; rc = GeoArrowSchemaViewInit(&v, &s, &e); w.op("view", rc); }
    else { GeoArrowSchemaView v; const char* en = GeoArrowExtensionNameFromType((GeoArrowType)type); std::string n = en ? en : "geoarrow.wkb"; rc = GeoArrowSchemaViewInitFromStorage(&v, &s, GeoArrowStringView{n.data(), (int64_t)n.size()}, &e); w.op("storage", rc); }
  }
  w.took(&s); count("objects");
}
static void o_udf(World& w) {
  Rng& r = w.r; w.hist += "udf: "; GeoArrowScalarUdfFactory f; memset(&f, 0x5a, sizeof f); GeoArrowError e; int rc = GeoArrowScalarUdfFactoryInit(&f, r.one_in(8) ? "none" : "void", r.one_in(2) ? "" : nullptr, &e); w.op("factory", rc); if (rc) return;
  GeoArrowScalarUdf u[3]; int n = (int)r.below(4);
  for (int i = 0; i < n; i++) { memset(&u[i], 0x5a, sizeof u[i]); f.new_scalar_udf_impl(&f, &u[i]); }
  for (int i = 0; i < n; i++) for (int k = (int)r.below(4); k > 0; k--) {
    int type = pick_type(r); const ArrowSchema* at[2] = {w.in_schema(type, nullptr), w.in_schema(type, nullptr)}; ArrowArray* sa[2] = {r.one_in(2) ? nullptr : w.in_array(type, false), nullptr}; ArrowSchema out; out.release = nullptr;
    rc = u[i].init(&u[i], at, r.one_in(2) ? nullptr : sa, 2, &out); w.op("init", rc); w.took(&out);
    ArrowArray* args[2] = {w.in_array(type, false), w.in_array(type, false)}; ArrowArray o; o.release = nullptr; rc = u[i].execute(&u[i], args, 2, (int64_t)r.below(1000), &o); w.op("execute", rc); w.took(&o);
  }
  bool early = r.one_in(2); if (early) { f.release(&f); REQUIRE(!f.release, "not-marked", "factory"); }
  for (int i = 0; i < n; i++) { u[i].release(&u[i]); REQUIRE(!u[i].release, "not-marked", "udf"); }
  if (!early) { f.release(&f); REQUIRE(!f.release, "not-marked", "factory"); }
  count("objects");
}
static void o_array_view(World& w) {
  Rng& r = w.r; int type = pick_type(r); w.hist += fmt("array view %d: ", type); GeoArrowArrayView v; GeoArrowError e; e.message[0] = 0; int rc;
  if (r.one_in(2)) rc = GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type); else rc = GeoArrowArrayViewInitFromSchema(&v, w.in_schema(type, nullptr), &e);
  w.op("init", rc); if (rc) return;
  for (int i = (int)r.below(5); i > 0; i--) { bool bad = r.one_in(3); ArrowArray* a = w.in_array(type, bad); rc = GeoArrowArrayViewSetArray(&v, a, &e); w.op("set", rc); if (!rc && is_native(type)) { Monitor m; m.check = false; rc = GeoArrowArrayViewVisitNative(&v, 0, a->length, &m.v); w.op("visit", rc); } }
  count("objects");
}

void hz_case(Case& c) {
  static void (*const OBJ[])(World&) = {o_native, o_wkb, o_wkt, o_array_writer, o_reader, o_text_readers, o_geometry, o_builder, o_kernel, o_kernel, o_schema, o_udf, o_array_view, o_native, o_kernel, o_builder};
  {
    World w(c.r);
    OBJ[c.idx % (sizeof OBJ / sizeof *OBJ)](w);
    distinct(fnv(w.hist)); if (w.fails) count("histories_with_failures");
    if (want_sample()) sample(w.hist);
    w.finish();
    REQUIRE(!alloc::bad_frees(), "bad-free", "history %s", w.hist.c_str());
    REQUIRE(alloc::live_blocks() == 0, "leak", "%s (history %s)", alloc::describe_live().c_str(), w.hist.c_str());
  }
}
