// P30: Arrow C++ extension types carry GeoArrow types and arrays faithfully.
#define HZ_NEAR  // no arrays in memory that mostly is not there
#include "exttype.h"
#include "geoarrow/hpp/arrow_extension_type.hpp"
#include <arrow/api.h>
#include <arrow/c/bridge.h>
#include <arrow/io/memory.h>
#include <arrow/ipc/reader.h>
#include <arrow/ipc/writer.h>
using namespace hz;
const char* hz_name = "p30";
using Ext = geoarrow::arrow::GeometryExtensionType;
using ExtP = std::shared_ptr<Ext>;
using TypeP = std::shared_ptr<arrow::DataType>;

// these report by Status: an exception is a failure
template <class F> static auto no_throw(const char* what, F f) -> decltype(f()) {
  std::string m;
  try { return f(); } catch (const geoarrow::Exception& e) { m = e.what(); }
  fail("exception", "%s threw: %s", what, m.c_str()); abort();
}
static void import_ok(const arrow::Status& st, const char* what) { REQUIRE(st.ok(), "status", "%s: %s", what, st.ToString().c_str()); }

static SNode read_type(const arrow::DataType& t) {
  ArrowSchema s; s.release = nullptr; import_ok(arrow::ExportType(t, &s), "ExportType"); SNode n; REQUIRE(snode_read(&s, n), "schema", "unreadable"); s.release(&s); return n;
}
static TypeP import_type(const SNode& n) {
  ArrowSchema s; snode_build(n, &s, nullptr); auto t = arrow::ImportType(&s); import_ok(t.status(), "ImportType"); REQUIRE(!s.release, "ownership", "an imported schema stays"); return *t;
}
// Everything an extension type says; `own` if its storage is the one the format documents
static void is_ext(const ExtP& e, const Model& w, const char* how, bool own = true) {
  REQUIRE(e, "null", "%s", how);
  is(e->GeoArrowType(), w, how);
  REQUIRE(e->id() == arrow::Type::EXTENSION && e->extension_name() == ref_ext(w.type), "extension name", "%s: %s", how, e->extension_name().c_str());
  meta_is(e->Serialize(), w.m, how);
  SNode st = read_type(*e->storage_type());
  REQUIRE(ref_parse(st, ref_ext(w.type)) == w.type, "storage", "%s: %s for type %d", how, snode_show(st).c_str(), w.type);
  if (own) REQUIRE(snode_show(st, false) == snode_show(ref_schema(w.type), false), "storage", "%s: %s", how, snode_show(st).c_str());
  REQUIRE(e->ToString().find(ref_ext(w.type)) != std::string::npos, "string", "%s", how);
  SNode full = read_type(*e);
  auto* name = kv_get(full.meta, "ARROW:extension:name"); auto* meta = kv_get(full.meta, "ARROW:extension:metadata");
  REQUIRE(name && *name == ref_ext(w.type) && snode_show(full, false) == snode_show(st, false), "schema", "%s: %s", how, snode_show(full).c_str());
  meta_is(meta ? *meta : "", w.m, how);
  // and the C library reads the same from it
  ArrowSchema s; import_ok(arrow::ExportType(*e, &s), "ExportType"); GeoArrowSchemaView v; int rc = GeoArrowSchemaViewInit(&v, &s, nullptr);
  REQUIRE(rc == 0 && (int)v.type == w.type, "schema", "%s: rc %d, type %d instead of %d", how, rc, rc ? 0 : (int)v.type, w.type); s.release(&s);
  auto copy = std::make_shared<Ext>(*e); REQUIRE(copy->Equals(*e) && e->Equals(*copy) && copy->GeoArrowType().id() == e->GeoArrowType().id() && copy->extension_name() == e->extension_name(), "copy", "%s", how);
  count("types");
}
static bool same_model(const Model& a, const Model& b) {
  if (a.type != b.type || a.m.edge != b.m.edge || a.m.crs_type != b.m.crs_type) return false;
  return !a.m.crs_type || (a.m.crs == b.m.crs && a.m.kind == b.m.kind);
}

struct Registered {
  Registered() { import_ok(Ext::RegisterAll(), "RegisterAll"); }
  ~Registered() { if (live) (void)Ext::UnregisterAll(); }
  void undo() { live = false; import_ok(Ext::UnregisterAll(), "UnregisterAll"); }
  bool live = true;
};

static ExtP make_ext(Rng& r, Model& w, bool& own) {
  w.type = r.pick(all_types()); own = true; std::string js; bool plain = r.one_in(5);
  if (plain) { w.m = Meta(); js = r.one_in(2) ? "" : "{}"; } else js = gen_valid_json(r, w.m);
  auto t = (GeoArrowType)w.type; crumb("make %d %s", w.type, quote(js).c_str()); distinct(mix64((uint64_t)w.type) ^ fnv(js));
  auto got = [&](arrow::Result<ExtP> x, const char* what) { REQUIRE(x.ok(), "refused", "%s of type %d: %s", what, w.type, x.status().ToString().c_str()); return *x; };
  switch (r.below(5)) {
    case 0: return got(no_throw("Make", [&] { return plain && r.one_in(2) ? Ext::Make(t) : Ext::Make(t, js); }), "Make(type)");
    case 1: if (is_native(w.type) || is_box(w.type)) return got(no_throw("Make", [&] { return Ext::Make((GeoArrowGeometryType)geom_of(w.type), (GeoArrowDimensions)dims_of(w.type), (GeoArrowCoordType)coord_of(w.type), js); }), "Make(components)");
      return got(no_throw("Make", [&] { return Ext::Make(t, js); }), "Make(type)");
    case 2: {
      if (r.one_in(3)) { Meta other; std::string oj = gen_valid_json(r, other); if (js.empty()) js = "{}"; return got(no_throw("Make", [&] { return Ext::Make(GeometryDataType::Make(t, oj), js); }), "Make(descriptor, metadata)"); }
      return got(no_throw("Make", [&] { return Ext::Make(GeometryDataType::Make(t, js)); }), "Make(descriptor)"); }
    case 3: {  // by deserialising, possibly storage that is named differently
      SNode n = ref_schema(w.type); own = !r.one_in(2); if (!own) for (SNode* p = &n; p->format == "+l"; p = &p->kids[0]) { p->kids[0].name = "item"; p->kids[0].flags = r.one_in(2) ? ARROW_FLAG_NULLABLE : 0; }
      TypeP st = import_type(n); int o = w.type; for (int k = 0; k < 8; k++) { int q = r.pick(all_types()); if (!strcmp(ref_ext(q), ref_ext(o))) o = q; }
      Meta om; ExtP proto = got(r.one_in(2) ? Ext::Make((GeoArrowType)o) : Ext::Make((GeoArrowType)o, gen_valid_json(r, om)), "Make"); auto d = no_throw("Deserialize", [&] { return proto->Deserialize(st, js); }); REQUIRE(d.ok(), "refused", "Deserialize of type %d: %s", w.type, d.status().ToString().c_str());
      ExtP e = std::dynamic_pointer_cast<Ext>(*d); REQUIRE(e && e->storage_type()->Equals(*st), "storage", "not the one that was given"); return e; }
    default: {
      Registered reg; SNode n = ext_schema(r, w.type, plain && js.empty() && r.one_in(2) ? nullptr : &js); n.flags = ARROW_FLAG_NULLABLE; ArrowSchema s; ReleaseLog log; snode_build(n, &s, &log);
      TypeP t2; if (r.one_in(2)) { auto x = no_throw("ImportField", [&] { return arrow::ImportField(&s); }); import_ok(x.status(), "ImportField"); REQUIRE((*x)->name() == n.name && (*x)->nullable(), "field", "%s", (*x)->ToString().c_str()); t2 = (*x)->type(); }
      else { auto x = no_throw("ImportType", [&] { return arrow::ImportType(&s); }); import_ok(x.status(), "ImportType"); t2 = *x; }
      REQUIRE(!s.release && log.released == 1, "ownership", "schema released %d times", log.released);
      ExtP e = std::dynamic_pointer_cast<Ext>(t2); REQUIRE(e, "not-restored", "type %d imported as %s", w.type, t2->ToString().c_str()); count("imported"); reg.undo(); return e; }
  }
}

static void types(Rng& r) {
  Model w; bool own; ExtP e = make_ext(r, w, own); is_ext(e, w, "made", own); if (want_sample()) sample(fmt("type %d: %s %s", w.type, e->ToString().c_str(), e->storage_type()->ToString().c_str()));
  if (r.one_in(3)) {  // against another
    Model u = w; ExtP f; bool own2;
    if (r.one_in(2)) f = make_ext(r, u, own2); else { u.m.edge = (u.m.edge + (int)r.range(1, 5)) % 6; auto x = e->WithEdgeType((GeoArrowEdgeType)u.m.edge); import_ok(x.status(), "WithEdgeType"); f = *x; }
    if (!same_model(w, u) && (w.type != u.type || w.m.edge != u.m.edge || w.m.crs_type != u.m.crs_type)) { REQUIRE(!e->Equals(*f) && !f->Equals(*e), "equal", "type %d %s and type %d %s (%s)", w.type, e->Serialize().c_str(), u.type, f->Serialize().c_str(), e->storage_type()->ToString().c_str()); count("differences"); }
    auto back = no_throw("Deserialize", [&] { return f->Deserialize(f->storage_type(), f->Serialize()); }); import_ok(back.status(), "Deserialize"); REQUIRE((*back)->Equals(*f), "round-trip", "%s", f->Serialize().c_str()); count("deserialized");
  }
  for (int k = (int)r.below(5); k > 0; k--) {
    Model u = w; arrow::Result<ExtP> x = e; bool ok = true, own2 = own;
    switch (r.below(3)) {
      case 0: {
        int what = (int)r.below(3), g = geom_of(w.type), dd = dims_of(w.type), c = coord_of(w.type), v;
        if (what == 0) v = g = (int)r.range(0, 7); else if (what == 1) v = dd = (int)r.below(5); else v = c = (int)r.below(3);
        u.type = make_id(g, dd, c); ok = u.type != 0; crumb("type %d component %d := %d", w.type, what, v); own2 = true;
        x = no_throw("With", [&] { return what == 0 ? e->WithGeometryType((GeoArrowGeometryType)v) : what == 1 ? e->WithDimensions((GeoArrowDimensions)v) : e->WithCoordType((GeoArrowCoordType)v); });
        if (u.type == w.type) own2 = false;  // either storage will do
        break; }
      case 1: u.m.edge = (int)r.below(6); x = no_throw("WithEdgeType", [&] { return e->WithEdgeType((GeoArrowEdgeType)u.m.edge); }); break;
      default: { Meta m = gen_meta(r); if (!m.crs_type) m.crs_type = 1; u.m.crs_type = m.crs_type; u.m.kind = m.kind; u.m.crs = m.crs; u.m.plain = m.plain;
        std::unique_ptr<std::string> tmp(new std::string(m.crs)); x = no_throw("WithCrs", [&] { return m.crs_type == 1 && r.one_in(2) ? e->WithCrs(*tmp) : e->WithCrs(*tmp, (GeoArrowCrsType)m.crs_type); }); }
    }
    REQUIRE(x.ok() == ok, "component", "%s: %s", e->ToString().c_str(), x.status().ToString().c_str());
    is_ext(e, w, "after deriving another", own);
    if (ok) { if (r.one_in(2)) e.reset(); e = *x; w = u; own = own2; is_ext(e, w, "derived", own); count("derived"); } else count("refused");
  }
}

static void refusals(Rng& r) {
  int type = r.pick(all_types()); std::string bad = r.pick({"{", "{\"crs\"", "[]", "{\"edges\": \"round\"}", "{\"crs_type\": \"other\"}", "x", "{\"edges\": {}}"});
  GeoArrowMetadataView mv; bool refuse = GeoArrowMetadataViewInit(&mv, GeoArrowStringView{bad.data(), (int64_t)bad.size()}, nullptr) != 0;
  switch (r.below(6)) {
    case 0: { int t = r.pick({0, 7, 8, 11, 999, 100000, 100009, 991}); REQUIRE(!no_throw("Make", [&] { return Ext::Make((GeoArrowType)t); }).ok(), "accepted", "type %d", t); break; }
    case 1: { int g = (int)r.range(0, 7), dd = (int)r.below(5), c = (int)r.below(3); int id = make_id(g, dd, c); auto x = no_throw("Make", [&] { return Ext::Make((GeoArrowGeometryType)g, (GeoArrowDimensions)dd, (GeoArrowCoordType)c); }); REQUIRE(x.ok() == (id != 0), "accepted", "%d/%d/%d", g, dd, c); break; }
    case 2: { auto x = no_throw("Make", [&] { return Ext::Make((GeoArrowType)type, bad); }); REQUIRE(x.ok() == !refuse, "accepted", "metadata %s", bad.c_str()); break; }
    case 3: { ExtP e = *Ext::Make((GeoArrowType)type); auto x = no_throw("Deserialize", [&] { return e->Deserialize(e->storage_type(), bad); }); REQUIRE(x.ok() == !refuse, "accepted", "metadata %s", bad.c_str()); break; }
    case 4: { ExtP e = *Ext::Make((GeoArrowType)type); SNode n = ref_schema(r.pick(all_types())); int want = ref_parse(n, ref_ext(type)); auto x = no_throw("Deserialize", [&] { return e->Deserialize(import_type(n), "{}"); });
      REQUIRE(x.ok() == (want >= 0), "accepted", "storage %s for %s", snode_show(n).c_str(), ref_ext(type)); if (x.ok()) { Model w; w.type = want; is_ext(std::dynamic_pointer_cast<Ext>(*x), w, "other storage", false); } break; }
    default: { Registered reg; SNode n = ref_schema(r.pick(all_types())); bool badmeta = r.one_in(2); n.has_meta = true; n.meta = {{"ARROW:extension:name", ref_ext(type)}, {"ARROW:extension:metadata", badmeta ? bad : "{}"}}; int want = ref_parse(n, ref_ext(type));
      ArrowSchema s; ReleaseLog log; snode_build(n, &s, &log); auto x = no_throw("ImportType", [&] { return arrow::ImportType(&s); }); bool ok = want >= 0 && !(badmeta && refuse);
      REQUIRE(x.ok() == ok && log.released == 1 && !s.release, "accepted", "%s as %s: %s", snode_show(n).c_str(), ref_ext(type), x.status().ToString().c_str()); reg.undo(); }
  }
  count("refusals");
}

// the features that the C library finds in what Arrow exports
static void same_features(const arrow::Array& arr, int type, const Features& f0, const char* how) {
  ArrowArray a; ArrowSchema s; a.release = nullptr; s.release = nullptr; import_ok(arrow::ExportArray(arr, &a, &s), "ExportArray");
  { GeoArrowSchemaView v; int rc = GeoArrowSchemaViewInit(&v, &s, nullptr); REQUIRE(rc == 0 && (int)v.type == type, "schema", "%s: rc %d", how, rc); }
  REQUIRE(a.length == (int64_t)f0.size(), "length", "%s: %lld of %zu", how, (long long)a.length, f0.size());
  Features want = f0;
  if (!is_box(type) || type == 990) {
    GeoArrowArrayReader rd; REQUIRE(GeoArrowArrayReaderInitFromSchema(&rd, &s, nullptr) == 0, "reader", "%s", how);
    Monitor m; int rc = GeoArrowArrayReaderSetArray(&rd, &a, &m.err); REQUIRE(rc == 0, "set", "%s: type %d rc %d %s", how, type, rc, m.err.message);
    rc = GeoArrowArrayReaderVisit(&rd, 0, a.length, &m.v); check_noted();
    if (!is_wkt(type)) { norm_empty_points(want); norm_empty_points(m.feats); } else for (auto* q : {&m.feats, &want}) for (auto& x : *q) canon_nan(x.g);
    if (is_native(type)) { m.feats = prune(m.feats); want = prune(want); }
    std::string why; bool same = rc == 0 && (is_box(type) ? m.feats.size() == want.size() : equal(m.feats, want, &why));
    if (same && is_box(type)) for (size_t i = 0; i < want.size(); i++) same = same && m.feats[i].null == want[i].null;
    REQUIRE(same, "features", "%s: type %d: rc %d %s", how, type, rc, why.c_str());
    GeoArrowArrayReaderReset(&rd);
  }
  a.release(&a); s.release(&s); count("exported");
}
static std::shared_ptr<arrow::Array> through_ipc(const std::shared_ptr<arrow::Array>& arr, const char* how) {
  auto schema = arrow::schema({arrow::field("g", arr->type())}); auto batch = arrow::RecordBatch::Make(schema, arr->length(), {arr});
  auto sink = *arrow::io::BufferOutputStream::Create(); auto wr = arrow::ipc::MakeStreamWriter(sink, schema); import_ok(wr.status(), how);
  // (Arrow cannot always transport child arrays without elements that have an offset: not this library's matter)
  if (!(*wr)->WriteRecordBatch(*batch).ok() || !(*wr)->Close().ok()) { count("ipc refused"); return arr; } auto buf = *sink->Finish();
  auto rd = arrow::ipc::RecordBatchStreamReader::Open(std::make_shared<arrow::io::BufferReader>(buf)); import_ok(rd.status(), how);
  std::shared_ptr<arrow::RecordBatch> b; if (!(*rd)->ReadNext(&b).ok()) { count("ipc refused"); return arr; } REQUIRE(b, "ipc", "%s: no batch", how);
  REQUIRE(b->schema()->field(0)->type()->Equals(*arr->type()), "ipc", "%s: %s came back as %s", how, arr->type()->ToString().c_str(), b->schema()->field(0)->type()->ToString().c_str());
  count("ipc"); return b->column(0);
}

static void arrays(Rng& r) {
  Registered reg; ReleaseLog log; Model w; w.type = r.pick(all_types()); std::string js; if (r.one_in(3)) { w.m = Meta(); js = "{}"; } else js = gen_valid_json(r, w.m);
  Features f = gen_for(r, w.type, r.below(10), gen_pnull(r)); crumb("array of type %d: %s", w.type, show(f).c_str()); distinct(mix64((uint64_t)w.type) ^ hash_of(f));
  ArrowArray a; build_source(r, w.type, f, &a, &log); SNode n = ext_schema(r, w.type, &js); ArrowSchema s; snode_build(n, &s, nullptr);
  auto x = no_throw("ImportArray", [&] { return arrow::ImportArray(&a, &s); }); REQUIRE(x.ok(), "import", "type %d: %s", w.type, x.status().ToString().c_str()); REQUIRE(!a.release && !s.release, "ownership", "an imported array stays");
  std::shared_ptr<arrow::Array> arr = *x; x = nullptr; ExtP e = std::dynamic_pointer_cast<Ext>(arr->type()); REQUIRE(e, "not-restored", "type %d imported as %s", w.type, arr->type()->ToString().c_str());
  is_ext(e, w, "imported with an array");
  auto valid = arr->ValidateFull(); REQUIRE(valid.ok() || f.empty(), "invalid", "type %d: %s", w.type, valid.ToString().c_str());
  int64_t nulls = 0; for (auto& q : f) nulls += q.null; REQUIRE(arr->null_count() == nulls, "nulls", "%lld of %lld", (long long)arr->null_count(), (long long)nulls);
  REQUIRE(std::dynamic_pointer_cast<arrow::ExtensionArray>(arr), "array", "not an extension array");
  for (int k = (int)r.range(1, 4); k > 0; k--) {
    Features part = f; auto sub = arr; const char* how = "whole";
    if (r.one_in(2)) { int64_t o = (int64_t)r.below(f.size() + 1), l = (int64_t)r.below(f.size() - (size_t)o + 1); sub = arr->Slice(o, l); part = Features(f.begin() + o, f.begin() + o + l); how = "slice"; }
    if (r.one_in(2)) {
      sub = through_ipc(sub, how); how = "through IPC"; ExtP e2 = std::dynamic_pointer_cast<Ext>(sub->type()); is_ext(e2, w, "IPC"); }
    if (r.one_in(3)) { auto st = e->storage_type(); auto data = std::static_pointer_cast<arrow::ExtensionArray>(sub)->storage()->data()->Copy(); data->type = e; auto made = e->MakeArray(data); same_features(*made, w.type, part, "made from storage"); }
    same_features(*sub, w.type, part, how);
  }
  REQUIRE(log.released == 0 || f.empty(), "released", "an array in use was released"); arr = nullptr; e = nullptr; REQUIRE(log.released == 1 && log.live == 0, "released", "%d times", log.released);
  reg.undo(); count("arrays");
  if (r.one_in(4)) {  // without registration: plain storage
    ArrowSchema s2; snode_build(n, &s2, nullptr); auto t = arrow::ImportType(&s2); import_ok(t.status(), "ImportType"); REQUIRE((*t)->id() != arrow::Type::EXTENSION, "unregistered", "%s", (*t)->ToString().c_str()); count("unregistered");
  }
}

// ordinates that text keeps as they are
static void round_all(Geom& g) { for (auto& x : g.xs) { x = std::isfinite(x) ? std::fmod(std::trunc(x), 1e6) : x; if (x == 0) x = 0; } for (auto& k : g.kids) round_all(k); }

// what the library writes is valid by Arrow's own reckoning
static void written(Rng& r) {
  Registered reg; int type; do type = r.pick(all_types()); while (is_box(type)); Model w; w.type = type; Features f; ArrowArray a; ArrowSchema s; a.release = nullptr; s.release = nullptr;
  int how = (int)r.below(4);
  if (how == 0) {  // kernels
    const char* name = r.pick({"as_geoarrow", "format_wkt", "box"}); Kernel k(name); std::string js; w.m = Meta(); js = "{}"; SNode n = ext_schema(r, type, &js); ArrowSchema in; snode_build(n, &in, nullptr);
    f = gen_for(r, type, r.below(10), gen_pnull(r)); ArrowArray src; build_source(r, type, f, &src, nullptr); crumb("%s of %d: %s", name, type, show(f).c_str());
    std::string opt = enc_kv({{"type", std::to_string(is_native(type) ? (int)GEOARROW_TYPE_WKB : type)}}); std::string none = enc_kv({});
    int rc = k.start(&in, !strcmp(name, "as_geoarrow") ? &opt : &none, &s); REQUIRE(rc == 0 || !strcmp(name, "as_geoarrow"), "start", "%s rc %d %s", name, rc, k.err.message);
    if (rc == 0) { rc = k.push(&src, &a); REQUIRE(rc == 0, "push", "%s rc %d %s", name, rc, k.err.message); }
    src.release(&src); in.release(&in); k.release(); if (!a.release) { if (s.release) s.release(&s); reg.undo(); return; }
  } else {
    GeoArrowArrayWriter wr; if (GeoArrowArrayWriterInitFromType(&wr, (GeoArrowType)type)) { reg.undo(); return; }
    GeoArrowVisitor v; memset(&v, 0, sizeof v); REQUIRE(GeoArrowArrayWriterInitVisitor(&wr, &v) == 0, "init", "visitor"); GeoArrowError er; v.error = &er;
    f = gen_for(r, type, r.below(10), gen_pnull(r)); if (is_wkt(type)) for (auto& q : f) round_all(q.g); crumb("written as %d: %s", type, show(f).c_str()); int rc = play(&v, f, Layout()); REQUIRE(rc == 0, "visit", "rc %d", rc);
    REQUIRE(GeoArrowArrayWriterFinish(&wr, &a, nullptr) == 0, "finish", "type %d", type); GeoArrowArrayWriterReset(&wr); REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) == 0, "schema", "type %d", type);
  }
  auto x = no_throw("ImportArray", [&] { return arrow::ImportArray(&a, &s); }); REQUIRE(x.ok(), "import", "type %d: %s", type, x.status().ToString().c_str());
  auto st = (*x)->ValidateFull(); REQUIRE(st.ok(), "invalid", "type %d: %s", type, st.ToString().c_str());
  int64_t nulls = 0; for (auto& q : f) nulls += q.null;
  REQUIRE((*x)->length() == (int64_t)f.size() && (*x)->null_count() == nulls, "length", "%lld rows, %lld null", (long long)(*x)->length(), (long long)(*x)->null_count());
  if (how) { ExtP e = std::dynamic_pointer_cast<Ext>((*x)->type()); is_ext(e, w, "written"); auto y = r.one_in(2) ? through_ipc(*x, "written") : *x; same_features(*y, type, f, "written"); }
  reg.undo(); count("written");
}

void hz_case(Case& c) {
  Rng& r = c.r; alloc::reset();
  try { switch (r.below(8)) {
    case 0: case 1: case 2: types(r); break;
    case 3: refusals(r); break;
    case 4: case 5: arrays(r); break;
    default: written(r);
  } } catch (const geoarrow::Exception& e) { fail("unexpected-exception", "%s", e.what()); }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
