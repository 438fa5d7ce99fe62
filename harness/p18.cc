// P18: geometry objects: copies, strides, byte order and views agree.
#include "arrow_ref.h"
#include <memory>
using namespace hz;
const char* hz_name = "p18";

static GenOpts opts(Rng& r) { GenOpts o; o.num = NUM_ANY; o.budget = r.one_in(12) ? 3000 : 120; o.big = r.chance(0.5); o.max_depth = 5; return o; }

// the same geometry as a view over memory of several kinds; drop() makes every
// byte behind the view unreadable
struct Source {
  OwnedView ov; bool have_rd = false, have_geom = false;
  GeoArrowWKBReader rd; std::unique_ptr<Exact> wkb; GeoArrowGeometry geom;
  GeoArrowGeometryView view; const char* kind = "";
  ~Source() { drop(); }
  void drop() {
    ov = OwnedView(); wkb.reset();
    if (have_rd) { GeoArrowWKBReaderReset(&rd); have_rd = false; }
    if (have_geom) { GeoArrowGeometryReset(&geom); have_geom = false; }
  }
};
static void same(Geom got, Geom want, const char* key, const std::string& what) {
  norm_empty_points(got); norm_empty_points(want);  // WKB spells an empty point as NaN
  std::string why;
  REQUIRE(equal(got, want, &why), key, "%s: %s (got %s, want %s)", what.c_str(), why.c_str(), show(got).c_str(), show(want).c_str());
}
static uint64_t check_view(GeoArrowGeometryView w, const Geom& g, const std::string& what) {
  Geom got; std::string why;
  REQUIRE(view_to_geom(w, got, why), "nodes", "%s: %s", what.c_str(), why.c_str());
  same(got, g, "nodes", what);
  Monitor m;
  int rc = GeoArrowGeometryViewVisit(w, &m.v);
  check_noted();
  REQUIRE(rc == 0 && m.balanced() && m.feats.size() == 1, "visit", "%s: rc %d (%s), %zu features", what.c_str(), rc, m.err.message, m.feats.size());
  same(m.feats[0].g, g, "visit", what + " visited");
  REQUIRE(total_coords(got) == GeoArrowGeometryViewNumCoords(w), "visit", "%s: %u coordinates counted, %zu present", what.c_str(), GeoArrowGeometryViewNumCoords(w), total_coords(got));
  count("visits");
  return m.trace;
}

static void collect(Rng& r, GeoArrowGeometry* o, const Geom& g) {
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; e.message[0] = 0; v.error = &e;
  GeoArrowGeometryInitVisitor(o, &v);
  REQUIRE(v.error == &e, "collect", "error pointer replaced");
  Feature f; f.g = g; Layout L; L.r = &r;
  int rc = play(&v, f, L);
  REQUIRE(rc == 0, "collect", "rc %d %s for %s", rc, e.message, show(g).c_str());
  count("collected");
}
static void make_source(Rng& r, Source& s, const Geom& g) {
  switch (r.below(4)) {
    case 0: case 1: { NodeStyle st; st.r = &r; s.ov = make_view(g, st); s.view = s.ov.view(); s.kind = "strided view"; break; }
    case 2: {
      WkbStyle b; b.r = &r; std::string t; enc_wkb(g, t, b); s.wkb.reset(new Exact(t));
      REQUIRE(GeoArrowWKBReaderInit(&s.rd) == 0, "init", "wkb reader"); s.have_rd = true;
      GeoArrowBufferView bv; bv.data = s.wkb->p; bv.size_bytes = (int64_t)s.wkb->n; GeoArrowError e; e.message[0] = 0;
      REQUIRE(GeoArrowWKBReaderRead(&s.rd, bv, &s.view, &e) == 0, "wkb", "%s", e.message);
      s.kind = "WKB view"; break;
    }
    default: {
      REQUIRE(GeoArrowGeometryInit(&s.geom) == 0, "init", "geometry"); s.have_geom = true;
      for (int i = (int)r.below(3); i > 0; i--) collect(r, &s.geom, gen_any(r, opts(r)));  // re-use
      collect(r, &s.geom, g);
      s.view = GeoArrowGeometryAsView(&s.geom); s.kind = "collected geometry";
    }
  }
}

// every sequence node through the writing primitives
static void check_sequences(Rng& r, GeoArrowGeometryView w) {
  for (int64_t i = 0; i < w.size_nodes; i++) {
    const GeoArrowGeometryNode* n = &w.root[i];
    if (!is_seq(n->geometry_type)) continue;
    int nd = ndim(n->dimensions); int64_t need = (int64_t)n->size * nd * 8;
    REQUIRE(GeoArrowGeometryNodeWriteSequence(n, nullptr, 0) == need, "write-sequence", "size of %u coordinates", n->size);
    if (need > 65536) continue;
    Exact out(std::string((size_t)need, '\x11'));
    if (need > 0) {
      int64_t rc = GeoArrowGeometryNodeWriteSequence(n, out.p, (int64_t)r.below((uint64_t)need));  // too small: nothing written
      REQUIRE(rc == need, "write-sequence", "size");
      for (int64_t k = 0; k < need; k++) REQUIRE(out.p[k] == 0x11, "write-sequence", "wrote into a buffer that is too small");
    }
    REQUIRE(GeoArrowGeometryNodeWriteSequence(n, out.p, need) == need, "write-sequence", "size");
    for (uint32_t k = 0; k < n->size; k++) for (int j = 0; j < nd; j++) {
      uint8_t b[8]; memcpy(b, n->coords[j] + (int64_t)k * n->coord_stride[j], 8);
      if (n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) for (int q = 0; q < 4; q++) std::swap(b[q], b[7 - q]);
      REQUIRE(!memcmp(b, out.p + ((size_t)k * nd + j) * 8, 8), "write-sequence", "coordinate %u ordinate %d", k, j);
    }
  }
}

// appended to every kind of writer
static bool castable(const Geom& g, int t, Geom& out) {
  out = g;
  if (!has_coords(g)) { out = Geom(); out.type = t; out.dims = g.dims; return true; }
  if (g.type == t) return true;
  auto wrap = [&] { Geom p; p.type = t; p.dims = g.dims; p.kids.push_back(g); out = p; };
  switch (t) {
    case T_LINESTRING: if (g.type == T_MULTILINESTRING && g.kids.size() == 1) { out = g.kids[0]; return true; } return false;
    case T_POLYGON: if (g.type == T_MULTIPOLYGON && g.kids.size() == 1) { out = g.kids[0]; return true; } return false;
    case T_MULTIPOINT: if (g.type == T_POINT) { wrap(); return true; } return false;
    case T_MULTILINESTRING: if (g.type == T_LINESTRING) { wrap(); return true; } return false;
    case T_MULTIPOLYGON: if (g.type == T_POLYGON) { wrap(); return true; } return false;
  }
  return false;
}
static void check_append(Rng& r, GeoArrowGeometryView w, const Geom& g, const std::string& what) {
  if (r.one_in(2)) {
    GeoArrowWKBWriter wr; REQUIRE(GeoArrowWKBWriterInit(&wr) == 0, "init", "wkb writer");
    int n = (int)r.range(1, 3), rc = 0;
    for (int i = 0; i < n && !rc; i++) rc = GeoArrowWKBWriterAppend(&wr, w);
    REQUIRE(rc == 0, "append-wkb", "%s: rc %d", what.c_str(), rc);
    ArrowArray a; a.release = nullptr; REQUIRE(GeoArrowWKBWriterFinish(&wr, &a, nullptr) == 0, "append-wkb", "finish");
    GeoArrowWKBWriterReset(&wr);
    Decoder d; OptStrings got; bool ok = d.serialized(&a, GEOARROW_TYPE_WKB, got); a.release(&a);
    REQUIRE(ok && got.size() == (size_t)n, "append-wkb", "%s", d.why.c_str());
    Geom ng = g;
    for (auto& x : got) {
      Geom b; std::string why; REQUIRE(wkb_decode(x.second, b, why), "append-wkb", "%s: %s", what.c_str(), why.c_str());
      same(b, ng, "append-wkb", what + " appended to WKB");
    }
    count("appended_wkb"); return;
  }
  // a native target, sometimes of other dimensions or a single/multi relative
  int t = g.type;
  if (t == T_COLLECTION || r.one_in(4)) { t = (int)r.range(1, 6); }
  else if (r.one_in(3)) t = t <= 3 ? t + 3 : t == T_MULTIPOINT ? t : t - 3;
  int dims = r.one_in(2) ? (int)r.range(1, 4) : g.dims;
  Geom want; std::vector<double> xs; bool can = castable(g, t, want);
  if (t == T_POINT && has_coords(g)) {  // anything holding one coordinate
    can = total_coords(g) == 1;
    if (can) { const Geom* p = &g; while (!is_seq(p->type)) { const Geom* q = nullptr; for (auto& k : p->kids) if (has_coords(k)) q = &k; p = q; } want = *p; want.type = T_POINT; }
  }
  int type = native_type(t, dims, r.one_in(2));
  GeoArrowNativeWriter wr; REQUIRE(GeoArrowNativeWriterInit(&wr, (GeoArrowType)type) == 0, "init", "native writer");
  GeoArrowError e; e.message[0] = 0;
  int rc = GeoArrowNativeWriterAppend(&wr, w, &e);
  if (!can) { GeoArrowNativeWriterReset(&wr); if (rc) count("append_refused"); return; }
  if (rc && g.type != t) { GeoArrowNativeWriterReset(&wr); count("append_refused"); return; }  // a cast may be refused
  REQUIRE(rc == 0, "append-native", "%s to type %d: rc %d %s", what.c_str(), type, rc, e.message);
  if (r.one_in(2)) REQUIRE(GeoArrowNativeWriterAppend(&wr, w, &e) == 0, "append-native", "second append");
  ArrowArray a; a.release = nullptr; rc = GeoArrowNativeWriterFinish(&wr, &a, &e);
  GeoArrowNativeWriterReset(&wr);
  REQUIRE(rc == 0, "append-native", "finish %d", rc);
  Decoder d; Features got; bool ok = d.native(&a, type, got); a.release(&a);
  REQUIRE(ok, "append-native", "%s to type %d: %s", what.c_str(), type, d.why.c_str());
  want = redim(prune(want), dims); canon_nan(want); norm_empty_points(want); want = prune(want);
  for (auto& x : got) {
    REQUIRE(!x.null, "append-native", "became null");
    Geom q = x.g; canon_nan(q); norm_empty_points(q); q = prune(q); std::string why;
    REQUIRE(equal(q, want, &why), "append-native", "%s to type %d: %s (decoded %s, want %s)", what.c_str(), type, why.c_str(), show(q).c_str(), show(want).c_str());
  }
  count(g.dims == dims && g.type == t ? "appended_native" : "appended_cast");
}

static void agree(Rng& r) {
  std::vector<std::unique_ptr<GeoArrowGeometry>> objs;
  struct Slot { GeoArrowGeometry g; Geom model; bool filled = false; };
  int n_slots = (int)r.range(1, 3);
  std::vector<Slot> slots(n_slots);
  for (auto& s : slots) REQUIRE(GeoArrowGeometryInit(&s.g) == 0, "init", "geometry");
  int steps = (int)r.range(1, 4);
  for (int k = 0; k < steps; k++) {
    Geom g = r.one_in(700) ? gen_huge(r, (int)r.range(1, 7), (int)r.range(1, 4)) : r.one_in(15) ? gen_nested(r, (int)r.below(20), (int)r.range(1, 4), GenOpts()) : gen_any(r, opts(r));
    distinct(hash_of(g));
    if (want_sample()) sample(show(g));
    Source src; make_source(r, src, g);
    crumb("%s %s", src.kind, show(g).c_str());
    uint64_t t0 = check_view(src.view, g, src.kind);
    check_sequences(r, src.view);
    check_append(r, src.view, g, src.kind);
    // into a slot (which may hold something), then perhaps from slot to slot
    Slot& d = slots[r.below(slots.size())];
    GeoArrowGeometry tmp; bool have_tmp = false;
    if (r.one_in(3)) {  // through a shallow copy
      REQUIRE(GeoArrowGeometryInit(&tmp) == 0, "init", "geometry"); have_tmp = true;
      if (r.one_in(2)) collect(r, &tmp, gen_any(r, opts(r)));  // re-used object
      int rc = GeoArrowGeometryShallowCopy(src.view, &tmp);
      REQUIRE(rc == 0, "copy", "shallow copy rc %d", rc);
      uint64_t t1 = check_view(GeoArrowGeometryAsView(&tmp), g, std::string("shallow copy of ") + src.kind);
      REQUIRE(t0 == t1, "events", "shallow copy of %s visits to other events", src.kind);
      count("shallow");
    }
    int rc = GeoArrowGeometryDeepCopy(have_tmp && r.one_in(2) ? GeoArrowGeometryAsView(&tmp) : src.view, &d.g);
    REQUIRE(rc == 0, "copy", "deep copy rc %d", rc);
    d.model = g; d.filled = true;
    if (have_tmp) GeoArrowGeometryReset(&tmp);
    std::string kind = src.kind;
    src.drop();  // the deep copy does not need its source
    uint64_t t2 = check_view(GeoArrowGeometryAsView(&d.g), g, "deep copy of " + kind);
    REQUIRE(t0 == t2, "events", "deep copy of %s visits to other events", kind.c_str());
    Monitor m; rc = GeoArrowGeometryVisit(&d.g, &m.v); check_noted();
    REQUIRE(rc == 0 && m.feats.size() == 1 && m.trace == t0, "events", "GeoArrowGeometryVisit of a deep copy: rc %d", rc);
    same(m.feats[0].g, g, "visit", "geometry visited");
    check_sequences(r, GeoArrowGeometryAsView(&d.g));
    check_append(r, GeoArrowGeometryAsView(&d.g), g, "deep copy of " + kind);
    count("deep"); 
    if (slots.size() > 1 && r.one_in(2)) {  // deep copy of a deep copy
      Slot& o = slots[(size_t)(&d - &slots[0] + 1) % slots.size()];
      rc = GeoArrowGeometryDeepCopy(GeoArrowGeometryAsView(&d.g), &o.g);
      REQUIRE(rc == 0, "copy", "deep copy rc %d", rc);
      o.model = g; o.filled = true;
      if (r.one_in(2)) { GeoArrowGeometryReset(&d.g); d.filled = false; REQUIRE(GeoArrowGeometryInit(&d.g) == 0, "init", "geometry"); }
      check_view(GeoArrowGeometryAsView(&o.g), g, "copy of a copy");
    }
    // the others are as they were
    for (auto& s : slots) if (s.filled) check_view(GeoArrowGeometryAsView(&s.g), s.model, "earlier copy");
  }
  for (auto& s : slots) GeoArrowGeometryReset(&s.g);
}

// ---- inconsistent views -------------------------------------------------------
// is there an encoding of exactly one geometry in these nodes?
static bool walk(const GeoArrowGeometryNode*& p, const GeoArrowGeometryNode* e) {
  if (p >= e) return false;
  const GeoArrowGeometryNode* n = p++;
  if (n->geometry_type < 1 || n->geometry_type > 7) return false;
  if (is_seq(n->geometry_type)) return n->dimensions >= 1 && n->dimensions <= 4;
  for (uint32_t i = 0; i < n->size; i++) {
    if (n->geometry_type == T_POLYGON) {
      if (p >= e || !is_seq(p->geometry_type) || p->dimensions < 1 || p->dimensions > 4) return false;
      p++;
    } else if (!walk(p, e)) return false;
  }
  return true;
}
static void inconsistent(Rng& r) {
  GenOpts o; o.num = NUM_NICE; o.budget = 40; o.big = false; o.max_depth = 4;
  Geom g = gen_any(r, o); NodeStyle st; st.r = &r;
  OwnedView ov = make_view(g, st);
  std::vector<GeoArrowGeometryNode> n = ov.nodes;
  static const uint8_t types[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 200, 255};
  for (int k = (int)r.range(1, 3); k > 0 && !n.empty(); k--) {
    size_t i = r.below(n.size());
    switch (r.below(6)) {
      case 0: n.resize(r.below(n.size() + 1)); break;
      case 1: { GeoArrowGeometryNode x = n[r.below(n.size())]; if (r.one_in(2)) { x.size = 0; } n.insert(n.begin() + (int64_t)r.below(n.size() + 1), x); break; }
      case 2: if (!is_seq(n[i].geometry_type)) n[i].size = r.pick({0u, 1u, n[i].size + 1, n[i].size - 1, n[i].size * 2, 1000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}); break;
      case 3: if (is_seq(n[i].geometry_type)) n[i].dimensions = r.pick({(uint8_t)0, (uint8_t)5, (uint8_t)6, (uint8_t)255, (uint8_t)128}); break;
      case 4: {
        uint8_t t = types[r.below(sizeof types)];
        if (is_seq(t) && !is_seq(n[i].geometry_type)) n[i].size = 0;  // no coordinates to point at
        n[i].geometry_type = t; break;
      }
      default: n.erase(n.begin() + (int64_t)i);
    }
  }
  const GeoArrowGeometryNode* p = n.data(); const GeoArrowGeometryNode* e = p + n.size();
  bool good = walk(p, e) && p == e;
  std::string raw((const char*)n.data(), n.size() * sizeof n[0]);
  Exact nodes(raw);
  distinct(fnv(raw));
  crumb("nodes %s", hex(raw.data(), raw.size(), 400).c_str());
  GeoArrowGeometryView w; w.root = (const GeoArrowGeometryNode*)nodes.p; w.size_nodes = (int64_t)n.size();
  Monitor m; m.check = false; m.strict = false;
  int rc = GeoArrowGeometryViewVisit(w, &m.v);
  REQUIRE(rc >= 0, "error-code", "rc %d", rc);
  REQUIRE(memchr(m.err.message, 0, sizeof m.err.message) != nullptr, "error-message", "unterminated");
  if (!good) {
    REQUIRE(rc != 0, "inconsistent-accepted", "%zu nodes: visited without an error: %s", n.size(), show(m.feats).c_str());
    count("rejected");
  } else count(rc ? "refused_consistent" : "still_consistent");
  if (good && rc == 0 && m.balanced() && m.feats.size() == 1) {
    Geom q; std::string why;
    std::function<void(Geom&)> rings = [&](Geom& x) { for (auto& k : x.kids) { if (x.type == T_POLYGON) { k.type = T_LINESTRING; k.dims = x.dims; } rings(k); } };
    bool mixed = false;  // a ring node of other dimensions than its polygon
    if (view_to_geom(w, q, why)) { std::function<void(const Geom&)> mix = [&](const Geom& x) { for (auto& k : x.kids) { if (x.type == T_POLYGON && k.dims != x.dims) mixed = true; mix(k); } }; mix(q); }
    q = Geom();
    if (!mixed && view_to_geom(w, q, why)) { rings(q); } else return;
    REQUIRE(equal(m.feats[0].g, q, &why), "visit", "%s", why.c_str());
  }
}

// sizes near the limits of the node's fields (nothing is dereferenced when the output is too small)
static void extremes(Rng& r) {
  GeoArrowGeometryNode n; memset(&n, 0, sizeof n);
  double z = 0; for (int j = 0; j < 4; j++) n.coords[j] = (const uint8_t*)&z;
  n.geometry_type = r.one_in(2) ? T_POINT : T_LINESTRING; n.dimensions = (uint8_t)r.range(1, 4);
  n.size = r.pick({0x20000000u, 0x40000000u, 0x55555556u, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x3fffffffu}) + (uint32_t)(r.one_in(2) ? 0 : r.below(16));
  int64_t need = (int64_t)n.size * ndim(n.dimensions) * 8;
  uint8_t buf[8];
  REQUIRE(GeoArrowGeometryNodeWriteSequence(&n, r.one_in(2) ? buf : nullptr, 0) == need, "write-sequence", "%u coordinates of %d: reported %lld bytes", n.size, ndim(n.dimensions), (long long)GeoArrowGeometryNodeWriteSequence(&n, nullptr, 0));
  count("extremes");
}

void hz_case(Case& c) {
  Rng& r = c.r;
  int k = (int)r.below(20);
  if (k < 13) agree(r);
  else if (k < 19) for (int i = 0; i < 6; i++) inconsistent(r);
  else extremes(r);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
