// P13: reading arrays honours offsets, slices, nulls and every storage layout.
#include "big.h"
#include "wktgen.h"
using namespace hz;
const char* hz_name = "p13";

struct Source {
  int type; Features f; ArrowArray a; ReleaseLog log; uint64_t dig = 0; bool built = false;
  ~Source() { if (built && a.release) a.release(&a); }
};

static void make(Rng& r, int type, Source& s) {
  s.type = type;
  size_t n = r.one_in(3) ? gen_nfeat(r) : r.below(8);
  ArrayStyle st; st.r = &r;
  if (is_box(type)) {
    int nd = ndim(type_dims(type)); double pn = gen_pnull(r);
    std::vector<std::pair<bool, std::vector<double>>> rows;
    for (size_t i = 0; i < n; i++) {
      std::vector<double> v(2 * nd); bool valid = !r.chance(pn);
      for (int j = 0; j < nd; j++) {
        double a = gen_double(r, r.one_in(4) ? NUM_ANY : NUM_NICE), b = r.one_in(5) ? a : gen_double(r, NUM_NICE);
        if (r.chance(0.8) && a > b) std::swap(a, b);
        if (r.one_in(10)) { a = INFINITY; b = -INFINITY; }
        v[j] = a; v[nd + j] = b;
      }
      rows.push_back({valid, v});
      Feature x; x.null = !valid;
      if (valid) {
        x.g.type = T_POLYGON; x.g.dims = D_XY;
        bool empty = false; for (int j = 0; j < nd; j++) empty |= v[j] > v[nd + j];
        if (!empty) {
          Geom ring; ring.type = T_LINESTRING; ring.dims = D_XY;
          double x0 = v[0], y0 = v[1], x1 = v[nd], y1 = v[nd + 1];
          ring.xs = {x0, y0, x1, y0, x1, y1, x0, y1, x0, y0};
          x.g.kids.push_back(ring);
        }
      }
      s.f.push_back(x);
    }
    build_box(type, rows, &s.a, &s.log, st);
  } else if (is_native(type)) {
    GenOpts o; o.num = NUM_ANY; o.budget = r.one_in(20) ? 3000 : 300; o.huge = 8000; o.big = r.chance(0.4);
    s.f = gen_features(r, type_geom(type), type_dims(type), o, n, gen_pnull(r));
    build_native(type, s.f, &s.a, &s.log, st);
  } else {
    GenOpts o; o.num = is_wkt(type) ? NUM_FINITE : NUM_ANY; o.budget = r.one_in(20) ? 3000 : 200; o.huge = 8000; o.big = r.chance(0.4);
    s.f = gen_features(r, r.one_in(2) ? (int)r.range(1, 7) : 0, 0, o, n, gen_pnull(r));
    OptStrings vals; WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); };
    for (auto& x : s.f) {
      std::string t;
      if (!x.null) { if (is_wkt(type)) wkt_tagged(x.g, t, ws); else { WkbStyle b; b.r = &r; enc_wkb(x.g, t, b); } }
      vals.push_back({!x.null, t});
    }
    build_serialized(type, vals, &s.a, &s.log, st);
  }
  s.built = true; if (r.one_in(4)) far_away(r, type, &s.a);
  s.dig = digest(&s.a);
  norm_empty_points(s.f);
}

static void expect(const Source& s, Features got, int64_t off, int64_t len, const char* how) {
  norm_empty_points(got);
  Features want(s.f.begin() + off, s.f.begin() + off + len);
  std::string why;
  REQUIRE(equal(got, want, &why), "features", "%s type %d [%lld, +%lld) of %lld: %s; wanted %s got %s", how, s.type, (long long)off, (long long)len, (long long)s.a.length, why.c_str(), show(want).c_str(), show(got).c_str());
  count("features", (uint64_t)len);
}

template <class F> static void ranges(Rng& r, const Source& s, Monitor& m, const char* how, F visit) {
  int64_t n = s.a.length;
  auto one = [&](int64_t off, int64_t len) {
    m.clear();
    int rc = visit(off, len);
    check_noted();
    REQUIRE(rc == 0, "rejected", "%s type %d [%lld, +%lld) of %lld rc %d %s", how, s.type, (long long)off, (long long)len, (long long)n, rc, m.err.message);
    REQUIRE(m.balanced(), "unbalanced", "%s type %d", how, s.type);
    expect(s, m.feats, off, len, how);
    count("ranges");
  };
  one(0, n);
  int k = (int)r.below(5);
  for (int i = 0; i < k; i++) { int64_t off = (int64_t)r.below((uint64_t)n + 1); one(off, (int64_t)r.below((uint64_t)(n - off) + 1)); }
  if (n && r.one_in(3)) for (int64_t i = 0; i < n && i < 40; i++) one(i, 1);
}

// claim a wrong number of buffers or children somewhere in the array: refused
static void misfit(Rng& r, int type, Source& s, GeoArrowArrayReader* rd, GeoArrowArrayView* av) {
  ArrowArray* n = &s.a;
  while (n->n_children && !r.one_in(3)) n = n->children[r.below((uint64_t)n->n_children)];
  bool list = is_native(type) && n->n_children == 1 && n->n_buffers == 2, leaf = n->n_children == 0; 
  bool bufs = leaf || (list && r.one_in(2)); int64_t& field = bufs ? n->n_buffers : n->n_children; int64_t was = field;
  bool view = type == (int)GEOARROW_TYPE_WKB_VIEW || type == (int)GEOARROW_TYPE_WKT_VIEW;
  if (view) field = (int64_t)r.below(3); else do field = r.one_in(2) ? (int64_t)r.below(6) : was + (r.one_in(2) ? 1 : -1); while (field == was);
  GeoArrowError e; e.message[0] = 0; int rc = av ? GeoArrowArrayViewSetArray(av, &s.a, &e) : GeoArrowArrayReaderSetArray(rd, &s.a, &e);
  REQUIRE(rc != 0, "misfit-accepted", "type %d with %lld %s instead of %lld", type, (long long)field, bufs ? "buffers" : "children", (long long)was);
  REQUIRE(strlen(e.message) < sizeof e.message, "message", "unterminated"); field = was; count("misfits");
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static std::vector<int> types;
  if (types.empty()) {
    types = all_native();
    for (int t : all_serialized()) types.push_back(t);
    for (int d = 0; d < 4; d++) types.push_back(990 + d * 1000);
  }
  int type = types[c.idx % types.size()];
  bool ser = !is_native(type) && !is_box(type), box_nd = is_box(type) && type != 990;
  bool arrow_only = ser && type != GEOARROW_TYPE_WKB && type != GEOARROW_TYPE_WKT;
  GeoArrowError err; err.message[0] = 0;
  ArrowSchema schema; bool ext = r.one_in(2);
  // a reader of the storage type needs the extension for WKT/WKB
  REQUIRE(GeoArrowSchemaInitExtension(&schema, (GeoArrowType)type) == 0, "init", "schema %d", type);
  GeoArrowArrayReader rd;
  int rc = ext ? GeoArrowArrayReaderInitFromSchema(&rd, &schema, &err) : GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)type);
  REQUIRE(rc == 0, "init", "reader of %d: %d %s", type, rc, err.message);
  GeoArrowArrayView av; bool use_view = is_native(type) || is_box(type);
  if (use_view) {
    rc = r.one_in(2) ? GeoArrowArrayViewInitFromSchema(&av, &schema, &err) : GeoArrowArrayViewInitFromType(&av, (GeoArrowType)type);
    REQUIRE(rc == 0, "init", "view of %d: %d", type, rc);
  }
  int batches = (int)r.range(1, 3);
  for (int b = 0; b < batches; b++) {
    Source s; make(r, type, s);
    crumb("type %d batch %d offset %lld: %s", type, b, (long long)s.a.offset, show(s.f).c_str());
    if (want_sample()) sample(fmt("type %d offset %lld ", type, (long long)s.a.offset) + show(s.f));
    distinct(hash_of(s.f) ^ mix64(type)); distinct(mix64(shape_of(s.f) ^ type * 31 ^ s.a.offset));
    if (r.one_in(8)) misfit(r, type, s, &rd, nullptr);
    if (use_view && r.one_in(8)) misfit(r, type, s, nullptr, &av);
    REQUIRE(GeoArrowArrayReaderSetArray(&rd, &s.a, &err) == 0, "set-array", "type %d %s", type, err.message);
    Monitor m;
    if (box_nd) {
      rc = s.a.length ? GeoArrowArrayReaderVisit(&rd, 0, s.a.length, &m.v) : ENOTSUP;
      REQUIRE(rc != 0, "box-dimensions", "box of type %d visited", type);
    } else {
      ranges(r, s, m, "reader", [&](int64_t o, int64_t l) { return GeoArrowArrayReaderVisit(&rd, o, l, &m.v); });
      const GeoArrowArrayView* pv = nullptr;
      rc = GeoArrowArrayReaderArrayView(&rd, &pv);
      REQUIRE((rc == 0) == !arrow_only, "reader-view", "type %d rc %d", type, rc);
      if (use_view && r.one_in(2)) ranges(r, s, m, "reader's view", [&](int64_t o, int64_t l) { return GeoArrowArrayViewVisitNative(pv, o, l, &m.v); });
    }
    if (use_view) {
      REQUIRE(GeoArrowArrayViewSetArray(&av, &s.a, &err) == 0, "set-array", "view %d %s", type, err.message);
      if (!box_nd) ranges(r, s, m, "view", [&](int64_t o, int64_t l) { return GeoArrowArrayViewVisitNative(&av, o, l, &m.v); });
      // what the view promises about the top level
      REQUIRE(av.length[0] == s.a.length && av.offset[0] == s.a.offset, "view-shape", "length %lld offset %lld", (long long)av.length[0], (long long)av.offset[0]);
      REQUIRE(av.validity_bitmap == (const uint8_t*)s.a.buffers[0], "view-shape", "validity bitmap");
      if (is_box(type)) {  // box views give the ordinates
        int nv = 2 * ndim(type_dims(type));
        REQUIRE(av.coords.n_values == nv && av.coords.n_coords == s.a.length, "view-shape", "%d values %lld coords", av.coords.n_values, (long long)av.coords.n_coords);
        for (int64_t i = 0; i < s.a.length; i++) for (int j = 0; j < nv; j++) {
          double x = GEOARROW_COORD_VIEW_VALUE(&av.coords, s.a.offset + i, j);
          double y = ((const double*)s.a.children[j]->buffers[1])[s.a.children[j]->offset + s.a.offset + i];
          REQUIRE(same_bits(x, y), "view-values", "box row %lld value %d", (long long)i, j);
        }
        count("box_rows", (uint64_t)s.a.length);
      }
      count("views");
    }
    REQUIRE(digest(&s.a) == s.dig, "input-changed", "type %d", type);
    count("arrays");
  }
  GeoArrowArrayReaderReset(&rd);
  schema.release(&schema);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
