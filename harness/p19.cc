// P19: size-limited WKT output is a true prefix with bounded work.
#include "arrow_ref.h"
using namespace hz;
const char* hz_name = "p19";

static OptStrings run_writer(Rng& r, const Features& f, int prec, int flat, int64_t limit, bool random_layout, uint64_t* late) {
  GeoArrowWKTWriter w; GeoArrowVisitor v; GeoArrowError err; memset(&v, 0, sizeof v); v.error = &err;
  REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "writer");
  w.precision = prec; w.use_flat_multipoint = flat; w.max_element_size_bytes = limit;
  GeoArrowWKTWriterInitVisitor(&w, &v);
  for (size_t i = 0; i < f.size(); i++) {
    Layout L; if (random_layout) L.r = &r;
    int rc = play(&v, f[i], L);
    REQUIRE(rc == 0, "write", "limit %lld element %zu rc %d %s", (long long)limit, i, rc, show(f[i].g).c_str());
  }
  (void)late;
  ArrowArray a; a.release = nullptr;
  REQUIRE(GeoArrowWKTWriterFinish(&w, &a, &err) == 0, "finish", "finish");
  Decoder d; OptStrings got; bool ok = d.serialized(&a, GEOARROW_TYPE_WKT, got);
  a.release(&a); GeoArrowWKTWriterReset(&w);
  REQUIRE(ok, "array-structure", "%s", d.why.c_str());
  return got;
}

static std::string kv(std::initializer_list<std::pair<const char*, std::string>> l) {
  std::string o; auto i32 = [&](int32_t v) { o.append((char*)&v, 4); };
  i32((int32_t)l.size());
  for (auto& e : l) { i32((int32_t)strlen(e.first)); o += e.first; i32((int32_t)e.second.size()); o += e.second; }
  return o;
}

static OptStrings run_kernel(Rng& r, int type, const std::vector<Features>& batches, int prec, int64_t limit) {
  GeoArrowKernel k; GeoArrowError err; err.message[0] = 0;
  REQUIRE(GeoArrowKernelInit(&k, "format_wkt", NULL) == 0, "init", "kernel");
  ArrowSchema s, out; REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) == 0, "init", "schema");
  std::string opt = limit >= 0 ? kv({{"precision", std::to_string(prec)}, {"max_element_size_bytes", std::to_string(limit)}}) : kv({{"precision", std::to_string(prec)}});
  int rc = k.start(&k, &s, opt.data(), &out, &err);
  s.release(&s);
  REQUIRE(rc == 0, "kernel-start", "rc %d %s", rc, err.message);
  out.release(&out);
  OptStrings all;
  for (auto& f : batches) {
    ArrowArray a, o; ReleaseLog log; ArrayStyle st; st.r = &r;
    if (is_native(type)) build_native(type, f, &a, &log, st);
    else { OptStrings vals; for (auto& x : f) vals.push_back({!x.null, x.null ? "" : wkb_iso(x.g)}); build_serialized(type, vals, &a, &log, st); }
    rc = k.push_batch(&k, &a, &o, &err);
    a.release(&a);
    REQUIRE(rc == 0, "kernel-push", "rc %d %s", rc, err.message);
    Decoder d; OptStrings got; bool ok = d.serialized(&o, GEOARROW_TYPE_WKT, got);
    o.release(&o);
    REQUIRE(ok, "array-structure", "%s", d.why.c_str());
    REQUIRE(got.size() == f.size(), "array-length", "%zu of %zu", got.size(), f.size());
    all.insert(all.end(), got.begin(), got.end());
  }
  REQUIRE(k.finish(&k, NULL, &err) == 0, "kernel-finish", "finish");
  k.release(&k);
  return all;
}

static void compare(const OptStrings& lim, const OptStrings& full, int64_t limit, const char* how) {
  REQUIRE(lim.size() == full.size(), "array-length", "%s: %zu of %zu", how, lim.size(), full.size());
  for (size_t i = 0; i < lim.size(); i++) {
    REQUIRE(lim[i].first == full[i].first, "array-null", "%s: element %zu null differs at limit %lld", how, i, (long long)limit);
    if (!full[i].first) continue;
    std::string want = full[i].second.substr(0, std::min<size_t>(full[i].second.size(), (size_t)limit));
    REQUIRE(lim[i].second == want, "prefix", "%s: element %zu of %zu at limit %lld: %zu bytes %s, expected %zu bytes %s", how, i, lim.size(), (long long)limit, lim[i].second.size(), quote(lim[i].second).c_str(), want.size(), quote(want).c_str());
    count(want.size() < full[i].second.size() ? "cut" : "uncut");
  }
}

// Limits of many digits. One beyond every element (up to the largest 64-bit number) cuts nothing; one within a
// text of megabytes cuts exactly there.
static void far_limits(Case& c) {
  Rng& r = c.r;
  bool kern = r.one_in(2), large = c.idx % 400 == 7;
  Features f; int gt = 0, dm = 0; GenOpts o; o.num = NUM_FINITE; o.budget = 60; o.big = false;
  if (large) {
    Geom g; g.type = T_LINESTRING; g.dims = (int)r.range(1, 4);
    size_t n = 260000 + r.below(200000); int nd = ndim(g.dims);
    for (size_t i = 0; i < n * nd; i++) g.xs.push_back((double)r.range(10, 99));
    Feature ft; ft.g = g; f.push_back(ft);
  } else f = gen_features(r, gt, dm, o, 1 + r.below(4), 0.2);
  OptStrings full = kern ? run_kernel(r, GEOARROW_TYPE_WKB, {f}, 3, -1) : run_writer(r, f, 3, 1, -1, false, nullptr);
  int64_t size = 0; for (auto& x : full) size = std::max(size, (int64_t)x.second.size());
  for (int i = 0; i < (large ? 2 : 6); i++) {
    int64_t limit = large && i == 0 ? size - 1 - (int64_t)r.below(1000) : 0;
    if (!large || i) switch (r.below(6)) {
      case 0: limit = INT32_MAX - (int64_t)r.below(3); break;
      case 1: limit = ((int64_t)1 << 31) + (int64_t)r.below(3); break;
      case 2: limit = ((int64_t)(1 + r.below(20)) << 32) + (int64_t)r.below(40); break;
      case 3: limit = INT64_MAX - (int64_t)r.below(3); break;
      case 4: limit = 10000000 + (int64_t)r.below(2000000000); break;
      default: limit = 1; for (int k = 8 + (int)r.below(11); k; k--) limit *= 10; limit += (int64_t)r.below(3); break;
    }
    crumb("far limit %lld, longest %lld, %s", (long long)limit, (long long)size, kern ? "kernel" : "writer");
    OptStrings lim = kern ? run_kernel(r, GEOARROW_TYPE_WKB, {f}, 3, limit) : run_writer(r, f, 3, 1, limit, true, nullptr);
    compare(lim, full, limit, kern ? "kernel" : "writer");
    count("far_limits"); if (large) count("megabyte_texts");
  }
  distinct(hash_of(f));
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}

void hz_case(Case& c) {
  Rng& r = c.r;
  int mode = (int)r.below(10);
  if (mode == 0) {
    // work bound: one huge feature of every shape, the writer has to say stop
    int64_t limit = (int64_t)r.pick({(int64_t)0, (int64_t)1, (int64_t)20, (int64_t)100, (int64_t)300, (int64_t)1000, (int64_t)4000});
    Geom g; g.type = (int)r.pick({2, 3, 4, 5, 6, 7}); g.dims = (int)r.range(1, 4);
    int nd = ndim(g.dims); size_t n = 4000 + (size_t)limit * 4;
    auto seq = [&](int t, size_t cnt) { Geom s; s.type = t; s.dims = g.dims; s.xs.assign(cnt * nd, 1.5); return s; };
    bool empty = r.one_in(3);
    switch (g.type) {
      case T_LINESTRING: g = seq(T_LINESTRING, n); break;
      case T_POLYGON: case T_MULTILINESTRING: for (size_t i = 0; i < n; i++) g.kids.push_back(seq(T_LINESTRING, empty ? 0 : 1)); break;
      case T_MULTIPOINT: for (size_t i = 0; i < n; i++) g.kids.push_back(seq(T_POINT, empty ? 0 : 1)); break;
      case T_MULTIPOLYGON: for (size_t i = 0; i < n; i++) { Geom p; p.type = T_POLYGON; p.dims = g.dims; if (!empty) p.kids.push_back(seq(T_LINESTRING, 1)); g.kids.push_back(p); } break;
      default: for (size_t i = 0; i < n; i++) g.kids.push_back(empty ? seq(T_POINT, 0) : seq(T_POINT, 1));
    }
    GeoArrowWKTWriter w; GeoArrowVisitor v; GeoArrowError err; memset(&v, 0, sizeof v); v.error = &err;
    REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "writer");
    w.use_flat_multipoint = r.one_in(2); w.max_element_size_bytes = limit;
    GeoArrowWKTWriterInitVisitor(&w, &v);
    // play event by event and count what was accepted
    struct Counting { GeoArrowVisitor v; GeoArrowVisitor* in; uint64_t n; } cv;
    memset(&cv, 0, sizeof cv); cv.in = &v;
#define FWD(name) cv.v.name = [](GeoArrowVisitor* q) { Counting* k = (Counting*)q->private_data; k->n++; return k->in->name(k->in); }
    FWD(feat_start); FWD(null_feat); FWD(ring_start); FWD(ring_end); FWD(geom_end); FWD(feat_end);
    cv.v.geom_start = [](GeoArrowVisitor* q, GeoArrowGeometryType t, GeoArrowDimensions d) { Counting* k = (Counting*)q->private_data; k->n++; return k->in->geom_start(k->in, t, d); };
    cv.v.coords = [](GeoArrowVisitor* q, const GeoArrowCoordView* x) { Counting* k = (Counting*)q->private_data; k->n++; return k->in->coords(k->in, x); };
    cv.v.private_data = &cv;
    bool stopped = false;
    int rc = cv.v.feat_start(&cv.v);
    Layout L; L.r = &r;
    if (!rc && g.type == T_LINESTRING && r.one_in(2)) {
      // one call whose view promises more coordinates than there are: those behind the limit must not be touched
      // (every coordinate takes at least four bytes of text)
      size_t have = (size_t)limit + 256; std::vector<double*> cols; GeoArrowCoordView cvw; memset(&cvw, 0, sizeof cvw);
      bool inter = r.one_in(2);
      cvw.n_values = nd; cvw.coords_stride = inter ? nd : 1; cvw.n_coords = (int64_t)have * 50;
      for (int i = 0; i < (inter ? 1 : nd); i++) { double* p = (double*)raw_malloc(have * 8 * (inter ? nd : 1)); for (size_t k = 0; k < have * (inter ? nd : 1); k++) p[k] = 1.5; cols.push_back(p); }
      for (int i = 0; i < nd; i++) cvw.values[i] = inter ? cols[0] + i : cols[i];
      rc = cv.v.geom_start(&cv.v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (GeoArrowDimensions)g.dims);
      if (!rc) rc = cv.v.coords(&cv.v, &cvw);
      if (!rc) rc = cv.v.geom_end(&cv.v);
      for (double* p : cols) raw_free(p);
      count("beyond_limit_views");
    } else if (!rc && g.type == T_LINESTRING && r.one_in(2)) {  // one coordinate per call
      rc = cv.v.geom_start(&cv.v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (GeoArrowDimensions)g.dims);
      std::vector<double> one(g.xs.begin(), g.xs.begin() + nd); Layout P;
      for (size_t i = 0; i < n && !rc; i++) rc = play_coords(&cv.v, one, g.dims, P);
      if (!rc) rc = cv.v.geom_end(&cv.v);
    } else if (!rc) rc = play_geom(&cv.v, g, L);
    if (rc == EAGAIN) { stopped = true; rc = cv.v.feat_end(&cv.v); }
    REQUIRE(rc == 0, "write", "rc %d", rc);
    // every event adds at least one byte of text or closes something that did
    REQUIRE(stopped && cv.n <= (uint64_t)(4 * limit + 64), "unbounded", "limit %lld: %llu events of type %d (%s members) consumed, %s", (long long)limit, (unsigned long long)cv.n, g.type, empty ? "empty" : "one-coordinate", stopped ? "then stopped" : "never stopped");
    ArrowArray a; a.release = nullptr;
    REQUIRE(GeoArrowWKTWriterFinish(&w, &a, &err) == 0, "finish", "finish");
    REQUIRE(((const int32_t*)a.buffers[1])[1] <= limit, "prefix", "element of %d bytes at limit %lld", ((const int32_t*)a.buffers[1])[1], (long long)limit);
    a.release(&a); GeoArrowWKTWriterReset(&w);
    distinct(mix64(g.type * 1000 + g.dims * 100 + limit + empty)); count("bounded");
    return;
  }
  if (c.idx % 40 == 7) { far_limits(c); return; }
  GenOpts o; o.num = r.one_in(2) ? NUM_FINITE : NUM_NICE; o.budget = 600; o.big = r.chance(0.5);
  int type = 0; int gt = 0, dm = 0;
  bool kern = mode < 5;
  if (kern) { if (r.one_in(2)) { std::vector<int> all = all_native(); type = r.pick(all); gt = type_geom(type); dm = type_dims(type); } else type = (int)r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB}); }
  size_t n = r.one_in(3) ? gen_nfeat(r) : r.below(6);
  Features f = gen_features(r, gt, dm, o, n, r.pick({0.0, 0.2, 0.5}));
  int prec = (int)r.range(0, 16), flat = kern ? 1 : r.one_in(2);
  crumb("type %d precision %d %s", type, prec, show(f).c_str());
  if (want_sample()) sample(show(f));
  distinct(hash_of(f)); distinct(shape_of(f));
  std::vector<Features> batches{f};
  if (kern && n > 1 && r.one_in(2)) { size_t cut = r.below(n + 1); batches = {Features(f.begin(), f.begin() + cut), Features(f.begin() + cut, f.end())}; }
  OptStrings full = kern ? run_kernel(r, type, batches, prec, -1) : run_writer(r, f, prec, flat, -1, false, nullptr);
  size_t longest = 0; for (auto& x : full) longest = std::max(longest, x.second.size());
  for (int i = 0; i < 4; i++) {
    int64_t limit = r.one_in(5) ? (int64_t)r.below(3) : (int64_t)r.below((r.one_in(2) ? 60 : longest + 5) + 1);
    if (!full.empty() && r.one_in(3)) limit = (int64_t)full[r.below(full.size())].second.size() + r.range(-1, 1);
    if (limit < 0) limit = 0;
    OptStrings lim = kern ? run_kernel(r, type, batches, prec, limit) : run_writer(r, f, prec, flat, limit, true, nullptr);
    compare(lim, full, limit, kern ? "kernel" : "writer");
    count(kern ? "kernel_runs" : "writer_runs");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
