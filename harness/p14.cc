// P14: visitor protocol: well-nested events; errors and early stop propagate.
#include "arrow_ref.h"
#include "wktgen.h"
#include <functional>
using namespace hz;
const char* hz_name = "p14";

// An object that can be asked to visit into a visitor any number of times
struct Producer {
  std::string name;
  std::function<int(GeoArrowVisitor*)> visit;          // everything
  std::function<int(GeoArrowVisitor*, int64_t)> one;   // feature i (may be empty)
  std::function<void()> done;
  Features f; bool accepts = true;                     // accepts: the input is well formed
};

static void init_visitor_case(Rng& r) {
  // the contract: initialising a visitor leaves the caller's error pointer
  GeoArrowError err; GeoArrowVisitor v; memset(&v, 0, sizeof v); v.error = &err;
  int which = (int)r.below(7);
  GeoArrowVisitorInitVoid(&v);
  // (void visitors have no object: nothing is promised but that they accept anything)
  v.error = &err;
  count("init_visitor"); distinct(mix64(which + 9000));
  switch (which) {
    case 0: { GeoArrowGeometry g; REQUIRE(GeoArrowGeometryInit(&g) == 0, "init", "geometry"); GeoArrowGeometryInitVisitor(&g, &v); GeoArrowGeometryReset(&g);
      REQUIRE(v.error == &err, "error-pointer-geometry", "GeoArrowGeometryInitVisitor"); break; }
    case 1: { GeoArrowWKTWriter w; REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "wkt"); GeoArrowWKTWriterInitVisitor(&w, &v); GeoArrowWKTWriterReset(&w);
      REQUIRE(v.error == &err, "error-pointer-wkt-writer", "GeoArrowWKTWriterInitVisitor() replaces the caller's error pointer"); break; }
    case 2: { GeoArrowWKBWriter w; REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "wkb"); GeoArrowWKBWriterInitVisitor(&w, &v); GeoArrowWKBWriterReset(&w);
      REQUIRE(v.error == &err, "error-pointer-wkb-writer", "GeoArrowWKBWriterInitVisitor() replaces the caller's error pointer"); break; }
    case 3: { GeoArrowNativeWriter w; int t = r.pick(all_native()); REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)t) == 0, "init", "native"); 
      REQUIRE(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "native visitor"); GeoArrowNativeWriterReset(&w);
      REQUIRE(v.error == &err, "error-pointer-native-writer", "GeoArrowNativeWriterInitVisitor type %d", t); break; }
    default: { GeoArrowArrayWriter w; int t = which == 4 ? GEOARROW_TYPE_WKT : which == 5 ? GEOARROW_TYPE_WKB : r.pick(all_native());
      REQUIRE(GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)t) == 0, "init", "array writer");
      REQUIRE(GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "init", "visitor"); GeoArrowArrayWriterReset(&w);
      REQUIRE(v.error == &err, "error-pointer-array-writer", "GeoArrowArrayWriterInitVisitor type %d", t); break; }
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}

static void mutate(Rng& r, std::string& s) {
  for (int i = (int)r.range(1, 3); i > 0 && !s.empty(); i--) {
    size_t p = r.below(s.size());
    switch (r.below(4)) {
      case 0: s[p] = (char)r.below(256); break;
      case 1: s[p] = (char)r.below(8); break;
      case 2: s.erase(p, 1 + r.below(4)); break;
      default: s.insert(p, 1, (char)r.below(128));
    }
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (c.idx % 40 == 0) return init_visitor_case(r);
  Producer P;
  int kind = (int)r.below(6);
  GeoArrowWKBReader wkb; GeoArrowWKTReader wkt; GeoArrowArrayReader ar; GeoArrowGeometry geom;
  Exact bytes; OwnedView ov; ArrowArray arr; arr.release = nullptr; ReleaseLog log; GeoArrowError perr;
  GenOpts o; o.num = NUM_FINITE; o.budget = r.one_in(10) ? 1500 : 120; o.big = r.chance(0.3); o.max_depth = 3;
  bool hostile = kind < 2 && r.one_in(3);
  if (kind == 0) {
    P.f = gen_features(r, 0, 0, o, 1, 0); std::string s; WkbStyle b; b.r = &r; enc_wkb(P.f[0].g, s, b);
    if (hostile) mutate(r, s);
    bytes.assign(s.data(), s.size());
    REQUIRE(GeoArrowWKBReaderInit(&wkb) == 0, "init", "wkb reader");
    P.name = "WKB reader"; P.done = [&] { GeoArrowWKBReaderReset(&wkb); };
    P.visit = [&](GeoArrowVisitor* v) { GeoArrowBufferView w; w.data = bytes.p; w.size_bytes = (int64_t)bytes.n; return GeoArrowWKBReaderVisit(&wkb, w, v); };
  } else if (kind == 1) {
    P.f = gen_features(r, 0, 0, o, 1, 0); std::string s; WktStyle ws = random_style(r); wkt_tagged(P.f[0].g, s, ws);
    if (hostile) mutate(r, s);
    bytes.assign(s.data(), s.size());
    REQUIRE(GeoArrowWKTReaderInit(&wkt) == 0, "init", "wkt reader");
    P.name = "WKT reader"; P.done = [&] { GeoArrowWKTReaderReset(&wkt); };
    P.visit = [&](GeoArrowVisitor* v) { GeoArrowStringView w; w.data = (const char*)bytes.p; w.size_bytes = (int64_t)bytes.n; return GeoArrowWKTReaderVisit(&wkt, w, v); };
  } else if (kind == 2) {
    P.f = gen_features(r, 0, 0, o, 1, 0);
    bool owned = r.one_in(2); NodeStyle ns; ns.r = &r; ov = make_view(P.f[0].g, ns);
    REQUIRE(GeoArrowGeometryInit(&geom) == 0, "init", "geometry");
    P.done = [&] { GeoArrowGeometryReset(&geom); };
    if (owned) {
      REQUIRE(GeoArrowGeometryDeepCopy(ov.view(), &geom) == 0, "init", "copy");
      P.name = "geometry"; P.visit = [&](GeoArrowVisitor* v) { return GeoArrowGeometryVisit(&geom, v); };
    } else { P.name = "geometry view"; P.visit = [&](GeoArrowVisitor* v) { return GeoArrowGeometryViewVisit(ov.view(), v); }; }
  } else {
    std::vector<int> types = kind == 3 ? all_native() : kind == 4 ? all_serialized() : std::vector<int>{990};
    int type = r.pick(types);
    size_t n = r.below(7); ArrayStyle st; st.r = &r;
    if (kind == 3) { o.num = NUM_ANY; P.f = gen_features(r, type_geom(type), type_dims(type), o, n, 0.2); build_native(type, P.f, &arr, &log, st); }
    else if (kind == 4) {
      P.f = gen_features(r, 0, 0, o, n, 0.2); OptStrings vals; WktStyle ws = random_style(r);
      for (auto& x : P.f) { std::string s; if (!x.null) { if (is_wkt(type)) wkt_tagged(x.g, s, ws); else { WkbStyle b; b.r = &r; enc_wkb(x.g, s, b); } } vals.push_back({!x.null, s}); }
      build_serialized(type, vals, &arr, &log, st);
    } else {
      std::vector<std::pair<bool, std::vector<double>>> rows;
      for (size_t i = 0; i < n; i++) { double a = (double)r.range(-5, 5), b = (double)r.range(-5, 5); rows.push_back({!r.one_in(5), {a, b, a + (double)r.range(-1, 3), b + (double)r.range(0, 3)}}); }
      build_box(type, rows, &arr, &log, st);
    }
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "reader");
    REQUIRE(GeoArrowArrayReaderSetArray(&ar, &arr, &perr) == 0, "init", "set array");
    P.name = fmt("array reader of %d", type);
    P.done = [&] { GeoArrowArrayReaderReset(&ar); arr.release(&arr); };
    P.visit = [&](GeoArrowVisitor* v) { return GeoArrowArrayReaderVisit(&ar, 0, arr.length, v); };
    P.one = [&](GeoArrowVisitor* v, int64_t i) { return GeoArrowArrayReaderVisit(&ar, i, 1, v); };
  }
  crumb("%s%s %s", P.name.c_str(), hostile ? " (mutated)" : "", show(P.f).c_str());
  if (want_sample()) sample(P.name + " " + show(P.f));
  // 1. the whole input: grammar
  Monitor m; m.strict = !hostile;
  int rc = P.visit(&m.v);
  check_noted();
  bool ok = rc == 0;
  if (!hostile) REQUIRE(ok, "rejected", "%s rc %d %s", P.name.c_str(), rc, m.err.message);
  if (ok) REQUIRE(m.balanced(), "unbalanced", "%s", P.name.c_str());
  Features clean = m.feats; uint64_t trace = m.trace; int64_t n = m.n_events;
  distinct(trace); count("events", (uint64_t)n); count(ok ? "visited" : "rejected");
  // 2. a failing callback at every event
  std::vector<int64_t> ks;
  if (n <= 48) for (int64_t k = 0; k < n; k++) ks.push_back(k);
  else for (int i = 0; i < 24; i++) ks.push_back((int64_t)r.below((uint64_t)n));
  static const int codes[] = {EAGAIN, EINVAL, ENOMEM, ENOTSUP, 1, -1, 12345, EIO};
  for (int64_t k : ks) {
    Monitor q; q.strict = !hostile; q.fail_at = k; q.fail_code = codes[r.below(8)];
    rc = P.visit(&q.v);
    check_noted();
    REQUIRE(q.did_fail, "event-missing", "%s: only %lld of %lld events the second time", P.name.c_str(), (long long)q.n_events, (long long)n);
    REQUIRE(rc == q.fail_code, "return-code", "%s: callback returned %d at event %lld of %lld, reader %d", P.name.c_str(), q.fail_code, (long long)k, (long long)n, rc);
    REQUIRE(q.after_fail == 0, "event-after-error", "%s: %lld callbacks after event %lld of %lld returned %d", P.name.c_str(), (long long)q.after_fail, (long long)k, (long long)n, q.fail_code);
    count("faults"); distinct(mix64(trace ^ (uint64_t)k * 3));
  }
  // 3. early stop of single features; the caller ends the feature and goes on
  if (P.one && arr.length) {
    Monitor q; q.strict = false;
    Features want; 
    for (int64_t i = 0; i < arr.length; i++) {
      q.fail_at = -1; q.n_events = 0; q.did_fail = false;
      if (r.one_in(2)) { q.fail_at = (int64_t)r.range(1, 12); q.fail_code = EAGAIN; }
      size_t before = q.feats.size();
      rc = P.one(&q.v, i);
      bool stopped = q.did_fail;
      REQUIRE(rc == (stopped ? EAGAIN : 0), "return-code", "%s feature %lld rc %d", P.name.c_str(), (long long)i, rc);
      if (stopped) {
        REQUIRE(q.after_fail == 0, "event-after-error", "%s feature %lld", P.name.c_str(), (long long)i);
        if (q.in_feat) { q.fail_at = -1; q.v.feat_end(&q.v); q.after_fail = 0; }
        q.stack.clear(); q.in_ring = false;
        count("stopped");
      }
      check_noted();
      REQUIRE(q.feats.size() == before + 1, "feature-count", "%s feature %lld gave %zu features", P.name.c_str(), (long long)i, q.feats.size() - before);
      if (!stopped) { std::string why; REQUIRE(equal(Features{q.feats.back()}, Features{clean[(size_t)i]}, &why), "feature-differs", "%s feature %lld after a stopped one: %s", P.name.c_str(), (long long)i, why.c_str()); }
    }
  }
  // 4. the same input once more: nothing of the failures is left
  Monitor z; z.strict = !hostile; rc = P.visit(&z.v);
  check_noted();
  REQUIRE((rc == 0) == ok && z.trace == trace, "not-repeatable", "%s rc %d", P.name.c_str(), rc);
  std::string why; if (ok) REQUIRE(equal(z.feats, clean, &why), "not-repeatable", "%s: %s", P.name.c_str(), why.c_str());
  P.done();
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
