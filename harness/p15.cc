// P15: conversion between encodings preserves features and coordinates.
#include "big.h"
#include "wktgen.h"
#include "wktref.h"
using namespace hz;
const char* hz_name = "p15";

static void lines(const Geom& g, int& n) {  // sequences of two kinds of parents
  if (g.type == T_LINESTRING && !g.xs.empty()) n++;
  for (auto& k : g.kids) lines(k, n);
}
static void points(const Geom& g, int& n) { if (g.type == T_POINT || g.type == T_MULTIPOINT) n++; for (auto& k : g.kids) points(k, n); }
static void seq_sizes(const Geom& g, std::vector<size_t>& n) { if (g.type == T_LINESTRING && !g.xs.empty()) n.push_back(g.xs.size() / ndim(g.dims)); for (auto& k : g.kids) seq_sizes(k, n); }
static bool bits_or_nan(double a, double b) { return same_bits(a, b) || (std::isnan(a) && std::isnan(b)); }
static bool nan_equal(Geom a, Geom b, std::string* why) { canon_nan(a); canon_nan(b); return equal(a, b, why); }

static int widen_of(int t) { return t == T_POINT ? T_MULTIPOINT : t == T_LINESTRING ? T_MULTILINESTRING : t == T_POLYGON ? T_MULTIPOLYGON : 0; }

// writes the source array
static void build_source(Rng& r, int type, const Features& f, ArrowArray* a, ReleaseLog* log) {
  ArrayStyle st; st.r = &r;
  if (is_native(type)) { build_native(type, f, a, log, st); return; }
  OptStrings vals;
  WktStyle ws = random_style(r);
  ws.num = [](double d) { return fmt("%.17g", d); };
  for (auto& x : f) {
    std::string s;
    if (!x.null) {
      if (is_wkt(type)) wkt_tagged(x.g, s, ws);
      else { WkbStyle b; b.r = &r; enc_wkb(x.g, s, b); }
    }
    vals.push_back({!x.null, s});
  }
  build_serialized(type, vals, a, log, st);
}


// a row of a native array against the feature it was made of (s: with empty points normalised)
static void expect_row(int src, int dst, const std::string& at, const Geom& orig, const Geom& s, const Geom& got) {
  std::string why; Geom g = got; norm_empty_points(g);
  int t = type_geom(dst), dd = type_dims(dst);
  Geom want = redim(s, dd); norm_empty_points(want);
  if (widen_of(s.type) == t) { Geom p; p.type = t; p.dims = dd; if (has_coords(want)) p.kids.push_back(want); want = p; }
  if (s.type == t || widen_of(s.type) == t) {
    REQUIRE(nan_equal(prune(g), prune(want), &why), "geometry", "%d -> %d %s: %s; wanted %s, got %s", src, dst, at.c_str(), why.c_str(), show(want).c_str(), show(g).c_str());
    count("exact");
  } else {  // cast: the coordinates of the row are those of the feature
    std::vector<double> x, y; flat_coords(redim(orig, dd), x); flat_coords(got, y);
    // an empty point is an all-NaN coordinate in binary and native arrays
    auto strip = [&](std::vector<double>& p) {
      size_t nd = ndim(dd), k = 0;
      for (size_t q = 0; q < p.size(); q += nd) {
        bool all = true; for (size_t j = 0; j < nd; j++) all &= std::isnan(p[q + j]);
        if (!all) { for (size_t j = 0; j < nd; j++) p[k + j] = p[q + j]; k += nd; }
      }
      p.resize(k);
    };
    strip(x); strip(y);
    bool same = x.size() == y.size();
    for (size_t k = 0; same && k < x.size(); k++) same = bits_or_nan(x[k], y[k]);
    REQUIRE(same, "coordinates", "%d -> %d %s: %s became %s", src, dst, at.c_str(), show(s).c_str(), show(got).c_str());
    count("cast");
    // ...and its lines and rings are those of the feature, one by one
    int nl = 0, np = 0; lines(s, nl); points(s, np);
    if (np == 0 && t != T_POINT && t != T_MULTIPOINT) {
      std::vector<size_t> a, b; seq_sizes(s, a); seq_sizes(got, b);
      REQUIRE(a == b, "sequences", "%d -> %d %s: %s became %s", src, dst, at.c_str(), show(s).c_str(), show(got).c_str());
      count("cast_sequences");
    }
  }
}

// the same features as geometries, appended one by one; what does not fit is refused and leaves no trace
static void appended(Rng& r, int dst, const Features& f, const Features& fs) {
  GeoArrowNativeWriter w; GeoArrowError err; err.message[0] = 0; int t = type_geom(dst);
  REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)dst) == 0, "init", "native writer %d", dst);
  std::vector<size_t> rows;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i].null) { REQUIRE(GeoArrowNativeWriterAppendNull(&w) == 0, "append-null", "%d", dst); rows.push_back(i); continue; }
    const Geom& g = f[i].g; NodeStyle st; st.r = &r; OwnedView ov = make_view(g, st);
    int rc = GeoArrowNativeWriterAppend(&w, ov.view(), &err);
    int nl = 0; lines(g, nl); size_t nc = total_coords(g);
    if (g.type == t || widen_of(g.type) == t || nc == 0) REQUIRE(rc == 0, "append-rejected", "type %d rc %d %s: %s", dst, rc, err.message, show(g).c_str());
    if ((t == T_POINT && nc > 1) || ((t == T_LINESTRING || t == T_MULTIPOINT) && nl > 1)) REQUIRE(rc != 0, "append-accepted", "type %d took %s", dst, show(g).c_str());
    if (rc == 0) rows.push_back(i); else count("append_refused");
  }
  ArrowArray out; out.release = nullptr;
  REQUIRE(GeoArrowNativeWriterFinish(&w, &out, &err) == 0, "finish", "appended to %d: %s", dst, err.message);
  Features got; Decoder d; REQUIRE(d.native(&out, dst, got), "array-structure", "appended to %d %s: %s", dst, d.why.c_str(), show(f).c_str());
  REQUIRE(got.size() == rows.size(), "length", "%zu of %zu appended to %d: %s", got.size(), rows.size(), dst, show(f).c_str());
  for (size_t k = 0; k < rows.size(); k++) {
    size_t i = rows[k]; REQUIRE(got[k].null == f[i].null, "null", "appended to %d element %zu", dst, i);
    if (!f[i].null) expect_row(0, dst, fmt("appended element %zu of %zu", i, f.size()), f[i].g, fs[i].g, got[k].g);
  }
  out.release(&out); GeoArrowNativeWriterReset(&w); count("appended_rows", rows.size());
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static const std::vector<int> nat = all_native();
  std::vector<int> ser = all_serialized();
  int src = r.one_in(2) ? r.pick(nat) : r.pick(ser);
  int dst = r.chance(0.75) ? r.pick(nat) : (int)r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT});
  bool text = is_wkt(src) || is_wkt(dst);
  GenOpts o; o.num = text ? NUM_FINITE : NUM_ANY; o.budget = r.one_in(20) ? 2000 : 200; o.big = r.chance(0.4); o.max_depth = 2;
  int gt = is_native(src) ? type_geom(src) : 0, dm = is_native(src) ? type_dims(src) : 0;
  if (!is_native(src) && is_native(dst) && r.chance(0.6)) {  // mostly something the target can hold
    gt = type_geom(dst);
    if (gt > 3 && r.one_in(2)) gt -= 3;
  }
  size_t n = r.one_in(3) ? gen_nfeat(r) : (size_t)r.range(1, 5);
  Features f = gen_features(r, gt, dm, o, n, gen_pnull(r));
  if (!is_native(src) && is_native(dst) && !f.empty() && r.one_in(4)) {  // collections of few parts
    for (auto& x : f) if (!x.null && r.one_in(2)) {
      x.g = Geom(); x.g.type = T_COLLECTION; x.g.dims = (int)r.range(1, 4);
      for (size_t k = r.below(4); k > 0; k--) { GenOpts q; q.big = false; q.num = o.num; x.g.kids.push_back(gen_geom(r, (int)r.range(1, 6), x.g.dims, q)); }
    }
  }
  distinct(mix64(src * 131 + dst)); distinct(hash_of(f)); distinct(shape_of(f));
  crumb("%d -> %d %s", src, dst, show(f).c_str());
  if (want_sample()) sample(fmt("%d -> %d ", src, dst) + show(f));
  ArrowArray a; ReleaseLog log;
  build_source(r, src, f, &a, &log); if (r.one_in(5)) far_away(r, src, &a);
  uint64_t before = digest(&a);
  GeoArrowArrayReader rd; GeoArrowArrayWriter w; GeoArrowVisitor v; GeoArrowError err; err.message[0] = 0;
  memset(&v, 0, sizeof v); v.error = &err;
  REQUIRE(GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)src) == 0, "init", "reader %d", src);
  REQUIRE(GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)dst) == 0, "init", "writer %d", dst);
  REQUIRE(GeoArrowArrayWriterInitVisitor(&w, &v) == 0, "init", "visitor");
  REQUIRE(v.error == &err, "error-pointer", "visitor init replaced the error pointer");
  REQUIRE(GeoArrowArrayReaderSetArray(&rd, &a, &err) == 0, "set-array", "%s", err.message);
  // which feature fails, if any
  size_t done = 0; int rc = 0;
  bool whole = r.one_in(2);
  if (whole) rc = GeoArrowArrayReaderVisit(&rd, 0, (int64_t)n, &v);
  else for (; done < n && rc == 0; ) { rc = GeoArrowArrayReaderVisit(&rd, (int64_t)done, 1, &v); if (!rc) done++; }
  // what the model says
  Features fs = f; norm_empty_points(fs);
  bool must_ok = true, must_fail = false; size_t first_bad = n;
  for (size_t i = 0; i < n; i++) {
    if (f[i].null) continue;
    bool holds = true, fails = false;
    if (is_native(dst)) {
      int t = type_geom(dst); const Geom& g = f[i].g;
      holds = g.type == t || widen_of(g.type) == t;
      // the all-NaN point of binary and native arrays counts as a coordinate when read
      size_t nc = total_coords(g); int nl = 0; lines(g, nl);
      if (t == T_POINT && nc > 1) fails = true;
      if ((t == T_LINESTRING || t == T_MULTIPOINT) && nl > 1) fails = true;
      if (t == T_MULTIPOINT && g.type == T_MULTIPOINT) holds = true;
    }
    if (!holds) must_ok = false;
    if (fails) { must_fail = true; if (first_bad == n) first_bad = i; }
  }
  if (must_ok) REQUIRE(rc == 0, "convertible-rejected", "%d -> %d rc %d %s: %s", src, dst, rc, err.message, show(f).c_str());
  if (must_fail) REQUIRE(rc != 0 && (whole || done <= first_bad), "unrepresentable-accepted", "%d -> %d feature %zu: %s", src, dst, first_bad, show(f[first_bad].g).c_str());
  if (rc == 0) {
    ArrowArray out; out.release = nullptr;
    rc = GeoArrowArrayWriterFinish(&w, &out, &err);
    REQUIRE(rc == 0, "finish", "%d -> %d rc %d %s", src, dst, rc, err.message);
    REQUIRE(out.length == (int64_t)n, "length", "%lld of %zu", (long long)out.length, n);
    Features got; Decoder d; bool ok = true;
    if (is_native(dst)) ok = d.native(&out, dst, got);
    else {
      OptStrings s; ok = d.serialized(&out, dst, s);
      for (size_t i = 0; ok && i < s.size(); i++) {
        Feature x; x.null = !s[i].first; std::string why;
        if (!x.null) {
          if (is_wkt(dst)) {
            // an all-NaN point of the source prints as numbers that are not WKT
            if (fs[i].g.type == 0) ok = false;
            RefWkt p(s[i].second);
            if (!p.parse(x.g)) { if (s[i].second.find("nan") == std::string::npos) fail("text", "not WKT: %s", quote(s[i].second).c_str()); x.g = fs[i].g; }
          } else if (!wkb_decode(s[i].second, x.g, why)) fail("bytes", "%s: %s", why.c_str(), hex(s[i].second.data(), s[i].second.size()).c_str());
        }
        got.push_back(x);
      }
    }
    REQUIRE(ok, "array-structure", "%d -> %d %s: %s", src, dst, d.why.c_str(), show(f).c_str());
    REQUIRE(got.size() == n, "length", "%zu of %zu", got.size(), n);
    for (size_t i = 0; i < n; i++) {
      REQUIRE(got[i].null == f[i].null, "null", "%d -> %d element %zu", src, dst, i);
      if (f[i].null) continue;
      std::string why; Geom g = got[i].g; norm_empty_points(g);
      const Geom& s = fs[i].g;
      if (is_wkt(dst)) REQUIRE(close_enough(g, s, 16, why), "geometry", "%d -> %d element %zu: %s", src, dst, i, why.c_str());
      else if (!is_native(dst)) REQUIRE(equal(g, s, &why), "geometry", "%d -> %d element %zu: %s", src, dst, i, why.c_str());
      else {
        expect_row(src, dst, fmt("element %zu of %zu", i, n), f[i].g, s, got[i].g);
      }
    }
    out.release(&out);
    count("converted");
  } else count("refused");
  if (is_native(dst) && r.one_in(2)) appended(r, dst, f, fs);
  REQUIRE(digest(&a) == before, "input-changed", "source array modified");
  GeoArrowArrayReaderReset(&rd); GeoArrowArrayWriterReset(&w);
  a.release(&a);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
