// The model: features as plain trees of coordinates, plus generators.
#ifndef HZ_GEOM_H
#define HZ_GEOM_H
#include <cmath>
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include "rt.h"

namespace hz {

enum { T_POINT = 1, T_LINESTRING, T_POLYGON, T_MULTIPOINT, T_MULTILINESTRING, T_MULTIPOLYGON, T_COLLECTION };
enum { D_XY = 1, D_XYZ, D_XYM, D_XYZM };
inline int ndim(int dims) { return dims == D_XY ? 2 : dims == D_XYZM ? 4 : 3; }

struct Geom {
  int type = 0;
  int dims = D_XY;
  std::vector<double> xs;      // POINT / LINESTRING: row-major ordinates
  std::vector<Geom> kids;      // POLYGON: rings as LINESTRING; others: members
  size_t ncoords() const { return xs.size() / ndim(dims); }
};
struct Feature {
  bool null = false;
  Geom g;
};
using Features = std::vector<Feature>;

inline bool is_seq(int type) { return type == T_POINT || type == T_LINESTRING; }

inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

inline bool equal(const Geom& a, const Geom& b, std::string* why = nullptr) {
  if (a.type != b.type) { if (why) *why = fmt("type %d vs %d", a.type, b.type); return false; }
  if (a.dims != b.dims) { if (why) *why = fmt("dims %d vs %d", a.dims, b.dims); return false; }
  if (a.xs.size() != b.xs.size()) { if (why) *why = fmt("%zu vs %zu ordinates (type %d)", a.xs.size(), b.xs.size(), a.type); return false; }
  for (size_t i = 0; i < a.xs.size(); i++)
    if (!same_bits(a.xs[i], b.xs[i])) { if (why) *why = fmt("ordinate %zu: %.17g (%s) vs %.17g (%s)", i, a.xs[i], hex(&a.xs[i], 8).c_str(), b.xs[i], hex(&b.xs[i], 8).c_str()); return false; }
  if (a.kids.size() != b.kids.size()) { if (why) *why = fmt("%zu vs %zu children (type %d)", a.kids.size(), b.kids.size(), a.type); return false; }
  for (size_t i = 0; i < a.kids.size(); i++)
    if (!equal(a.kids[i], b.kids[i], why)) { if (why) *why = fmt("[%zu]", i) + *why; return false; }
  return true;
}
inline bool equal(const Features& a, const Features& b, std::string* why = nullptr) {
  if (a.size() != b.size()) { if (why) *why = fmt("%zu vs %zu features", a.size(), b.size()); return false; }
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].null != b[i].null) { if (why) *why = fmt("feature %zu null %d vs %d", i, a[i].null, b[i].null); return false; }
    if (!a[i].null && !equal(a[i].g, b[i].g, why)) { if (why) *why = fmt("feature %zu: ", i) + *why; return false; }
  }
  return true;
}

inline void hash_into(const Geom& g, uint64_t& h) {
  int v[4] = {g.type, g.dims, (int)g.xs.size(), (int)g.kids.size()};
  h = fnv(v, sizeof v, h);
  h = fnv(g.xs.data(), g.xs.size() * 8, h);
  for (auto& k : g.kids) hash_into(k, h);
}
inline uint64_t hash_of(const Geom& g) { uint64_t h = 7; hash_into(g, h); return h; }
inline uint64_t hash_of(const Features& f) {
  uint64_t h = 11;
  for (auto& x : f) { int n = x.null; h = fnv(&n, 4, h); if (!n) hash_into(x.g, h); }
  return h;
}
// shape only: what makes a case structurally new
inline void shape_into(const Geom& g, uint64_t& h) {
  int v[4] = {g.type, g.dims, (int)g.xs.size(), (int)g.kids.size()};
  h = fnv(v, sizeof v, h);
  for (auto& k : g.kids) shape_into(k, h);
}
inline uint64_t shape_of(const Features& f) {
  uint64_t h = 13;
  for (auto& x : f) { int n = x.null; h = fnv(&n, 4, h); if (!n) shape_into(x.g, h); }
  return h;
}

inline std::string show(const Geom& g) {
  static const char* n[] = {"?", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "COLLECTION"};
  static const char* d[] = {"?", "", "Z", "M", "ZM"};
  std::string s = std::string(g.type >= 0 && g.type < 8 ? n[g.type] : "??") + (g.dims >= 0 && g.dims < 5 ? d[g.dims] : "??") + "(";
  if (is_seq(g.type)) {
    for (size_t i = 0; i < g.xs.size() && i < 12; i++) s += fmt("%s%.17g", i ? " " : "", g.xs[i]);
    if (g.xs.size() > 12) s += fmt("..%zu", g.xs.size());
  }
  for (size_t i = 0; i < g.kids.size() && s.size() < 600; i++) s += (i ? "," : "") + show(g.kids[i]);
  return s + ")";
}
inline std::string show(const Features& f) {
  std::string s;
  for (auto& x : f) { s += x.null ? "null; " : show(x.g) + "; "; if (s.size() > 700) { s += ".."; break; } }
  return s;
}

// A POINT whose single coordinate is all NaN is how binary encodings spell
// the empty point; normalise to no coordinate.
inline void norm_empty_points(Geom& g) {
  if (g.type == T_POINT && !g.xs.empty()) {
    bool all = true;
    for (double v : g.xs) all = all && std::isnan(v);
    if (all) g.xs.clear();
  }
  for (auto& k : g.kids) norm_empty_points(k);
}
inline void norm_empty_points(Features& f) { for (auto& x : f) norm_empty_points(x.g); }
inline void canon_nan(Geom& g) {
  for (double& v : g.xs) if (std::isnan(v)) v = std::numeric_limits<double>::quiet_NaN();
  for (auto& k : g.kids) canon_nan(k);
}

inline void flat_coords(const Geom& g, std::vector<double>& out) {
  out.insert(out.end(), g.xs.begin(), g.xs.end());
  for (auto& k : g.kids) flat_coords(k, out);
}
inline size_t total_coords(const Geom& g) {
  size_t n = is_seq(g.type) ? g.ncoords() : 0;
  for (auto& k : g.kids) n += total_coords(k);
  return n;
}

// without parts that hold no coordinate
inline bool has_coords(const Geom& g) {
  if (!g.xs.empty()) return true;
  for (auto& k : g.kids) if (has_coords(k)) return true;
  return false;
}
inline Geom prune(const Geom& g) {
  Geom o; o.type = g.type; o.dims = g.dims; o.xs = g.xs;
  for (auto& k : g.kids) if (has_coords(k)) o.kids.push_back(prune(k));
  return o;
}
inline Features prune(Features f) { for (auto& x : f) x.g = prune(x.g); return f; }

// ---- generators -----------------------------------------------------------
enum NumKind { NUM_ANY, NUM_FINITE, NUM_NICE, NUM_NO_NAN };
inline double gen_double(Rng& r, NumKind k) {
  Neutral neutral;
  for (;;) {
    double v;
    switch (r.below(k == NUM_NICE ? 4 : 9)) {
      case 0: v = (double)r.range(-10, 10); break;
      case 1: v = (double)r.range(-180000, 180000) / 1000.0; break;
      case 2: v = (double)r.range(-1000000, 1000000); break;
      case 3: v = (double)r.range(-90, 90) + (double)r.below(16) / 16.0; break;
      case 4: { uint64_t b = r.next(); memcpy(&v, &b, 8); break; }
      case 5: v = r.pick({0.0, -0.0, 1e-300, -1e300, 5e-324, 1.7976931348623157e308, 1e17, 1e16, 123456789012345680.0, 0.1, 1.0 / 3, 1e21, -1e-7}); break;
      case 6: v = r.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -0.0}); break;
      case 7: { uint64_t b = r.next(); int e = (int)r.range(-20, 20); v = (double)(int64_t)b * std::pow(10.0, e) / 9.2e18; break; }
      default: { uint64_t b = 0x7ff0000000000000ULL | (r.next() & 0x800fffffffffffffULL); memcpy(&v, &b, 8); break; }  // NaN payloads, inf
    }
    if (k == NUM_ANY) return v;
    if (k == NUM_NO_NAN) { if (!std::isnan(v)) return v; continue; }
    if (std::isfinite(v)) return v;
  }
}

struct GenOpts {
  NumKind num = NUM_FINITE;
  bool empties = true;
  int max_depth = 4;        // of collections
  int budget = 2500;        // coordinates
  bool big = true;          // allow sizes around internal boundaries
  bool nan_point_ok = true; // allow a non-empty point to be all NaN
  size_t huge = 0;          // one in so many collections of features is beyond 16-bit counts
};

inline size_t gen_len(Rng& r, const GenOpts& o, size_t min0) {
  size_t n;
  uint64_t k = r.below(40);
  if (!o.big || k < 34) n = r.below(6);
  else if (k < 39) n = r.pick({(size_t)63, (size_t)64, (size_t)65, (size_t)95, (size_t)96, (size_t)97, (size_t)127, (size_t)128, (size_t)129, (size_t)191, (size_t)192, (size_t)193, (size_t)8, (size_t)16, (size_t)17, (size_t)31, (size_t)32, (size_t)33});
  else n = r.pick({(size_t)255, (size_t)256, (size_t)257, (size_t)383, (size_t)384, (size_t)385, (size_t)512, (size_t)1000, (size_t)700});
  if (n > (size_t)o.budget) n = r.below(4);
  return n < min0 ? min0 : n;
}

inline Geom gen_seq(Rng& r, int type, int dims, GenOpts& o) {
  Geom g; g.type = type; g.dims = dims;
  size_t n;
  if (type == T_POINT) n = (o.empties && r.one_in(6)) ? 0 : 1;
  else n = gen_len(r, o, o.empties ? 0 : 1);
  o.budget -= (int)n;
  g.xs.resize(n * ndim(dims));
  for (double& v : g.xs) v = gen_double(r, o.num);
  if (type == T_POINT && n == 1) {
    bool all = true;
    for (double v : g.xs) all = all && std::isnan(v);
    if (all) g.xs[0] = 1;
  }
  return g;
}

inline Geom gen_geom_in(Rng& r, int type, int dims, GenOpts& o, int depth) {
  if (is_seq(type)) return gen_seq(r, type, dims, o);
  Geom g; g.type = type; g.dims = dims;
  size_t n = 0;
  if (!(o.empties && r.one_in(6))) {
    n = 1 + r.below(4);
    if (o.big && r.one_in(60) && o.budget > 400) n = r.pick({(size_t)31, (size_t)32, (size_t)33, (size_t)64, (size_t)65, (size_t)130});
  }
  for (size_t i = 0; i < n; i++) {
    if (o.budget < 0) { if (o.empties || i > 0) break; }
    switch (type) {
      case T_POLYGON: case T_MULTILINESTRING: g.kids.push_back(gen_seq(r, T_LINESTRING, dims, o)); break;
      case T_MULTIPOINT: g.kids.push_back(gen_seq(r, T_POINT, dims, o)); break;
      case T_MULTIPOLYGON: g.kids.push_back(gen_geom_in(r, T_POLYGON, dims, o, depth)); break;
      default: {
        int t = (int)r.range(1, depth < o.max_depth ? 7 : 6);
        g.kids.push_back(gen_geom_in(r, t, dims, o, depth + 1));
      }
    }
  }
  return g;
}
inline Geom gen_geom(Rng& r, int type, int dims, GenOpts o = GenOpts()) { return gen_geom_in(r, type, dims, o, 0); }
inline Geom gen_any(Rng& r, GenOpts o = GenOpts()) { return gen_geom(r, (int)r.range(1, 7), (int)r.range(1, 4), o); }

// a chain of nested collections ending in a small geometry; nesting == number of
// enclosing collections
inline Geom gen_nested(Rng& r, int nesting, int dims, GenOpts o = GenOpts()) {
  Geom g = gen_geom(r, (int)r.range(1, 6), dims, o);
  for (int i = 0; i < nesting; i++) {
    Geom p; p.type = T_COLLECTION; p.dims = dims;
    if (r.one_in(5)) p.kids.push_back(gen_seq(r, T_POINT, dims, o));
    p.kids.push_back(std::move(g));
    if (r.one_in(5)) p.kids.push_back(gen_seq(r, T_LINESTRING, dims, o));
    g = std::move(p);
  }
  return g;
}

// more than 16-bit counts of coordinates, members or rows
inline size_t huge_len(Rng& r) { return r.pick({(size_t)32767, (size_t)32768, (size_t)32769, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)66000}); }
inline Geom gen_huge(Rng& r, int type, int dims) {
  Geom g; g.type = type; g.dims = dims;
  auto seq = [&](int t, size_t n) { Geom s; s.type = t; s.dims = dims; s.xs.resize(n * (size_t)ndim(dims)); for (double& v : s.xs) v = (double)r.below(2000) - 1000; return s; };
  if (type == T_POINT) return seq(type, 1);
  if (type == T_LINESTRING) return seq(type, huge_len(r));
  if (type != T_MULTIPOINT && type != T_COLLECTION && r.one_in(2)) {
    g.kids.push_back(seq(T_LINESTRING, r.below(5))); g.kids.push_back(seq(T_LINESTRING, huge_len(r))); if (r.one_in(2)) g.kids.push_back(seq(T_LINESTRING, r.below(5)));
    if (type == T_MULTIPOLYGON) { for (auto& k : g.kids) { Geom q; q.type = T_POLYGON; q.dims = dims; q.kids.push_back(std::move(k)); k = std::move(q); } }
    return g;
  }
  for (size_t i = 0, n = huge_len(r); i < n; i++) {
    if (type == T_MULTIPOLYGON) { Geom q; q.type = T_POLYGON; q.dims = dims; if (r.one_in(4)) q.kids.push_back(seq(T_LINESTRING, r.below(3))); g.kids.push_back(std::move(q)); }
    else g.kids.push_back(seq(type == T_MULTIPOINT || type == T_COLLECTION ? T_POINT : T_LINESTRING, type == T_MULTIPOINT || type == T_COLLECTION ? 1 : r.below(3)));
  }
  return g;
}

inline Features gen_features(Rng& r, int type /*0 any*/, int dims /*0 any*/, GenOpts o, size_t n, double p_null) {
  Features f(n);
  for (auto& x : f) {
    if (r.chance(p_null)) { x.null = true; continue; }
    x.g = gen_geom_in(r, type ? type : (int)r.range(1, 7), dims ? dims : (int)r.range(1, 4), o, 0);
    if (o.budget < 0) o.big = false, o.budget = 50;
  }
  if (o.huge && r.one_in(o.huge)) {
    if (r.one_in(4)) {  // rows
      size_t k = huge_len(r); int d = dims ? dims : (int)r.range(1, 4);
      while (f.size() < k) { f.emplace_back(); if (r.chance(p_null)) f.back().null = true; else { GenOpts q = o; q.big = false; q.budget = 2; f.back().g = gen_geom_in(r, type ? type : T_POINT, d, q, o.max_depth); } }
    } else {
      Feature x; x.g = gen_huge(r, type ? type : (int)r.range(2, 7), dims ? dims : (int)r.range(1, 4));
      f.insert(f.begin() + (long)r.below(f.size() + 1), x);
    }
  }
  return f;
}
inline size_t gen_nfeat(Rng& r) {
  uint64_t k = r.below(20);
  if (k < 14) return r.below(7);
  if (k < 19) return r.pick({(size_t)7, (size_t)8, (size_t)9, (size_t)15, (size_t)16, (size_t)17, (size_t)24, (size_t)33});
  return r.pick({(size_t)63, (size_t)64, (size_t)65, (size_t)100, (size_t)129});
}
inline double gen_pnull(Rng& r) { return r.pick({0.0, 0.0, 0.1, 0.3, 0.5, 1.0}); }

// change dims: missing -> NaN, extra dropped (as the library documents)
inline Geom redim(const Geom& g, int dims) {
  Geom o; o.type = g.type; o.dims = dims;
  int sd = ndim(g.dims), dd = ndim(dims);
  auto pos = [](int d, int which) {  // which: 0 x,1 y,2 z,3 m
    if (which < 2) return which;
    if (which == 2) return d == D_XYZ || d == D_XYZM ? 2 : -1;
    return d == D_XYM ? 2 : d == D_XYZM ? 3 : -1;
  };
  size_t n = is_seq(g.type) ? g.xs.size() / sd : 0;
  o.xs.resize(n * dd);
  for (size_t i = 0; i < n; i++)
    for (int w = 0; w < 4; w++) {
      int dp = pos(dims, w), sp = pos(g.dims, w);
      if (dp < 0) continue;
      o.xs[i * dd + dp] = sp < 0 ? std::numeric_limits<double>::quiet_NaN() : g.xs[i * sd + sp];
    }
  for (auto& k : g.kids) o.kids.push_back(redim(k, dims));
  return o;
}

}  // namespace hz
#endif
