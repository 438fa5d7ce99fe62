// P26: the typed C++ views present exactly the array's features. The array's 
// bytes are laid out by hand; sizes, coordinates, iterators, slices and visits
// are compared with the model they were laid out from.
#include <cstring>
#include <string>
#include "kern.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/geometry_type_traits.hpp"
using namespace hz;
using namespace geoarrow::array_util;
const char* hz_name = "p26";

// one binary per coordinate type, to keep compilation short
#if HZ_PART == 1
using Mine = XY<double>;
#elif HZ_PART == 2
using Mine = XYZ<double>;
#elif HZ_PART == 3
using Mine = XYM<double>;
#else
using Mine = XYZM<double>;
#endif

using Row = std::vector<double>;
using Rows = std::vector<Row>;

// ---- one coordinate against the model row (dims: what the row's ordinates mean)
template <class C> static int nd_of() { return (int)C().size(); }
static double cast_at(const Row& row, int dims, int want_dims, int j) {
  // ordinate j of the row seen as want_dims
  int which = want_dims == D_XYM && j == 2 ? 3 : j;  // 0 x 1 y 2 z 3 m
  if (which < 2) return row[(size_t)which];
  bool z = dims == D_XYZ || dims == D_XYZM, m = dims == D_XYM || dims == D_XYZM;
  if (which == 2) return z ? row[2] : NAN;
  return m ? row[row.size() - 1] : NAN;
}
template <class T> static bool same_val(T a, double b) { T c = (T)b; return (std::isnan((double)a) && std::isnan((double)c)) || !memcmp(&a, &c, sizeof a); }
template <> bool same_val(double a, double b) { return same_bits(a, b) || (std::isnan(a) && std::isnan(b)); }
// exact: bit for bit
template <class C> static bool is_row(const C& c, const Row& row) { if (c.size() != row.size()) return false; for (size_t j = 0; j < c.size(); j++) if (memcmp(&c[j], &row[j], 8)) return false; return true; }
template <class C> static bool is_cast(const C& c, const Row& row, int dims) { for (size_t j = 0; j < c.size(); j++) if (!same_val(c[j], cast_at(row, dims, (int)C::dimensions, (int)j))) return false; return true; }
template <class C> static std::string show_c(const C& c) { std::string s; for (auto v : c) s += fmt("%.17g ", (double)v); return s; }
static std::string show_r(const Row& r) { std::string s; for (double v : r) s += fmt("%.17g ", v); return s; }

// ---- random-access arithmetic of any of the iterators, over n elements
template <class It, class Deref, class Sub>
static void arith(Rng& r, It first, It last, int64_t n, const char* what, Deref deref, Sub sub, bool cmp = true) {
  REQUIRE(last - first == n && first - last == -n, "iterator", "%s: end - begin is %lld, not %lld", what, (long long)(last - first), (long long)n);
  It it = first; int64_t p = 0;
  for (int k = (int)r.range(2, 12); k > 0; k--) {
    int64_t to = (int64_t)r.below((uint64_t)n + 1);
    switch (r.below(5)) {
      case 0: if (p < n) { auto& q = ++it; REQUIRE((const void*)&q == (const void*)&it, "iterator", "%s: ++ returns something else", what); p++; } break;
      case 1: if (p > 0) { auto& q = --it; REQUIRE((const void*)&q == (const void*)&it, "iterator", "%s: -- returns something else", what); p--; } break;
      case 2: it += to - p; p = to; break;
      case 3: it -= p - to; p = to; break;
      case 4: { It j(it); j += to - p; if (cmp) {
        REQUIRE((it < j) == (p < to) && (it > j) == (p > to) && (it <= j) == (p <= to) && (it >= j) == (p >= to), "iterator", "%s: order of %lld and %lld", what, (long long)p, (long long)to);
        } REQUIRE((it == j) == (p == to) && (it != j) == (p != to), "iterator", "%s: equality of %lld and %lld", what, (long long)p, (long long)to);
        REQUIRE(j - it == to - p, "iterator", "%s: difference %lld", what, (long long)(j - it)); break; }
    }
    REQUIRE(it - first == p && last - it == n - p, "iterator", "%s: position %lld instead of %lld", what, (long long)(it - first), (long long)p);
    if (p < n) deref(it, p);
    if (n) { int64_t q = (int64_t)r.below((uint64_t)n); sub(it, q - p, q); }
  }
  count("iterator_walks");
}

template <class Dst, class Seq> static void visit_seq(const Seq& s, const Rows& rows, int dims, const char* what) {
  size_t i = 0; bool ok = true;
  s.template VisitVertices<Dst>([&](Dst c) { ok = ok && i < rows.size() && is_cast(c, rows[i], dims); i++; });
  REQUIRE(ok && i == rows.size(), "vertices", "%s: %zu vertices of %zu, values %s", what, i, rows.size(), ok ? "right" : "wrong");
  i = 0; ok = true;
  s.template VisitEdges<Dst>([&](Dst a, Dst b) { ok = ok && i + 1 < rows.size() && is_cast(a, rows[i], dims) && is_cast(b, rows[i + 1], dims); i++; });
  REQUIRE(ok && i == (rows.empty() ? 0 : rows.size() - 1), "edges", "%s: %zu edges of %zu vertices, values %s", what, i, rows.size(), ok ? "right" : "wrong");
  count("visits", 2);
}

// a coordinate sequence (aligned or not) against the model
template <class Seq> static void seq_is(Rng& r, const Seq& s, const Rows& rows, int dims, const char* what, int depth = 0) {
  using C = typename Seq::value_type; int64_t n = (int64_t)rows.size();
  REQUIRE(s.size() == n, "size", "%s: %lld coordinates instead of %lld", what, (long long)s.size(), (long long)n);
  int64_t i = 0; for (const auto c : s) { REQUIRE(i < n && is_row(c, rows[(size_t)i]), "coord", "%s: coordinate %lld is %s, not %s", what, (long long)i, show_c(c).c_str(), show_r(rows[(size_t)i]).c_str()); i++; }
  REQUIRE(i == n, "size", "%s: iterated over %lld of %lld", what, (long long)i, (long long)n); count("coords", (uint64_t)n);
  for (int k = n ? (int)r.below(4) : 0; k > 0; k--) { int64_t q = (int64_t)r.below((uint64_t)n); REQUIRE(is_row(s.coord(q), rows[(size_t)q]), "coord", "%s: coord(%lld)", what, (long long)q); }
  if (r.one_in(2)) arith(r, s.begin(), s.end(), n, what, [&](auto& it, int64_t p) { REQUIRE(is_row(*it, rows[(size_t)p]), "iterator", "%s: * at %lld", what, (long long)p); }, [&](auto& it, int64_t d, int64_t q) { REQUIRE(is_row(it[d], rows[(size_t)q]), "iterator", "%s: [%lld]", what, (long long)d); });
  uint32_t j = (uint32_t)r.below(C().size());
  { auto d = s.dbegin(j); int64_t m = 0; for (; d != s.dend(j); ++d, m++) REQUIRE(m < n && same_bits(*d, rows[(size_t)m][j]), "dimension", "%s: dimension %u value %lld", what, j, (long long)m); REQUIRE(m == n, "dimension", "%s: %lld values of dimension %u", what, (long long)m, j); }
  if (r.one_in(2)) {
    arith(r, s.dbegin(j), s.dend(j), n, what, [&](auto& it, int64_t p) {
      REQUIRE(same_bits(*it, rows[(size_t)p][j]), "dimension", "%s: * at %lld", what, (long long)p);
      auto k2 = it; double v = k2++; REQUIRE(same_bits(v, rows[(size_t)p][j]) && k2 - it == 1, "dimension", "%s: post-increment at %lld gives %.17g, not %.17g", what, (long long)p, v, rows[(size_t)p][j]);
    }, [&](auto& it, int64_t d, int64_t q) { REQUIRE(same_bits(it[d], rows[(size_t)q][j]), "dimension", "%s: [%lld]", what, (long long)d); });
  }
  switch (r.below(5)) {
    case 0: visit_seq<XY<double>>(s, rows, dims, what); break;
    case 1: visit_seq<XYZ<double>>(s, rows, dims, what); break;
    case 2: visit_seq<XYM<double>>(s, rows, dims, what); break;
    case 3: visit_seq<XYZM<double>>(s, rows, dims, what); break;
    default: visit_seq<C>(s, rows, dims, what); break;
  }
  if (depth < 2 && r.one_in(3)) { int64_t o = (int64_t)r.below((uint64_t)n + 1), l = (int64_t)r.below((uint64_t)(n - o) + 1); Rows sub(rows.begin() + o, rows.begin() + o + l); seq_is(r, s.Slice(o, l), sub, dims, "slice of coordinates", depth + 1); count("slices"); }
}

// ---- the model of list levels
static void leaves(const LNode& n, Rows& out) { if (!n.row.empty()) out.push_back(n.row); for (auto& k : n.kids) leaves(k, out); }
static void edges_of(const LNode& n, int depth, std::vector<std::pair<Row, Row>>& out) { if (depth == 1) { for (size_t i = 1; i < n.kids.size(); i++) out.push_back({n.kids[i - 1].row, n.kids[i].row}); } else for (auto& k : n.kids) edges_of(k, depth - 1, out); }

template <class C> static void node_is(Rng& r, const CoordSequence<C>& s, const LNode& n, int dims) { Rows rows; leaves(n, rows); seq_is(r, s, rows, dims, "coordinates"); }
template <class T> static void node_is(Rng& r, const ListSequence<T>& s, const LNode& n, int dims);
template <class T> static void list_is(Rng& r, const ListSequence<T>& s, const std::vector<const LNode*>& els, int dims, int depth = 0) {
  int64_t n = (int64_t)els.size(); REQUIRE(s.size() == n, "size", "list of %lld instead of %lld", (long long)s.size(), (long long)n);
  int64_t i = 0; for (const auto& c : s) { if (els[(size_t)i]) node_is(r, c, *els[(size_t)i], dims); i++; }
  REQUIRE(i == n, "size", "iterated over %lld of %lld", (long long)i, (long long)n);
  if (n && r.one_in(2)) { T child; s.InitChild(&child); for (int k = (int)r.range(1, 4); k > 0; k--) { int64_t q = (int64_t)r.below((uint64_t)n); s.UpdateChild(&child, q); if (els[(size_t)q]) node_is(r, child, *els[(size_t)q], dims); } }
  if (r.one_in(2)) arith(r, s.begin(), s.end(), n, "list", [&](auto& it, int64_t p) { if (els[(size_t)p]) node_is(r, *it, *els[(size_t)p], dims); }, [](auto&, int64_t, int64_t) {});
  if (depth < 2 && r.one_in(3)) { int64_t o = (int64_t)r.below((uint64_t)n + 1), l = (int64_t)r.below((uint64_t)(n - o) + 1); list_is(r, s.Slice(o, l), std::vector<const LNode*>(els.begin() + o, els.begin() + o + l), dims, depth + 1); count("slices"); }
}
template <class T> static void node_is(Rng& r, const ListSequence<T>& s, const LNode& n, int dims) { std::vector<const LNode*> els; for (auto& k : n.kids) els.push_back(&k); list_is(r, s, els, dims); }

template <class Dst, class Array> static void visit_array(const Array& a, const std::vector<const LNode*>& els, int geom, int dims) {
  Rows v; std::vector<std::pair<Row, Row>> e;
  for (auto* n : els) if (n) { Rows one; leaves(*n, one); v.insert(v.end(), one.begin(), one.end()); if (geom == T_POINT || geom == T_MULTIPOINT) for (auto& row : one) e.push_back({row, row}); else edges_of(*n, list_depth(geom), e); }
  size_t i = 0; bool ok = true;
  a.template VisitVertices<Dst>([&](Dst c) { ok = ok && i < v.size() && is_cast(c, v[i], dims); i++; });
  REQUIRE(ok && i == v.size(), "vertices", "array: %zu vertices of %zu, values %s", i, v.size(), ok ? "right" : "wrong");
  i = 0; ok = true;
  a.template VisitEdges<Dst>([&](Dst p, Dst q) { ok = ok && i < e.size() && is_cast(p, e[i].first, dims) && is_cast(q, e[i].second, dims); i++; });
  REQUIRE(ok && i == e.size(), "edges", "array: %zu edges of %zu, values %s", i, e.size(), ok ? "right" : "wrong");
  count("vertices", v.size()); count("edges", e.size());
}
template <class C> static std::array<double, 8> as8(const BoxXY<C>& b) { return {b.xmin(), b.ymin(), b.zmin(), b.mmin(), b.xmax(), b.ymax(), b.zmax(), b.mmax()}; }
template <class B> static std::array<double, 8> as8(const B& b) { return {b.xmin(), b.ymin(), b.zmin(), b.mmin(), b.xmax(), b.ymax(), b.zmax(), b.mmax()}; }

template <class C, class Array> static void bounds(const Array& a, const std::vector<const LNode*>& els, int dims) {
  using Box = typename C::box_type; Box b = Box::Empty(); constexpr size_t nd = CoordSequence<C>::coord_size;
  auto e8 = as8(b); for (int j = 0; j < 4; j++) REQUIRE(e8[(size_t)j] == INFINITY && e8[(size_t)j + 4] == -INFINITY, "empty-box", "dims %d bound %d of the empty box is %g..%g", (int)C::dimensions, j, e8[(size_t)j], e8[(size_t)j + 4]);
  a.template VisitVertices<C>([&](C c) { for (size_t j = 0; j < c.size(); j++) { b[j] = std::min(b[j], c[j]); b[nd + j] = std::max(b[nd + j], c[j]); } });
  std::array<double, 8> want{INFINITY, INFINITY, INFINITY, INFINITY, -INFINITY, -INFINITY, -INFINITY, -INFINITY};
  for (auto* n : els) if (n) { Rows one; leaves(*n, one); for (auto& row : one) for (int j = 0; j < (int)nd; j++) { double v = cast_at(row, dims, (int)C::dimensions, j); int w = (int)C::dimensions == D_XYM && j == 2 ? 3 : j; if (v < want[(size_t)w]) want[(size_t)w] = v; if (v > want[(size_t)w + 4]) want[(size_t)w + 4] = v; } }
  auto got = as8(b); for (size_t j = 0; j < 8; j++) REQUIRE(got[j] == want[j], "bounds", "dims %d bound %zu is %.17g, not %.17g", (int)C::dimensions, j, got[j], want[j]);
  auto lo = b.lower_bound(), hi = b.upper_bound(); for (size_t j = 0; j < nd; j++) { size_t w = (int)C::dimensions == D_XYM && j == 2 ? 3 : j; REQUIRE(lo[j] == want[w] && hi[j] == want[w + 4], "bounds", "lower/upper bound %zu", j); }
  count("bounds");
}

struct Ctx { Rng* r; const GeoArrowArrayView* v; int type; const Features* f; const std::vector<LNode>* nodes; bool hit = false; int64_t before = 0; };
template <class Array> static void array_is(Array& a, Rng& r, int type, const std::vector<const LNode*>& els, int depth);

template <class C> static void value_is(Rng& r, const CoordSequence<C>& s, const std::vector<const LNode*>& els, int dims) {
  REQUIRE(s.size() == (int64_t)els.size(), "size", "%lld points instead of %zu", (long long)s.size(), els.size());
  for (size_t i = 0; i < els.size(); i++) if (els[i]) { C c = s.coord((int64_t)i); REQUIRE(is_row(c, els[i]->row), "coord", "point %zu is %s, not %s", i, show_c(c).c_str(), show_r(els[i]->row).c_str()); }
  bool nn = true; Rows rows; for (auto* e : els) { nn = nn && e; if (e) rows.push_back(e->row); }
  if (nn) seq_is(r, s, rows, dims, "points");
}
template <class T> static void value_is(Rng& r, const ListSequence<T>& s, const std::vector<const LNode*>& els, int dims) { list_is(r, s, els, dims); }

template <class Array> static void array_is(Array& a, Rng& r, int type, const std::vector<const LNode*>& els, int depth) {
  int geom = type_geom(type), dims = type_dims(type); using Seq = typename std::decay<decltype(a.Coords())>::type; using C = typename Seq::value_type;
  REQUIRE((int)Array::geometry_type == geom && (int)Array::dimensions == dims, "constants", "type %d dispatched to %d/%d", type, (int)Array::geometry_type, (int)Array::dimensions);
  bool nulls = false; Rows all;
  for (size_t i = 0; i < els.size(); i++) { bool ok = els[i] != nullptr; nulls = nulls || !ok; if (ok) leaves(*els[i], all); REQUIRE(a.is_valid((int64_t)i) == ok && a.is_null((int64_t)i) == !ok, "validity", "element %zu valid %d null %d, wanted %s", i, a.is_valid((int64_t)i), a.is_null((int64_t)i), ok ? "valid" : "null"); }
  value_is(r, a.value, els, dims);
  if (!nulls) seq_is(r, a.Coords(), all, dims, "all coordinates");
  else { double sink = 0; Seq s = a.Coords(); for (const auto c : s) sink += c.x(); (void)sink; REQUIRE(s.size() >= (int64_t)all.size(), "size", "Coords() lost some"); }
  visit_array<C>(a, els, geom, dims);
  switch (r.below(4)) { case 0: visit_array<XY<double>>(a, els, geom, dims); break; case 1: visit_array<XYZ<double>>(a, els, geom, dims); break; case 2: visit_array<XYM<double>>(a, els, geom, dims); break; default: visit_array<XYZM<double>>(a, els, geom, dims); break; }
  switch (r.below(5)) { case 0: bounds<XY<double>>(a, els, dims); break; case 1: bounds<XYZ<double>>(a, els, dims); break; case 2: bounds<XYM<double>>(a, els, dims); break; case 3: bounds<XYZM<double>>(a, els, dims); break; default: bounds<C>(a, els, dims); break; }
  if (nulls) count("with_nulls");
  if (depth < 2 && r.one_in(2)) {
    uint64_t n = els.size(); int64_t o = (int64_t)r.below(n + 1), l = (int64_t)r.below(n - (uint64_t)o + 1); Array s = a.Slice(o, l);
    array_is(s, r, type, std::vector<const LNode*>(els.begin() + o, els.begin() + o + l), depth + 1); count("slices");
  }
  count("arrays");
}
template <class Array> static void dispatched(Array& a, Ctx* c) { if constexpr ((int)Array::dimensions == HZ_PART) {
  REQUIRE(!c->hit, "dispatch", "called twice"); c->hit = true;
  REQUIRE(a.Init(c->v) == GEOARROW_OK, "init", "type %d", c->type);
  std::vector<const LNode*> els; for (size_t i = 0; i < c->f->size(); i++) els.push_back((*c->f)[i].null ? nullptr : &(*c->nodes)[i]);
  if (int64_t k = c->before) {  // so many elements come first
    int64_t n = (int64_t)els.size(); Rng& r = *c->r;
    REQUIRE(a.value.size() == k + n && a.value.end() - a.value.begin() == k + n, "size", "%lld elements and %lld between the ends instead of %lld", (long long)a.value.size(), (long long)(a.value.end() - a.value.begin()), (long long)(k + n));
    int64_t first = (int64_t)r.below((uint64_t)k + 1), more = r.one_in(2) ? n : (int64_t)r.below((uint64_t)n + 1); Array s = a.Slice(first, k - first + n);
    REQUIRE(s.value.size() == k - first + n, "size", "a slice of %lld instead of %lld", (long long)s.value.size(), (long long)(k - first + n)); Array t = s.Slice(k - first, more);
    array_is(t, r, c->type, std::vector<const LNode*>(els.begin(), els.begin() + more), 1);
    auto seq = a.value.Slice(first, k - first + n).Slice(k - first, more); REQUIRE(seq.size() == more, "size", "a slice of %lld", (long long)seq.size()); value_is(r, seq, std::vector<const LNode*>(els.begin(), els.begin() + more), type_dims(c->type));
    for (int64_t i = 0; i < n; i++) REQUIRE(a.is_valid(k + i) == (els[(size_t)i] != nullptr) && a.is_null(k + i) == !els[(size_t)i], "validity", "element %lld", (long long)(k + i));
    count("long_arrays"); if (k > INT32_MAX) count("beyond_2g"); return;
  }
  array_is(a, *c->r, c->type, els, 0);
} else REQUIRE(false, "dispatch", "type %d dispatched to dimensions %d", c->type, (int)Array::dimensions); }
static void dispatched(geoarrow::wkb_util::WKBArray<int32_t>&, Ctx* c) { REQUIRE(false, "dispatch", "type %d dispatched to WKB", c->type); }
// any type id: the array that belongs to it, or an exception
struct Landed { int geometry = -1, dims = -1, offset = 0, calls = 0; };
template <class Array> static void landed(Array&, Landed* l) { l->calls++; l->geometry = (int)Array::geometry_type; l->dims = (int)Array::dimensions; }
template <class O> static void landed(geoarrow::wkb_util::WKBArray<O>&, Landed* l) { l->calls++; l->offset = (int)sizeof(O); }
static void dispatch_case(Rng& r) {
  static const std::vector<int> all = [] { std::vector<int> v = all_native(); for (int t = 100001; t <= 100006; t++) v.push_back(t); for (int d = 0; d < 4; d++) { v.push_back(990 + d * 1000); v.push_back(d * 1000); v.push_back(7 + d * 1000); v.push_back(10007 + d * 1000); } return v; }();
  int t = r.pick(all); bool nat = is_native(t), thrown = false, both = r.one_in(2); Landed l;
  if (t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_WKT || t == GEOARROW_TYPE_LARGE_WKT || t == GEOARROW_TYPE_WKB) both = true;
  try { if (both) { GEOARROW_DISPATCH_ARRAY_CALL((GeoArrowType)t, landed, &l); } else { GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((GeoArrowType)t, landed, &l); } } catch (const geoarrow::Exception&) { thrown = true; }
  if (nat) REQUIRE(!thrown && l.calls == 1 && l.geometry == type_geom(t) && l.dims == type_dims(t), "dispatch", "type %d: %d calls, %d/%d", t, l.calls, l.geometry, l.dims);
  else if (t == GEOARROW_TYPE_WKB) REQUIRE(!thrown && l.calls == 1 && l.offset == 4, "dispatch", "WKB: %d calls, offsets of %d bytes", l.calls, l.offset);
  else REQUIRE(thrown && l.calls == 0, "dispatch", "type %d %s", t, l.calls ? "was dispatched" : "was ignored");
  count("dispatches");
}
template <GeoArrowGeometryType G, GeoArrowDimensions D> static void traits_of() {
  using namespace geoarrow::type_traits; using GT = GeometryTypeTraits<G, D>; const int sep = (int)G + ((int)D - 1) * 1000, inter = sep + 10000;
  REQUIRE((int)GT::type_id() == sep && (int)GT::type_id(GEOARROW_COORD_TYPE_SEPARATE) == sep && (int)GT::type_id(GEOARROW_COORD_TYPE_INTERLEAVED) == inter, "traits", "%d/%d: %d %d", (int)G, (int)D, (int)GT::type_id(), (int)GT::type_id(GEOARROW_COORD_TYPE_INTERLEAVED));
  using A = typename GT::array_type; REQUIRE((int)A::geometry_type == (int)G && (int)A::dimensions == (int)D && (int)GT::coord_type::dimensions == (int)D && (int)typename GT::coord_type().size() == ndim((int)D), "traits", "%d/%d", (int)G, (int)D);
  using S = TypeTraits<GT::type_id()>; using I = TypeTraits<GT::type_id(GEOARROW_COORD_TYPE_INTERLEAVED)>;
  REQUIRE((int)S::geometry_type == (int)G && (int)S::dimensions == (int)D && (int)S::coord_type_id == 1 && (int)I::geometry_type == (int)G && (int)I::dimensions == (int)D && (int)I::coord_type_id == 2, "traits", "of the type ids of %d/%d", (int)G, (int)D);
  REQUIRE((std::is_same<typename S::array_type, A>::value && std::is_same<typename I::array_type, A>::value && std::is_same<typename S::coord_type, typename GT::coord_type>::value), "traits", "arrays of %d/%d", (int)G, (int)D);
}
template <GeoArrowGeometryType G> static void traits_dims() { traits_of<G, GEOARROW_DIMENSIONS_XY>(); traits_of<G, GEOARROW_DIMENSIONS_XYZ>(); traits_of<G, GEOARROW_DIMENSIONS_XYM>(); traits_of<G, GEOARROW_DIMENSIONS_XYZM>(); }
static void traits_case() {
  traits_dims<GEOARROW_GEOMETRY_TYPE_POINT>(); traits_dims<GEOARROW_GEOMETRY_TYPE_LINESTRING>(); traits_dims<GEOARROW_GEOMETRY_TYPE_POLYGON>(); traits_dims<GEOARROW_GEOMETRY_TYPE_MULTIPOINT>(); traits_dims<GEOARROW_GEOMETRY_TYPE_MULTILINESTRING>(); traits_dims<GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON>();
  using namespace geoarrow; REQUIRE((std::is_same<type_traits::TypeTraits<GEOARROW_TYPE_WKB>::array_type, wkb_util::WKBArray<int32_t>>::value && std::is_same<type_traits::TypeTraits<GEOARROW_TYPE_LARGE_WKB>::array_type, wkb_util::WKBArray<int64_t>>::value), "traits", "WKB"); count("traits");
}
// an array of another shape: refused
template <class Array> static void refused(Array& a, const GeoArrowArrayView* v, int type, bool* hit) {
  *hit = true; int d1 = list_depth((int)Array::geometry_type), d2 = list_depth(type_geom(type)), n1 = ndim((int)Array::dimensions), n2 = ndim(type_dims(type));
  int rc = a.Init(v); if (d1 != d2 || n1 > n2) { REQUIRE(rc == EINVAL, "misfit-accepted", "an array of type %d taken as %d/%d", type, (int)Array::geometry_type, (int)Array::dimensions); count("misfits"); }
  else if ((int)Array::dimensions == type_dims(type)) REQUIRE(rc == GEOARROW_OK, "init", "type %d", type);
}

static void native_case(Case& c) {
  Rng& r = c.r; static const std::vector<int> nat = all_native(); static std::vector<int> mine; if (mine.empty()) for (int t : nat) if (type_dims(t) == HZ_PART) mine.push_back(t);
  int type = mine[(c.idx / 4) % mine.size()];
  GenOpts o; o.num = r.one_in(3) ? NUM_ANY : NUM_NICE; o.budget = 200; o.huge = 6000; o.big = r.chance(0.3);
  Features f = gen_features(r, type_geom(type), type_dims(type), o, r.one_in(3) ? gen_nfeat(r) : r.below(10), gen_pnull(r));
  ReleaseLog log; ArrowArray a; ArrayStyle st; st.r = &r; build_native(type, f, &a, &log, st); if (r.one_in(4)) far_away(r, type, &a);
  distinct(hash_of(f)); distinct(mix64(shape_of(f) ^ (uint64_t)type * 31)); crumb("type %d: %s", type, show(f).c_str()); if (want_sample()) sample(fmt("type %d ", type) + show(f));
  struct Rel { ArrowArray* a; ~Rel() { a->release(a); } } rel{&a};
  std::vector<LNode> nodes; for (auto& x : f) nodes.push_back(x.null ? LNode() : to_lnode(x.g, type_geom(type)));
  GeoArrowArrayView v; GeoArrowError e; REQUIRE(GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type) == 0 && GeoArrowArrayViewSetArray(&v, &a, &e) == 0, "init", "type %d", type);
  Ctx ctx{&r, &v, type, &f, &nodes};
  if (r.one_in(2)) { GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((GeoArrowType)type, dispatched, &ctx); } else { GEOARROW_DISPATCH_ARRAY_CALL((GeoArrowType)type, dispatched, &ctx); }
  REQUIRE(ctx.hit, "dispatch", "type %d not dispatched", type);
  if (a.offset && r.one_in(2)) {  // the same array with what is before its elements
    int64_t k = r.one_in(2) ? a.offset : 1 + (int64_t)r.below((uint64_t)a.offset); a.offset -= k; a.length += k; int64_t nc = a.null_count; a.null_count = -1;
    int rc = GeoArrowArrayViewSetArray(&v, &a, &e); a.offset += k; a.length -= k; a.null_count = nc; REQUIRE(rc == 0, "init", "type %d with %lld elements: %s", type, (long long)(a.length + k), e.message);
    Ctx longer{&r, &v, type, &f, &nodes}; longer.before = k; GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((GeoArrowType)type, dispatched, &longer); REQUIRE(longer.hit, "dispatch", "type %d not dispatched", type);
    REQUIRE(GeoArrowArrayViewSetArray(&v, &a, &e) == 0, "init", "again");
  }
  int other = r.pick(nat); bool hit = false; GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((GeoArrowType)other, refused, &v, type, &hit); REQUIRE(hit, "dispatch", "type %d", other);
}

// ---- boxes
template <class C> static void box_case(Rng& r, int dims) {
  int nd = ndim(dims), type = 990 + (dims - 1) * 1000; std::vector<std::pair<bool, std::vector<double>>> rows; double pn = gen_pnull(r);
  for (size_t i = r.below(12); i > 0; i--) { std::vector<double> x; for (int j = 0; j < 2 * nd; j++) x.push_back(gen_double(r, NUM_ANY)); rows.push_back({!r.chance(pn), x}); }
  ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r; build_box(type, rows, &a, &log, st); if (r.one_in(4)) far_away(r, type, &a); struct Rel { ArrowArray* a; ~Rel() { a->release(a); } } rel{&a};
  GeoArrowArrayView v; GeoArrowError e; REQUIRE(GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type) == 0 && GeoArrowArrayViewSetArray(&v, &a, &e) == 0, "init", "type %d", type);
  BoxArray<C> b; REQUIRE(b.Init(&v) == GEOARROW_OK, "init", "box %d", dims);
  REQUIRE((int)BoxArray<C>::geometry_type == GEOARROW_GEOMETRY_TYPE_BOX && (int)BoxArray<C>::dimensions == dims, "constants", "box");
  if (r.one_in(2)) { uint64_t n = rows.size(); int64_t o = (int64_t)r.below(n + 1), l = (int64_t)r.below(n - (uint64_t)o + 1); b = b.Slice(o, l); rows = decltype(rows)(rows.begin() + o, rows.begin() + o + l); count("slices"); }
  REQUIRE(b.value.size() == (int64_t)rows.size(), "size", "%lld boxes instead of %zu", (long long)b.value.size(), rows.size());
  PointArray<C> lo = b.LowerBound(), hi = b.UpperBound(); REQUIRE(lo.value.size() == b.value.size() && hi.value.size() == b.value.size(), "size", "bounds of boxes");
  size_t i = 0; for (const auto x : b.value) {
    auto& row = rows[i]; REQUIRE(b.is_valid((int64_t)i) == row.first && b.is_null((int64_t)i) == !row.first && lo.is_valid((int64_t)i) == row.first && hi.is_null((int64_t)i) == !row.first, "validity", "box %zu", i);
    auto g = as8(x); for (int j = 0; j < nd; j++) { size_t w = dims == D_XYM && j == 2 ? 3 : (size_t)j; double l = row.second[(size_t)j], h = row.second[(size_t)(nd + j)];
      REQUIRE(same_bits(g[w], l) && same_bits(g[w + 4], h) && same_bits(x[(size_t)j], l) && same_bits(x[(size_t)(nd + j)], h), "box", "box %zu bound %d: %g..%g, not %g..%g", i, j, g[w], g[w + 4], l, h);
      REQUIRE(same_bits(lo.value.coord((int64_t)i)[(size_t)j], l) && same_bits(hi.value.coord((int64_t)i)[(size_t)j], h) && same_bits(x.lower_bound()[(size_t)j], l) && same_bits(x.upper_bound()[(size_t)j], h), "box", "bounds of box %zu in dimension %d", i, j); }
    i++; count("boxes");
  }
  REQUIRE(i == rows.size(), "size", "boxes");
}

// ---- sequences over raw memory
template <class C> static void raw_case(Rng& r, int dims) {
  int nd = ndim(dims); size_t n = r.one_in(3) ? r.below(100) : r.below(8); Rows rows; for (size_t i = 0; i < n; i++) { Row x; for (int j = 0; j < nd; j++) x.push_back(gen_double(r, NUM_ANY)); rows.push_back(x); }
  bool inter = r.one_in(2); int64_t stride = inter ? nd + (int64_t)r.below(3) : 1 + (int64_t)r.below(3); size_t shift = r.below(8); bool swap = r.one_in(2), aligned = r.one_in(3);
  if (aligned) { shift = 0; swap = false; }
  size_t len = n ? ((n - 1) * (size_t)stride + (inter ? (size_t)nd : 1)) * 8 : 0; int nblk = inter ? 1 : nd; std::vector<std::string> blk((size_t)nblk, std::string(len + shift, '\x7e'));
  for (size_t i = 0; i < n; i++) for (int j = 0; j < nd; j++) { char b[8]; memcpy(b, &rows[i][(size_t)j], 8); if (swap) std::reverse(b, b + 8); memcpy(&blk[inter ? 0 : (size_t)j][shift + (i * (size_t)stride + (inter ? (size_t)j : 0)) * 8], b, 8); }
  std::vector<Exact> ex; ex.reserve((size_t)nblk); for (auto& s : blk) ex.emplace_back(s);
  const char* how = inter ? "interleaved memory" : "separated memory"; crumb("%s n %zu stride %lld shift %zu swap %d dims %d", how, n, (long long)stride, shift, swap, dims);
  bool def = stride == (inter ? nd : 1) && r.one_in(2);
  if (aligned) {
    CoordSequence<C> s; int rc;
    if (r.one_in(3)) { GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = (int64_t)n; cv.n_values = nd; cv.coords_stride = (int32_t)stride; for (int j = 0; j < nd; j++) cv.values[j] = (const double*)(const void*)ex[inter ? 0 : (size_t)j].p + (inter ? j : 0); rc = s.InitFrom(&cv); cv.n_values = nd - 1; CoordSequence<C> t; REQUIRE(t.InitFrom(&cv) == EINVAL, "misfit-accepted", "too few values"); CoordSequence<XY<float>> fl; cv.n_values = nd; REQUIRE(fl.InitFrom(&cv) == EINVAL, "misfit-accepted", "floats from doubles"); }
    else if (inter) rc = s.InitInterleaved((int64_t)r.range(1, 5), (const double*)nullptr) != EINVAL ? -1 : def ? s.InitInterleaved((int64_t)n, (const double*)(const void*)ex[0].p) : s.InitInterleaved((int64_t)n, (const double*)(const void*)ex[0].p, stride);
    else { std::array<const double*, CoordSequence<C>::coord_size> ptr; for (int j = 0; j < nd; j++) ptr[(size_t)j] = (const double*)(const void*)ex[(size_t)j].p; rc = def ? s.InitSeparated((int64_t)n, ptr) : s.InitSeparated((int64_t)n, ptr, stride); }
    REQUIRE(rc == GEOARROW_OK, "init", "%s rc %d", how, rc); seq_is(r, s, rows, dims, how); count("aligned");
    // prefix of the dimensions
    if (dims == D_XYZM || dims == D_XYZ) { CoordSequence<XY<double>> xy; std::array<const double*, 2> p2{s.values[0], s.values[1]}; REQUIRE(xy.InitSeparated((int64_t)n, p2, stride) == 0, "init", "xy"); Rows q = rows; for (auto& x : q) x.resize(2); seq_is(r, xy, q, D_XY, "the XY part"); }
  } else {
    auto go = [&](auto s) {
      int rc; const void* nul = nullptr;
      if (inter) rc = def ? s.InitInterleaved((int64_t)n, n || r.one_in(2) ? (const void*)(ex[0].p + shift) : nul) : s.InitInterleaved((int64_t)n, ex[0].p + shift, stride);
      else if (!shift && !swap && r.one_in(2)) { GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = (int64_t)n; cv.n_values = nd; cv.coords_stride = (int32_t)stride; for (int j = 0; j < nd; j++) cv.values[j] = (const double*)(const void*)ex[(size_t)j].p; rc = s.InitFrom(&cv); }
      else { std::array<const void*, CoordSequence<C>::coord_size> ptr; for (int j = 0; j < nd; j++) ptr[(size_t)j] = ex[(size_t)j].p + shift; rc = def ? s.InitSeparated((int64_t)n, ptr) : s.InitSeparated((int64_t)n, ptr, stride); }
      REQUIRE(rc == GEOARROW_OK, "init", "%s rc %d", how, rc); seq_is(r, s, rows, dims, how); count(swap ? "swapped" : "unaligned");
      auto t = s; REQUIRE(t.InitInterleaved(1, nul) == EINVAL, "misfit-accepted", "no data");
    };
    if (swap) go(UnalignedCoordSequence<C, internal::LoadSwapped<double>>()); else go(UnalignedCoordSequence<C>());
  }
  distinct(mix64(n * 131 + (size_t)stride * 17 + shift * 5 + swap + (size_t)dims * 1009));
  // coordinates of floats, cast to doubles and back
  if (r.one_in(3)) {
    std::vector<float> fl; for (size_t i = 0; i < n * 3; i++) fl.push_back((float)gen_double(r, NUM_NICE)); CoordSequence<XYM<float>> s; REQUIRE(s.InitInterleaved((int64_t)n, fl.data()) == 0, "init", "floats"); size_t i = 0; bool ok = true;
    s.template VisitVertices<XYZM<double>>([&](XYZM<double> q) { ok = ok && i < n && q.x() == (double)fl[3 * i] && q.y() == (double)fl[3 * i + 1] && std::isnan(q.z()) && q.m() == (double)fl[3 * i + 2]; i++; }); REQUIRE(ok && i == n, "floats", "vertices cast to doubles");
    i = 0; s.template VisitEdges<XYM<double>>([&](XYM<double> p, XYM<double> q) { ok = ok && i + 1 < n && p.x() == (double)fl[3 * i] && q.m() == (double)fl[3 * i + 5]; i++; }); REQUIRE(ok && i == (n ? n - 1 : 0), "floats", "edges cast to doubles"); count("floats");
  }
}
// blobs by offsets
template <class O> static void blob_case(Rng& r) {
  size_t n = r.below(20), lead = r.below(4); std::vector<std::string> v; std::string data(r.below(5), 'x'); std::vector<O> off{(O)data.size()};
  for (size_t i = 0; i < lead + n; i++) { v.push_back(gen_text(r, 12)); data += v.back(); off.push_back((O)data.size()); }
  Exact d(data); BinarySequence<O> s; s.offset = (int64_t)lead; s.length = (int64_t)n; s.offsets = off.data(); s.data = d.p; auto is = [&](GeoArrowBufferView b, int64_t i) { REQUIRE((size_t)b.size_bytes == v[lead + (size_t)i].size() && !memcmp(b.data, v[lead + (size_t)i].data(), (size_t)b.size_bytes), "blob", "blob %lld", (long long)i); };
  int64_t i = 0; for (auto b : s) is(b, i++); REQUIRE(i == (int64_t)n, "size", "blobs");
  arith(r, s.begin(), s.end(), (int64_t)n, "blobs", [&](auto& it, int64_t p) { is(*it, p); }, [&](auto& it, int64_t dd, int64_t q) { is(it[dd], q); }); count("blobs", n);
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (c.idx == 3) traits_case();
  if (r.one_in(4)) dispatch_case(r);
  if (c.idx % 4 != 3) { native_case(c); return; }
  switch (r.below(6)) {
    case 0: case 1: box_case<Mine>(r, HZ_PART); break;
    case 2: if (r.one_in(2)) blob_case<int32_t>(r); else blob_case<int64_t>(r); break;
    default: raw_case<Mine>(r, HZ_PART);
  }
}
