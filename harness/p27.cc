// P27: the C++ WKB parser on any bytes, against an independent reading of them.
#include <memory>
#include <new>
#include <sys/mman.h>
#include "big.h"
#include "hostile.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
using namespace hz;
using namespace geoarrow::wkb_util;
namespace au = geoarrow::array_util;
const char* hz_name = "p27";

// ---- the independent reading
struct Seq { size_t at; uint32_t n; };
struct Node { int type = 0, dims = 0; bool le = true; uint32_t srid = 0xFFFFFFFFu; std::vector<Seq> seqs; std::vector<Node> kids; };
enum { R_OK, R_SHORT, R_ENDIAN, R_TYPE };
struct Reader {
  const std::string& s; size_t pos = 0; bool odd = false, refusable = false; int deepest = 0;
  explicit Reader(const std::string& s_) : s(s_) {}
  bool has(uint64_t n) { return s.size() - pos >= n; }
  uint32_t u32(bool le) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(uint8_t)s[pos + (size_t)i] << (le ? 8 * i : 24 - 8 * i); pos += 4; return v; }
  int seq(Node& n, bool counted) {
    uint32_t k = 1; if (counted) { if (!has(4)) return R_SHORT; k = u32(n.le); }
    uint64_t bytes = (uint64_t)k * 8 * (uint64_t)ndim(n.dims); if (!has(bytes)) return R_SHORT;
    n.seqs.push_back({pos, k}); pos += bytes; return R_OK;
  }
  int geom(Node& n, int level) {
    if (level > deepest) deepest = level;
    if (level > 400) { odd = true; return R_TYPE; }
    if (!has(1)) return R_SHORT;
    uint8_t e = (uint8_t)s[pos]; if (e > 1) return R_ENDIAN;
    if (!has(5)) return R_SHORT;
    pos++; n.le = e == 1; uint32_t code = u32(n.le);
    bool z = code >> 31, m = code >> 30 & 1, srid = code >> 29 & 1; uint32_t low = code & 0x1fffffffu;
    if (low >> 24) odd = true;
    low &= 0xffffff; uint32_t iso = low / 1000, base = low % 1000;
    if ((z || m || srid) && iso) odd = true;
    if (srid) { if (!has(4)) return R_SHORT; n.srid = u32(n.le); }
    if (iso > 3 || base < 1 || base > 7) return R_TYPE;
    z |= iso & 1; m |= iso >> 1 & 1; n.type = (int)base; n.dims = z ? (m ? D_XYZM : D_XYZ) : m ? D_XYM : D_XY;
    if (n.type == T_POINT) return seq(n, false);
    if (n.type == T_LINESTRING) return seq(n, true);
    if (!has(4)) return R_SHORT;
    uint32_t k = u32(n.le);
    for (uint32_t i = 0; i < k; i++) {
      if (n.type == T_POLYGON) { int rc = seq(n, true); if (rc) return rc; continue; }
      n.kids.emplace_back(); int rc = geom(n.kids.back(), level + 1); if (rc) return rc;
      if (n.type != T_COLLECTION && n.kids.back().type != n.type - 3) refusable = true;
      if (n.kids.back().dims != n.dims) refusable = true;
    }
    return R_OK;
  }
};
static double f64(const std::string& s, size_t at, bool le) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)(uint8_t)s[at + (size_t)i] << (le ? 8 * i : 56 - 8 * i); double d; memcpy(&d, &v, 8); return d; }

using Row = std::vector<double>;
using Rows = std::vector<Row>;
static Rows rows_of(const std::string& s, const Node& n, const Seq& q) { Rows o; int nd = ndim(n.dims); for (uint32_t i = 0; i < q.n; i++) { Row r; for (int j = 0; j < nd; j++) r.push_back(f64(s, q.at + (size_t)(i * (uint32_t)nd + (uint32_t)j) * 8, n.le)); o.push_back(r); } return o; }
static void all_rows(const std::string& s, const Node& n, std::vector<std::pair<Row, int>>& o) { for (auto& q : n.seqs) for (auto& r : rows_of(s, n, q)) o.push_back({r, n.dims}); for (auto& k : n.kids) all_rows(s, k, o); }
struct Edge { Row a, b; int dims; };
static void all_edges(const std::string& s, const Node& n, std::vector<Edge>& o) {
  if (n.type == T_POINT || n.type == T_MULTIPOINT) { std::vector<std::pair<Row, int>> v; all_rows(s, n, v); for (auto& x : v) o.push_back({x.first, x.first, x.second}); return; }
  for (auto& q : n.seqs) { Rows r = rows_of(s, n, q); for (size_t i = 1; i < r.size(); i++) o.push_back({r[i - 1], r[i], n.dims}); }
  for (auto& k : n.kids) all_edges(s, k, o);
}
static double cast_at(const Row& row, int dims, int want, int j) {
  int which = want == D_XYM && j == 2 ? 3 : j;
  if (which < 2) return row[(size_t)which];
  bool z = dims == D_XYZ || dims == D_XYZM, m = dims == D_XYM || dims == D_XYZM;
  if (which == 2) return z ? row[2] : NAN;
  return m ? row[row.size() - 1] : NAN;
}
template <class C> static bool is_cast(const C& c, const Row& row, int dims) { for (size_t j = 0; j < c.size(); j++) { double a = (double)c[j], b = cast_at(row, dims, (int)C::dimensions, (int)j); if (!same_bits(a, b) && !(std::isnan(a) && std::isnan(b))) return false; } return true; }

// ---- the parsed object
static void walk(const WKBGeometry& g, const uint8_t* lo, const uint8_t* hi, int level) {
  if (level > 2000) return;
  REQUIRE((int)g.geometry_type >= 0 && (int)g.geometry_type <= 7 && (int)g.dimensions >= 0 && (int)g.dimensions <= 4, "state", "geometry type %d, dimensions %d", (int)g.geometry_type, (int)g.dimensions);
  for (uint32_t i = 0; i < g.NumSequences(); i++) {
    const WKBSequence& q = g.Sequence(i); uint64_t bytes = (uint64_t)q.length * q.stride * 8;
    REQUIRE(q.endianness <= 1 && (int)q.dimensions >= 1 && (int)q.dimensions <= 4 && q.stride == (uint32_t)ndim((int)q.dimensions) && q.size() == q.length, "state", "sequence %u: endianness %d, dimensions %d, stride %u", i, q.endianness, (int)q.dimensions, q.stride);
    REQUIRE(q.data >= lo && q.data <= hi && bytes <= (uint64_t)(hi - q.data), "bounds", "sequence %u points outside the input", i);
  }
  for (uint32_t i = 0; i < g.NumGeometries(); i++) walk(g.Geometry(i), lo, hi, level + 1);
}
static uint64_t touch(const WKBGeometry& g) {
  uint64_t h = 5;
  g.VisitVertices<au::XYZM<double>>([&](au::XYZM<double> c) { for (double v : c) h = fnv(&v, 8, h); });
  g.VisitEdges<au::XY<double>>([&](au::XY<double> a, au::XY<double> b) { h = fnv(&a, sizeof a, h); h = fnv(&b, sizeof b, h); });
  return h;
}
template <class Dst, class G> static void visits(const G& g, const std::vector<std::pair<Row, int>>& v, const std::vector<Edge>& e, const char* what) {
  size_t i = 0; bool ok = true;
  g.template VisitVertices<Dst>([&](Dst c) { ok = ok && i < v.size() && is_cast(c, v[i].first, v[i].second); i++; });
  REQUIRE(ok && i == v.size(), "vertices", "%s: visited %zu vertices of %zu, values %s", what, i, v.size(), ok ? "right" : "wrong");
  i = 0; ok = true;
  g.template VisitEdges<Dst>([&](Dst a, Dst b) { ok = ok && i < e.size() && is_cast(a, e[i].a, e[i].dims) && is_cast(b, e[i].b, e[i].dims); i++; });
  REQUIRE(ok && i == e.size(), "edges", "%s: visited %zu edges of %zu, values %s", what, i, e.size(), ok ? "right" : "wrong");
  count("vertices", v.size()); count("edges", e.size());
}
template <class G> static void any_visits(Rng& r, const G& g, const std::vector<std::pair<Row, int>>& v, const std::vector<Edge>& e, const char* what) {
  switch (r.below(5)) {
    case 0: visits<au::XY<double>>(g, v, e, what); break;
    case 1: visits<au::XYZ<double>>(g, v, e, what); break;
    case 2: visits<au::XYM<double>>(g, v, e, what); break;
    case 3: visits<au::XYZM<double>>(g, v, e, what); break;
    default: break;
  }
}
static void same_tree(const std::string& s, const uint8_t* base, const Node& n, const WKBGeometry& g) {
  REQUIRE((int)g.geometry_type == n.type && (int)g.dimensions == n.dims, "tree", "type %d dimensions %d instead of type %d dimensions %d", (int)g.geometry_type, (int)g.dimensions, n.type, n.dims);
  REQUIRE(g.srid == n.srid, "srid", "SRID %u instead of %u", g.srid, n.srid);
  REQUIRE(g.NumSequences() == n.seqs.size() && g.NumGeometries() == n.kids.size(), "tree", "%u sequences and %u geometries instead of %zu and %zu (type %d)", g.NumSequences(), g.NumGeometries(), n.seqs.size(), n.kids.size(), n.type);
  for (uint32_t i = 0; i < g.NumSequences(); i++) {
    const WKBSequence& q = g.Sequence(i);
    REQUIRE(q.length == n.seqs[i].n && q.data == base + n.seqs[i].at && (int)q.dimensions == n.dims && q.endianness == (n.le ? 1 : 0), "sequence", "sequence %u: %u coordinates at %td, dimensions %d, endianness %d instead of %u at %zu, %d, %d", i, q.length, q.data - base, (int)q.dimensions, q.endianness, n.seqs[i].n, n.seqs[i].at, n.dims, n.le ? 1 : 0);
    if (n.le) { Rows rows = rows_of(s, n, n.seqs[i]); auto xy = q.ViewAsNativeXY(); REQUIRE(xy.size() == (int64_t)rows.size(), "native xy", "%lld coordinates instead of %zu", (long long)xy.size(), rows.size()); size_t k = 0; for (auto c : xy) { REQUIRE(same_bits(c.x(), rows[k][0]) && same_bits(c.y(), rows[k][1]), "native xy", "coordinate %zu", k); k++; } count("native_xy"); }
  }
  for (uint32_t i = 0; i < g.NumGeometries(); i++) same_tree(s, base, n.kids[i], g.Geometry(i));
}

static std::string valid_wkb(Rng& r, bool* point = nullptr) {
  GenOpts o; o.budget = 150; o.num = NUM_ANY; o.big = r.one_in(4); WkbStyle st; st.r = &r;
  Geom g = r.one_in(8) ? gen_nested(r, (int)r.below(30), (int)r.range(1, 4), o) : gen_any(r, o);
  if (g.type == T_COLLECTION && r.one_in(3)) for (auto& k : g.kids) if (r.chance(0.6)) k = gen_geom(r, (int)r.range(1, 7), (int)r.range(1, 4), o);
  std::string s; enc_wkb(g, s, st); if (point) *point = g.type == T_POINT; return s;
}
static std::string show_status(int s) { return WKBParser().ErrorToString((WKBParser::Status)s); }

struct Parsed { WKBParser::Status st; const uint8_t* cursor; };
static void parse_and_check(Rng& r, const std::string& s, WKBParser& p, WKBGeometry& g) {
  crumb("%zu bytes %s", s.size(), hex(s.data(), s.size()).c_str());
  Exact in(s); Reader ref(s); Node root; int want = ref.geom(root, 0);
  bool with_cursor = r.one_in(2); const uint8_t* cur = nullptr; int st;
  if (r.one_in(2)) { GeoArrowBufferView b; b.data = in.p; b.size_bytes = (int64_t)in.n; st = p.Parse(b, &g, with_cursor ? &cur : nullptr); }
  else st = p.Parse(in.p, in.n, &g, with_cursor ? &cur : nullptr);
  REQUIRE(st >= 0 && show_status(st) != "UNKNOWN", "status", "status %d is none of the documented ones", st);
  count("parses");
  walk(g, in.p, in.p + in.n, 0); touch(g); count("walked");
  if (ref.deepest >= 200) { count("deep"); return; }
  if (ref.odd) { count("unspecified"); return; }
  if (want != R_OK) { REQUIRE(st != 0 && st != WKBParser::TOO_MANY_BYTES, "accepted", "accepted %s", hex(s.data(), s.size()).c_str()); count("rejected"); return; }
  bool all = ref.pos == s.size();
  if (ref.refusable) { if (st && st != WKBParser::TOO_MANY_BYTES) { count("unspecified"); return; } count("mixed"); }  // if it is taken, then as it is
  REQUIRE(st == (all ? WKBParser::OK : WKBParser::TOO_MANY_BYTES), "refused", "status %s for %zu bytes of which %zu are the geometry", show_status(st).c_str(), s.size(), ref.pos);
  if (with_cursor) REQUIRE(cur == in.p + ref.pos, "cursor", "cursor at %td of %zu bytes, the geometry ends at %zu", cur - in.p, s.size(), ref.pos);
  same_tree(s, in.p, root, g); count(all ? "valid" : "trailing");
  std::vector<std::pair<Row, int>> v; std::vector<Edge> e; all_rows(s, root, v); all_edges(s, root, e); any_visits(r, g, v, e, "geometry");
  if (!root.kids.empty() && r.one_in(3)) { size_t k = r.below(root.kids.size()); v.clear(); e.clear(); all_rows(s, root.kids[k], v); all_edges(s, root.kids[k], e); any_visits(r, g.Geometry((uint32_t)k), v, e, "child"); }
  if (!root.seqs.empty() && r.one_in(3)) {
    size_t k = r.below(root.seqs.size()); Rows rows = rows_of(s, root, root.seqs[k]); v.clear(); e.clear(); for (auto& x : rows) v.push_back({x, root.dims});
    for (size_t i = 1; i < rows.size(); i++) e.push_back({rows[i - 1], rows[i], root.dims});
    any_visits(r, g.Sequence((uint32_t)k), v, e, "sequence");
  }
  distinct(fnv(s)); if (want_sample()) sample(hex(s.data(), s.size()));
}

// parser and geometry live in storage that held something else before
template <class T> struct Dirty {
  alignas(T) unsigned char raw[sizeof(T)]; T* p;
  explicit Dirty(uint8_t fill) { memset(raw, fill, sizeof raw); p = new (raw) T; }
  ~Dirty() { p->~T(); }
};

static void histories(Rng& r) {
  Dirty<WKBParser> p(r.pick({(uint8_t)0xCB, (uint8_t)0x01, (uint8_t)0xFF, (uint8_t)0}));
  Dirty<WKBGeometry> g(r.pick({(uint8_t)0xCB, (uint8_t)0x01, (uint8_t)0xFF, (uint8_t)0}));
  REQUIRE((int)g.p->geometry_type == 0 && (int)g.p->dimensions == 0 && g.p->srid == WKBGeometry::kSridUnset && g.p->NumSequences() == 0 && g.p->NumGeometries() == 0, "fresh", "a fresh geometry has type %d, dimensions %d, SRID %u, %u sequences, %u geometries", (int)g.p->geometry_type, (int)g.p->dimensions, g.p->srid, g.p->NumSequences(), g.p->NumGeometries());
  { Dirty<WKBSequence> q(0xCB); REQUIRE(!q.p->data && !q.p->length && !q.p->stride && (int)q.p->dimensions == 0 && !q.p->endianness && q.p->size() == 0, "fresh", "a fresh sequence has indeterminate members"); }
  touch(*g.p);
  int n = (int)r.range(1, 5);
  for (int i = 0; i < n; i++) {
    std::string s = r.one_in(3) ? valid_wkb(r) : hostile(r);
    parse_and_check(r, s, *p.p, *g.p); if (i) count("reused");
  }
  if (r.one_in(4)) {  // copies stand alone
    std::string s = valid_wkb(r), s2 = valid_wkb(r); Exact in(s), in2(s2); WKBGeometry a; Reader ref(s); Node root; ref.geom(root, 0);
    REQUIRE(p.p->Parse(in.p, in.n, &a) == WKBParser::OK, "refused", "a valid geometry");
    WKBGeometry b(a); p.p->Parse(in2.p, in2.n, &a); same_tree(s, in.p, root, b); *g.p = b; same_tree(s, in.p, root, *g.p); WKBGeometry c(std::move(b)); same_tree(s, in.p, root, c);
    c.Reset(); REQUIRE((int)c.geometry_type == 0 && (int)c.dimensions == 0 && c.srid == WKBGeometry::kSridUnset && !c.NumSequences() && !c.NumGeometries(), "reset", "Reset() left something behind"); count("copies");
  }
}

// one fault in an otherwise valid input has its own status
static void single_faults(Rng& r) {
  std::string s = valid_wkb(r); WKBParser p; WKBGeometry g;
  auto status = [&](const std::string& x) { Exact in(x); crumb("fault %s", hex(x.data(), x.size()).c_str()); int st = p.Parse(in.p, in.n, &g); walk(g, in.p, in.p + in.n, 0); touch(g); return st; };
  REQUIRE(status(s) == WKBParser::OK, "refused", "valid %s", hex(s.data(), s.size()).c_str());
  size_t step = s.size() > 300 ? s.size() / 150 : 1;
  for (size_t n = r.below(step); n < s.size(); n += step) { int st = status(s.substr(0, n)); REQUIRE(st == WKBParser::TOO_FEW_BYTES, "prefix", "the first %zu of %zu bytes: %s", n, s.size(), show_status(st).c_str()); count("prefixes"); }
  { std::string t = s; for (size_t k = 1 + r.below(12); k; k--) t += (char)r.next(); int st = status(t); REQUIRE(st == WKBParser::TOO_MANY_BYTES, "trailing", "%s", show_status(st).c_str()); }
  { std::string t = s; t[0] = (char)r.range(2, 255); int st = status(t); REQUIRE(st == WKBParser::INVALID_ENDIAN, "endian", "byte order %d: %s", (uint8_t)t[0], show_status(st).c_str()); }
  { std::string t = s; bool le = t[0] == 1; std::string c; uint32_t bad = r.pick({0u, 8u, 9u, 15u, 16u, 17u, 100u, 257u, 999u, 1000u, 1008u, 2000u, 2017u, 3000u, 3008u, 4001u, 5002u, 10003u, 65537u, 1u << 20}); bool ewkb = bad < 1000 && r.one_in(3); put_u32(c, bad | (ewkb ? 0x80000000u : 0), le); t.replace(1, 4, c); int st = status(t); REQUIRE(st == WKBParser::INVALID_GEOMETRY_TYPE, "type code", "type code %u: %s", bad, show_status(st).c_str()); }
  count("single_faults", 3);
}

// arrays of blobs
template <class O> static void array_case(Rng& r, int type) {
  GenOpts o; o.budget = 100; o.num = NUM_ANY; size_t n = gen_nfeat(r); if (n > 30) n = 30;
  double pn = gen_pnull(r); OptStrings vals; std::vector<std::string> text; WkbStyle ws; ws.r = &r; long bad = -1;
  for (size_t i = 0; i < n; i++) { if (r.chance(pn)) { vals.push_back({false, ""}); text.push_back(""); continue; } std::string s; Geom g = gen_any(r, o); enc_wkb(g, s, ws); vals.push_back({true, s}); text.push_back(s); }
  if (n && r.one_in(6)) { size_t k = r.below(n); if (vals[k].first) { auto& t = vals[k].second; switch (r.below(3)) { case 0: t.resize(r.below(t.size())); break; case 1: t[0] = 7; break; default: t += "x"; } text[k] = t; bad = (long)k; } }
  ArrowArray a; ReleaseLog log; ArrayStyle as; as.r = &r; build_serialized(type, vals, &a, &log, as); if (r.one_in(4)) far_away(r, type, &a);
  WKBArray<O> w; bool from_view = false;
  if constexpr (sizeof(O) == 4) if (r.one_in(2)) {
    GeoArrowArrayView v; REQUIRE(GeoArrowArrayViewInitFromType(&v, (GeoArrowType)type) == 0, "init", "array view");
    REQUIRE(GeoArrowArrayViewSetArray(&v, &a, nullptr) == 0, "set", "array view refuses a valid array");
    REQUIRE(w.Init(&v) == 0, "init", "WKBArray"); from_view = true; count("from_views");
  }
  if (!from_view) { w.value.offset = a.offset; w.value.length = a.length; w.value.offsets = (const O*)a.buffers[1]; w.value.data = (const uint8_t*)a.buffers[2]; w.validity = (const uint8_t*)a.buffers[0]; }
  auto check = [&](const WKBArray<O>& arr, size_t off, size_t len) {
    REQUIRE(arr.value.length == (int64_t)len, "array", "%lld elements instead of %zu", (long long)arr.value.length, len);
    std::vector<std::pair<Row, int>> v; std::vector<Edge> e; bool broken = false;
    for (size_t i = 0; i < len; i++) {
      auto& x = vals[off + i]; REQUIRE(arr.is_valid((int64_t)i) == x.first && arr.is_null((int64_t)i) == !x.first, "array", "validity of element %zu", i);
      if (!x.first) continue;
      auto blob = arr.value.blob((int64_t)i); REQUIRE((size_t)blob.size_bytes == x.second.size() && !memcmp(blob.data, x.second.data(), x.second.size()), "array", "bytes of element %zu", i);
      if ((long)(off + i) == bad) { broken = true; continue; }
      if (!broken) { Reader ref(x.second); Node root; ref.geom(root, 0); all_rows(x.second, root, v); all_edges(x.second, root, e); }
    }
    if (broken) {
      size_t seen = 0; bool threw = false;
      try { arr.template VisitVertices<au::XY<double>>([&](au::XY<double>) { seen++; }); } catch (const geoarrow::Exception& ex) { threw = true; REQUIRE(ex.what() && strlen(ex.what()) < 4096, "exception", "message"); }
      REQUIRE(threw && seen == v.size(), "malformed", "a malformed element: %s after %zu of %zu vertices", threw ? "exception" : "no exception", seen, v.size());
      threw = false; seen = 0; try { arr.template VisitEdges<au::XY<double>>([&](au::XY<double>, au::XY<double>) { seen++; }); } catch (const geoarrow::Exception&) { threw = true; }
      REQUIRE(threw && seen == e.size(), "malformed", "a malformed element: %s after %zu of %zu edges", threw ? "exception" : "no exception", seen, e.size()); count("malformed_elements");
    } else any_visits(r, arr, v, e, "array");
    // iteration
    auto it = arr.value.begin(); REQUIRE(arr.value.end() - it == (int64_t)len, "array", "end - begin");
    int64_t pos = 0;
    for (int k = (int)r.below(8); k > 0 && len; k--) {
      int64_t to = (int64_t)r.below(len); if (r.one_in(2)) it += to - pos; else it -= pos - to; pos = to;
      auto& x = vals[off + (size_t)to]; if (!x.first || (long)(off + (size_t)to) == bad) continue;
      Reader ref(x.second); Node root; ref.geom(root, 0); const WKBGeometry& g = *it; same_tree(x.second, arr.value.blob(to).data, root, g); count("iterated");
    }
    if (pn == 0 && bad < 0) { size_t k = 0; for (const auto& g : arr.value) { auto& x = vals[off + k]; Reader ref(x.second); Node root; ref.geom(root, 0); same_tree(x.second, arr.value.blob((int64_t)k).data, root, g); k++; } REQUIRE(k == len, "array", "iterated %zu of %zu", k, len); }
  };
  check(w, 0, n); count("arrays");
  size_t off = 0, len = n;
  for (int k = (int)r.below(3); k > 0; k--) { size_t d = r.below(len + 1), l = r.below(len - d + 1); w = w.Slice((int64_t)d, (int64_t)l); off += d; len = l; check(w, off, len); count("slices"); }
  a.release(&a);
}

static void huge_view() {  // a size above 32 bits (only the first page may be read)
  size_t page = 4096, total = (1ull << 32) + 2 * page;
  uint8_t* m = (uint8_t*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) return;
  if (mprotect(m, page, PROT_READ | PROT_WRITE) == 0) {
    std::string s; Geom g; g.type = T_POINT; g.dims = D_XY; g.xs = {1, 2}; s = wkb_iso(g); memcpy(m, s.data(), s.size());
    WKBParser p; WKBGeometry out; const uint8_t* cur = nullptr; GeoArrowBufferView b; b.data = m; b.size_bytes = (int64_t)(1ull << 32) + 3;
    int st = p.Parse(b, &out, &cur); REQUIRE(st == WKBParser::TOO_MANY_BYTES && cur == m + s.size(), "size", "a view of 2^32+3 bytes: %s", show_status(st).c_str()); count("huge_views");
  }
  munmap(m, total);
}

void hz_case(Case& c) {
  Rng& r = c.r;
  if (c.idx % 2000 == 0) huge_view();
  switch (r.below(8)) {
    case 0: single_faults(r); break;
    case 1: array_case<int32_t>(r, GEOARROW_TYPE_WKB); break;
    case 2: array_case<int64_t>(r, GEOARROW_TYPE_LARGE_WKB); break;
    default: histories(r);
  }
}
