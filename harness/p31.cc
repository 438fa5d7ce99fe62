// P31: sizes and positions beyond 32 bits are handled exactly or refused.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "kern.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
using namespace hz;
namespace au = geoarrow::array_util;
namespace wu = geoarrow::wkb_util;
const char* hz_name = "p31";
static WkbStyle& wkb_plain() { static WkbStyle s; s = WkbStyle(); return s; }
static const int64_t MAX32 = INT32_MAX;

// ---- a file of which only the written places exist --------------------------
struct Sparse {
  uint8_t* m; size_t total, len; uint8_t* p;
  explicit Sparse(size_t n) : len(n) {
    const size_t pg = 4096; total = (n + pg - 1) / pg * pg + pg; m = (uint8_t*)map_sparse(total);
    REQUIRE(m, "harness", "no address space for %zu bytes", n);
    p = m + (total - pg - n);
  }
  void seal() { protect_sparse(m, total - 4096, false); protect_sparse(m + total - 4096, 4096, true); }
  ~Sparse() { unmap_sparse(m, total); }
  Sparse(const Sparse&) = delete;
};

// ---- WKB whose sequences are enormous ---------------------------------------
struct BigSeq { int type, dims, level; uint32_t n; int64_t at; bool le; uint64_t first = 0, last = 0; };
struct BigNode { int type, dims, level; uint32_t n; bool le; int64_t at; int seq; };  // at: of the coordinates
struct Plan {
  std::vector<BigNode> nodes; int64_t size = 0; std::vector<std::pair<int64_t, std::string>> bytes;
  void raw(const std::string& s) { bytes.push_back({size, s}); size += (int64_t)s.size(); }
  static std::string u32(uint32_t v, bool le) { std::string s(4, 0); for (int i = 0; i < 4; i++) s[(size_t)(le ? i : 3 - i)] = (char)(v >> (8 * i)); return s; }
  static std::string f64(double d, bool le) { uint64_t v; memcpy(&v, &d, 8); std::string s(8, 0); for (int i = 0; i < 8; i++) s[(size_t)(le ? i : 7 - i)] = (char)(v >> (8 * i)); return s; }
  void head(int type, int dims, bool le) { raw(std::string(1, (char)le) + u32((uint32_t)(type + (dims - 1) * 1000), le)); }
  void coords(uint32_t n, int dims, bool le) {
    int64_t nd = ndim(dims), start = size;
    for (uint32_t i : {0u, n / 2, n - 1}) if (i < n) { size = start + (int64_t)i * nd * 8; std::string s; for (int j = 0; j < nd; j++) s += f64(value(i, j), le); raw(s); }
    size = start + (int64_t)n * nd * 8;
  }
  static double value(uint32_t i, int j) { return 1.0 + (double)i * 4 + j; }
};
static uint32_t big_count(Rng& r, int64_t& budget, int nd) {
  int64_t n;
  switch (r.below(5)) {
    case 0: n = (int64_t)r.below(4); break;
    case 1: n = ((int64_t)1 << r.range(24, 31)) + r.range(-2, 2); break;
    case 2: n = (((int64_t)1 << r.range(30, 33)) / (nd * 8)) + r.range(-2, 2); break;
    case 3: n = r.one_in(3) ? (int64_t)UINT32_MAX - (int64_t)r.below(3) : (int64_t)1 << r.range(10, 28); break;
    default: n = (int64_t)r.below(1u << 30);
  }
  if (n * nd * 8 > budget) n = (int64_t)r.below(100);
  budget -= n * nd * 8; return (uint32_t)n;
}
static void big_geom(Rng& r, Plan& p, int type, int dims, int level, int64_t& budget) {
  bool le = r.chance(0.7); p.head(type, dims, le); size_t me = p.nodes.size(); p.nodes.push_back({type, dims, level, 0, le, 0, 0});
  if (type == T_POINT) { p.nodes[me].n = 1; p.nodes[me].at = p.size; p.coords(1, dims, le); return; }
  if (type == T_LINESTRING) { uint32_t n = big_count(r, budget, ndim(dims)); p.raw(Plan::u32(n, le)); p.nodes[me].n = n; p.nodes[me].at = p.size; p.coords(n, dims, le); return; }
  uint32_t k = (uint32_t)r.range(level ? 0 : 1, 5); p.raw(Plan::u32(k, le)); p.nodes[me].n = k;
  for (uint32_t i = 0; i < k; i++) switch (type) {
    case T_POLYGON: { uint32_t n = big_count(r, budget, ndim(dims)); p.raw(Plan::u32(n, le)); p.nodes.push_back({T_LINESTRING, dims, level + 1, n, le, p.size, 0}); p.coords(n, dims, le); break; }
    case T_COLLECTION: { bool deep = level < 2; big_geom(r, p, (int)r.range(1, deep ? 7 : 3), dims, level + 1, budget); break; }
    default: big_geom(r, p, type - 3, dims, level + 1, budget);
  }
}
static void write_plan(const Plan& p, uint8_t* to, int64_t upto) { for (auto& b : p.bytes) { int64_t n = std::min<int64_t>((int64_t)b.second.size(), upto - b.first); if (n > 0) memcpy(to + b.first, b.second.data(), (size_t)n); } }
static double read_f64(const uint8_t* p, bool le) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)p[i] << (le ? 8 * i : 56 - 8 * i); double d; memcpy(&d, &v, 8); return d; }
static std::vector<uint32_t> marks(uint32_t n) { std::vector<uint32_t> v; for (uint32_t i : {0u, n / 2, n - 1}) if (i < n) v.push_back(i); return v; }

static void cpp_tree(const wu::WKBGeometry& g, const Plan& p, size_t& at, const uint8_t* base) {
  const BigNode& n = p.nodes[at++];
  REQUIRE((int)g.geometry_type == n.type && (int)g.dimensions == n.dims, "cpp-tree", "type %d dims %d instead of %d %d", (int)g.geometry_type, (int)g.dimensions, n.type, n.dims);
  auto seq = [&](const wu::WKBSequence& q, const BigNode& w) {
    REQUIRE(q.length == w.n && q.size() == w.n && (w.n == 0 || q.data == base + w.at), "cpp-sequence", "%u coordinates at %td instead of %u at %lld", q.length, q.data - base, w.n, (long long)w.at);
    if (w.le && w.n) { auto xy = q.ViewAsNativeXY(); REQUIRE(xy.size() == (int64_t)w.n, "cpp-sequence", "%lld coordinates", (long long)xy.size()); for (uint32_t i : marks(w.n)) { auto at = xy.coord(i); REQUIRE(at.x() == Plan::value(i, 0) && at.y() == Plan::value(i, 1), "cpp-value", "coordinate %u of %u: %g %g", i, w.n, at.x(), at.y()); } }
  };
  if (is_seq(n.type)) { REQUIRE(g.NumSequences() == 1 && g.NumGeometries() == 0, "cpp-tree", "%u sequences", g.NumSequences()); seq(g.Sequence(0), n); return; }
  if (n.type == T_POLYGON) { REQUIRE(g.NumSequences() == n.n, "cpp-tree", "%u of %u rings", g.NumSequences(), n.n); for (uint32_t i = 0; i < n.n; i++) seq(g.Sequence(i), p.nodes[at++]); return; }
  REQUIRE(g.NumGeometries() == n.n, "cpp-tree", "%u of %u members", g.NumGeometries(), n.n);
  for (uint32_t i = 0; i < n.n; i++) cpp_tree(g.Geometry(i), p, at, base);
}

// counts and looks at the marked coordinates; stops when it has seen enough
struct Counter {
  GeoArrowVisitor v; GeoArrowError err; int64_t seqs = 0, in_seq = 0, total = 0, wrong = 0, feats = 0, limit = -1; double sum = 0;
  std::function<void(int64_t, const GeoArrowCoordView*)> look;
  Counter() {
    err.message[0] = 0; GeoArrowVisitorInitVoid(&v); v.private_data = this; v.error = &err;
    v.feat_end = [](GeoArrowVisitor* v) { ((Counter*)v->private_data)->feats++; return 0; };
    v.geom_start = [](GeoArrowVisitor* v, GeoArrowGeometryType, GeoArrowDimensions) { ((Counter*)v->private_data)->in_seq = 0; return 0; };
    v.ring_start = [](GeoArrowVisitor* v) { ((Counter*)v->private_data)->in_seq = 0; return 0; };
    v.coords = [](GeoArrowVisitor* v, const GeoArrowCoordView* c) {
      Counter* t = (Counter*)v->private_data; if (t->look) t->look(t->in_seq, c);
      t->in_seq += c->n_coords; t->total += c->n_coords; if (t->limit >= 0 && t->total >= t->limit) return EAGAIN; return 0; };
  }
};

static void sparse_wkb(Rng& r) {
  Plan p; int64_t budget = (int64_t)1 << r.range(31, 36); int type = (int)r.range(2, 7), dims = (int)r.range(1, 4);
  big_geom(r, p, type, dims, 0, budget);
  crumb("sparse WKB of %lld bytes, type %d dims %d, %zu nodes", (long long)p.size, type, dims, p.nodes.size()); if (want_sample()) sample(fmt("WKB of %lld bytes, type %d dims %d, %zu nodes", (long long)p.size, type, dims, p.nodes.size()));
  uint64_t h = 5; for (auto& n : p.nodes) h = mix64(h ^ ((uint64_t)n.n << 8) ^ (uint64_t)(n.type * 8 + n.dims)); distinct(h);
  int64_t cut = r.one_in(3) ? 1 + (int64_t)r.below((uint64_t)std::min<int64_t>(p.size - 1, r.one_in(2) ? 40 : p.size - 1)) : 0;
  int64_t len = p.size - cut;
  Sparse f((size_t)len); write_plan(p, f.p, len); f.seal();
  GeoArrowBufferView src; src.data = f.p; src.size_bytes = len;
  GeoArrowWKBReader rd; REQUIRE(GeoArrowWKBReaderInit(&rd) == 0, "init", "reader");
  GeoArrowGeometryView g; GeoArrowError e; e.message[0] = 0; int rc = GeoArrowWKBReaderRead(&rd, src, &g, &e);
  wu::WKBParser parser; wu::WKBGeometry cg; const uint8_t* cur = nullptr; int st = r.one_in(2) ? parser.Parse(src, &cg, &cur) : parser.Parse(f.p, (size_t)len, &cg, &cur);
  if (cut) {
    REQUIRE(rc != 0, "truncated-accepted", "%lld of %lld bytes", (long long)len, (long long)p.size);
    REQUIRE(st == wu::WKBParser::TOO_FEW_BYTES, "truncated-accepted", "C++ parser: status %d for %lld of %lld bytes", st, (long long)len, (long long)p.size);
    count("truncated_giants");
  } else {
    REQUIRE(rc == 0, "rejected", "%s", e.message);
    REQUIRE(g.size_nodes == (int64_t)p.nodes.size(), "nodes", "%lld of %zu", (long long)g.size_nodes, p.nodes.size());
    uint64_t coords = 0;
    for (size_t i = 0; i < p.nodes.size(); i++) {
      const GeoArrowGeometryNode& n = g.root[i]; const BigNode& w = p.nodes[i];
      REQUIRE(n.geometry_type == w.type && n.dimensions == w.dims && n.level == w.level && n.size == w.n, "node", "node %zu: type %d dims %d level %d size %u instead of %d %d %d %u", i, n.geometry_type, n.dimensions, n.level, n.size, w.type, w.dims, w.level, w.n);
      if (!is_seq(w.type)) continue;
      coords += w.n; int nd = ndim(w.dims); REQUIRE(w.le == !(n.flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN), "node", "node %zu byte order", i);
      for (uint32_t k : marks(w.n)) for (int j = 0; j < nd; j++) {
        const uint8_t* at = n.coords[j] + (int64_t)k * n.coord_stride[j];
        REQUIRE(at == f.p + w.at + ((int64_t)k * nd + j) * 8, "position", "node %zu coordinate %u.%d at %td instead of %lld", i, k, j, at - f.p, (long long)(w.at + ((int64_t)k * nd + j) * 8));
        REQUIRE(read_f64(at, w.le) == Plan::value(k, j), "value", "node %zu coordinate %u.%d", i, k, j);
      }
      int64_t need = GeoArrowGeometryNodeWriteSequence(&n, nullptr, 0);
      REQUIRE(w.n == 0 || need == (int64_t)w.n * nd * 8, "sequence-size", "%u coordinates need %lld bytes, not %lld", w.n, (long long)w.n * nd * 8, (long long)need);
    }
    uint32_t nc = GeoArrowGeometryViewNumCoords(g); REQUIRE(coords > UINT32_MAX ? nc == UINT32_MAX : nc == coords, "coord-count", "%u of %llu", nc, (unsigned long long)coords);
    REQUIRE(st == wu::WKBParser::OK && cur == f.p + len, "rejected", "C++ parser: status %d, cursor at %td of %lld", st, cur - f.p, (long long)len);
    size_t at = 0; cpp_tree(cg, p, at, f.p); count("giants");
    // the first coordinates through the visitor; it need not go on after EAGAIN
    Counter c; c.limit = 500; int64_t bad = 0, need = 0; for (auto& n : p.nodes) if (is_seq(n.type)) need += n.n;
    c.look = [&](int64_t first, const GeoArrowCoordView* v) { if (first == 0 && v->n_coords > 0) for (int j = 0; j < v->n_values; j++) if (GEOARROW_COORD_VIEW_VALUE(v, 0, j) != Plan::value(0, j)) bad++; };
    rc = GeoArrowWKBReaderVisit(&rd, src, &c.v);
    REQUIRE(need >= 500 ? rc == EAGAIN : rc == 0, "visit", "rc %d after %lld coordinates of %lld", rc, (long long)c.total, (long long)need); REQUIRE(!bad, "value", "first coordinates");
    REQUIRE(c.total <= 2000 + 500, "visit", "%lld coordinates after being told to stop", (long long)c.total);
  }
  if (p.size > MAX32) count("beyond_2g");
  GeoArrowWKBReaderReset(&rd);
}

// ---- enormous buffers handed to the builder ---------------------------------
static void free_nothing(uint8_t*, int64_t, void* priv) { ++*(int*)priv; }
static void giant_builder(Rng& r) {
  static const std::vector<int> types = [] { std::vector<int> v = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKT, 990, 1990, 2990, 3990}) v.push_back(t); return v; }();
  int type = r.pick(types); GenOpts o; o.num = is_wkt(type) ? NUM_FINITE : NUM_ANY; o.budget = 60;
  Features f = gen_for(r, type, 1 + r.below(6), 0.0, false); ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r; st.slices = false;
  if (is_native(type)) build_native(type, f, &a, &log, st); else if (is_box(type)) build_near(r, type, f, &a, &log);
  else { OptStrings vals; WktStyle ws = random_style(r); ws.num = [](double d) { return fmt("%.17g", d); }; for (auto& x : f) { std::string s; if (is_wkt(type)) wkt_tagged(x.g, s, ws); else enc_wkb(x.g, s, wkb_plain()); vals.push_back({true, s}); } build_serialized(type, vals, &a, &log, st); }
  struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a};
  if (is_box(type)) { bool sliced = a.offset; for (int64_t i = 0; i < a.n_children; i++) sliced |= a.children[i]->offset != 0 || a.children[i]->length != a.length; if (sliced) return; }
  far_away(r, type, &a, true);
  // the buffers from the start of the mapping's content to the last element
  int64_t off = a.offset, len = a.length, total = off + len; struct B { const uint8_t* p; int64_t n; };
  std::vector<B> bufs; std::vector<int64_t> lens;
  std::function<void(ArrowArray*, bool)> walk = [&](ArrowArray* x, bool root) {
    int64_t l = x->offset + x->length; lens.push_back(l); bool leaf = x->n_children == 0, list = x->n_children == 1 && x->n_buffers == 2;
    if (root) bufs.push_back({(const uint8_t*)x->buffers[0], x->buffers[0] ? (l + 7) / 8 : 0});
    if (x->n_buffers == 3) { bool lg = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT; bufs.push_back({(const uint8_t*)x->buffers[1], (l + 1) * (lg ? 8 : 4)}); int64_t end = lg ? ((const int64_t*)x->buffers[1])[l] : ((const int32_t*)x->buffers[1])[l]; bufs.push_back({(const uint8_t*)x->buffers[2], x->buffers[2] ? end : 0}); }
    else if (list) bufs.push_back({(const uint8_t*)x->buffers[1], (l + 1) * 4});
    else if (leaf) bufs.push_back({(const uint8_t*)x->buffers[1], l * 8});
    for (int64_t i = 0; i < x->n_children; i++) walk(x->children[i], false);
  };
  walk(&a, true);
  crumb("builder of %d with %lld elements", type, (long long)total); distinct(mix64((uint64_t)type * 131 ^ (uint64_t)total));
  GeoArrowBuilder b; GeoArrowError e; e.message[0] = 0; REQUIRE(GeoArrowBuilderInitFromType(&b, (GeoArrowType)type) == 0, "init", "builder %d", type);
  REQUIRE(b.view.n_buffers == (int64_t)bufs.size(), "buffers", "%lld of %zu", (long long)b.view.n_buffers, bufs.size());
  int freed = 0, set = 0;
  for (size_t i = 0; i < bufs.size(); i++) { if (!bufs[i].p || (i == 0 && !bufs[i].n)) continue; GeoArrowBufferView v; v.data = bufs[i].p; v.size_bytes = bufs[i].n; REQUIRE(GeoArrowBuilderSetOwnedBuffer(&b, (int64_t)i, v, free_nothing, &freed) == 0, "set", "buffer %zu", i); set++; }
  ArrowArray out; out.release = nullptr; int rc = GeoArrowBuilderFinish(&b, &out, &e);
  REQUIRE(rc == 0, "finish", "type %d: %s", type, e.message); GeoArrowBuilderReset(&b);
  size_t at = 0, level = 0;
  std::function<void(ArrowArray*, bool)> same = [&](ArrowArray* x, bool root) {
    REQUIRE(x->length == lens[level] && x->offset == 0, "length", "type %d: array %zu has length %lld offset %lld instead of %lld", type, level, (long long)x->length, (long long)x->offset, (long long)lens[level]); level++;
    for (int64_t i = root ? 0 : 1; i < x->n_buffers; i++, at++) if (bufs[at].p && bufs[at].n) REQUIRE(x->buffers[i] == bufs[at].p, "buffer", "type %d buffer %zu moved", type, at);
    for (int64_t i = 0; i < x->n_children; i++) same(x->children[i], false);
  };
  same(&out, true);
  if (type < 100005 && (!is_box(type) || type == 990)) {
    GeoArrowArrayReader rd; REQUIRE(GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)type) == 0, "init", "reader");
    REQUIRE(GeoArrowArrayReaderSetArray(&rd, &out, &e) == 0, "set-array", "type %d %s", type, e.message);
    norm_empty_points(f);
    for (int k = 0; k < 3; k++) {
      int64_t i = k ? (int64_t)r.below((uint64_t)len) : 0, n = k ? 1 + (int64_t)r.below((uint64_t)(len - i)) : len; Monitor m;
      rc = GeoArrowArrayReaderVisit(&rd, off + i, n, &m.v); check_noted(); REQUIRE(rc == 0, "visit", "type %d [%lld, +%lld): %s", type, (long long)(off + i), (long long)n, m.err.message);
      norm_empty_points(m.feats); std::string why; REQUIRE(equal(m.feats, Features(f.begin() + i, f.begin() + i + n), &why), "features", "type %d element %lld: %s", type, (long long)(off + i), why.c_str());
    }
    GeoArrowArrayReaderReset(&rd);
  }
  out.release(&out);
  REQUIRE(freed == set, "release", "%d of %d buffers given back", freed, set);
  count("giant_builders"); if (total > MAX32) count("beyond_2g"); count("buffers", (uint64_t)set);
}

// ---- too much for anyone ----------------------------------------------------
static const double kOne[4] = {1.25, 2.5, 3.75, 4.125};
static GeoArrowGeometryNode flat_node(int type, int dims, int level, uint32_t n) {
  GeoArrowGeometryNode x; memset(&x, 0, sizeof x); x.geometry_type = (uint8_t)type; x.dimensions = (uint8_t)dims; x.level = (uint8_t)level; x.size = n;
  for (int j = 0; j < 4; j++) x.coords[j] = is_seq(type) && j < ndim(dims) ? (const uint8_t*)&kOne[j] : nan_ptr();
  return x;
}
// a geometry of that type with about `want` coordinates all at the same place
static std::vector<GeoArrowGeometryNode> dense(Rng& r, int type, int dims, int64_t want, uint64_t& coords, uint64_t& widest) {
  std::vector<GeoArrowGeometryNode> o; coords = 0; widest = 0; int64_t left = want;
  auto part = [&](bool last) { int64_t n = last || r.one_in(3) ? left : (int64_t)r.below((uint64_t)left + 1); if (n > (int64_t)UINT32_MAX) n = UINT32_MAX; left -= n; coords += (uint64_t)n; if ((uint64_t)n > widest) widest = (uint64_t)n; return (uint32_t)n; };
  uint32_t k = (uint32_t)r.range(2, 4);
  switch (type) {
    case T_LINESTRING: o.push_back(flat_node(T_LINESTRING, dims, 0, part(true))); break;
    case T_POLYGON: case T_MULTILINESTRING: o.push_back(flat_node(type, dims, 0, k)); for (uint32_t i = 0; i < k; i++) o.push_back(flat_node(T_LINESTRING, dims, 1, part(i + 1 == k))); break;
    case T_MULTIPOLYGON: o.push_back(flat_node(type, dims, 0, k)); for (uint32_t i = 0; i < k; i++) { o.push_back(flat_node(T_POLYGON, dims, 1, 1)); o.push_back(flat_node(T_LINESTRING, dims, 2, part(i + 1 == k))); } break;
    default: o.push_back(flat_node(T_COLLECTION, dims, 0, k)); for (uint32_t i = 0; i < k; i++) o.push_back(flat_node(T_LINESTRING, dims, 1, part(i + 1 == k)));
  }
  return o;
}
static void refusals(Rng& r) {
  alloc::limit((size_t)1 << r.range(20, 29));
  int what = (int)r.below(5), dims = (int)r.range(1, 4), type = r.pick({2, 3, 5, 6, 7}); uint64_t coords, widest;
  // more bytes than can be had, with totals around where 32 bits of coordinates or bytes end
  int64_t want = ((int64_t)1 << r.range(29, 33)) + r.range(-2, 2); if (r.one_in(4)) want = ((int64_t)1 << 32) + (int64_t)r.below(3);
  std::vector<GeoArrowGeometryNode> nodes = dense(r, type, dims, want, coords, widest); GeoArrowGeometryView g; g.root = nodes.data(); g.size_nodes = (int64_t)nodes.size();
  crumb("refusal %d type %d dims %d, %llu coordinates", what, type, dims, (unsigned long long)coords); distinct(mix64(coords * 64 + (uint64_t)(type * 8 + dims)) ^ (uint64_t)what);
  uint32_t nc = GeoArrowGeometryViewNumCoords(g); REQUIRE(coords > UINT32_MAX ? nc == UINT32_MAX : nc == coords, "coord-count", "%u of %llu", nc, (unsigned long long)coords);
  GeoArrowError e; e.message[0] = 0; GenOpts o; o.budget = 40;
  switch (what) {
    case 0: {  // WKB writer: goes on as if nothing had happened
      GeoArrowWKBWriter w; REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "w"); OptStrings want_rows; Features fs = gen_features(r, 0, 0, o, 1 + r.below(5), 0.2);
      size_t bad = r.below(fs.size() + 1);
      for (size_t i = 0; i <= fs.size(); i++) {
        if (i == bad) REQUIRE(GeoArrowWKBWriterAppend(&w, g) != 0, "accepted", "%llu coordinates appended to WKB", (unsigned long long)coords);
        if (i == fs.size()) break;
        if (fs[i].null) { REQUIRE(GeoArrowWKBWriterAppendNull(&w) == 0, "append", "null"); want_rows.push_back({false, ""}); continue; }
        OwnedView v = make_view(fs[i].g); REQUIRE(GeoArrowWKBWriterAppend(&w, v.view()) == 0, "append", "%s", show(fs[i].g).c_str()); std::string s; enc_wkb(fs[i].g, s, wkb_plain()); want_rows.push_back({true, s});
      }
      ArrowArray a; a.release = nullptr; REQUIRE(GeoArrowWKBWriterFinish(&w, &a, &e) == 0, "finish", "%s", e.message); GeoArrowWKBWriterReset(&w);
      Decoder d; OptStrings got; bool ok = d.serialized(&a, GEOARROW_TYPE_WKB, got); a.release(&a); REQUIRE(ok, "array", "%s", d.why.c_str()); REQUIRE(got == want_rows, "rows", "%zu rows, expected %zu", got.size(), want_rows.size()); break; }
    case 1: {  // deep copy
      GeoArrowGeometry c; REQUIRE(GeoArrowGeometryInit(&c) == 0, "init", "geometry"); int rc = GeoArrowGeometryDeepCopy(g, &c); REQUIRE(rc != 0, "accepted", "deep copy of %llu coordinates", (unsigned long long)coords);
      Geom m = gen_any(r, o); OwnedView v = make_view(m); REQUIRE(GeoArrowGeometryDeepCopy(v.view(), &c) == 0, "deep-copy", "afterwards"); Geom got; std::string why; bool ok = view_to_geom(GeoArrowGeometryAsView(&c), got, why) && equal(got, m, &why); GeoArrowGeometryReset(&c); REQUIRE(ok, "deep-copy", "%s", why.c_str()); break; }
    case 2: {  // native writer, after something small
      int nt = native_type(r.one_in(4) ? (int)r.range(1, 6) : type == 7 ? 5 : type, (int)r.range(1, 4), r.one_in(2)); GeoArrowNativeWriter w; REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)nt) == 0, "init", "w");
      if (r.one_in(2)) { Features f = gen_features(r, type_geom(nt), type_dims(nt), o, 1 + r.below(4), 0.2); for (auto& x : f) { OwnedView v; if (!x.null) v = make_view(x.g); REQUIRE((x.null ? GeoArrowNativeWriterAppendNull(&w) : GeoArrowNativeWriterAppend(&w, v.view(), &e)) == 0, "append", "%s", e.message); } }
      int rc = GeoArrowNativeWriterAppend(&w, g, &e); REQUIRE(rc != 0, "accepted", "%llu coordinates appended to native type %d", (unsigned long long)coords, nt); GeoArrowNativeWriterReset(&w); break; }
    case 3: {  // visitor writers given one enormous call
      GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = (int64_t)coords; cv.n_values = ndim(dims); for (int j = 0; j < 4; j++) cv.values[j] = &kOne[j];
      int who = (int)r.below(4); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.error = &e; GeoArrowWKTWriter wt; GeoArrowNativeWriter wn; GeoArrowGeometry gg; int nt = native_type(2, dims, r.one_in(2)); 
      // (a WKB sequence has a 32-bit count: the writer leaves more than that to the caller)
      GeoArrowWKBWriter wb; if (who == 0 && coords > UINT32_MAX) who = 1;
      if (who == 0) { GeoArrowWKBWriterInit(&wb); GeoArrowWKBWriterInitVisitor(&wb, &v); } else if (who == 1) { GeoArrowWKTWriterInit(&wt); GeoArrowWKTWriterInitVisitor(&wt, &v); } else if (who == 2) { REQUIRE(GeoArrowNativeWriterInit(&wn, (GeoArrowType)nt) == 0, "init", "w"); REQUIRE(GeoArrowNativeWriterInitVisitor(&wn, &v) == 0, "init", "visitor"); } else { REQUIRE(GeoArrowGeometryInit(&gg) == 0, "init", "g"); GeoArrowGeometryInitVisitor(&gg, &v); }
      int rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (GeoArrowDimensions)dims); REQUIRE(rc == 0, "start", "consumer %d rc %d", who, rc);
      rc = v.coords(&v, &cv); REQUIRE(rc != 0, "accepted", "consumer %d took %llu coordinates", who, (unsigned long long)coords);
      if (who == 0) GeoArrowWKBWriterReset(&wb); else if (who == 1) GeoArrowWKTWriterReset(&wt); else if (who == 2) GeoArrowNativeWriterReset(&wn); else GeoArrowGeometryReset(&gg); break; }
    default: {  // reservations
      static const std::vector<int> types = all_native(); int t = r.pick(types); GeoArrowBuilder b; REQUIRE(GeoArrowBuilderInitFromType(&b, (GeoArrowType)t) == 0, "init", "b"); int64_t n = (int64_t)1 << r.range(33, 55); n += r.range(-1, 1);
      GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = 1; cv.n_values = ndim(type_dims(t)); cv.coords_stride = 1; for (int j = 0; j < 4; j++) cv.values[j] = &kOne[j];
      bool before = r.one_in(2); if (before) REQUIRE(GeoArrowBuilderCoordsAppend(&b, &cv, (GeoArrowDimensions)type_dims(t), 0, 1) == 0, "append", "one");
      int rc, k = (int)r.below(3); if (k == 1 && b.view.n_offsets == 0) k = 0;
      if (k == 0) rc = GeoArrowBuilderCoordsReserve(&b, n); else if (k == 1) rc = GeoArrowBuilderOffsetReserve(&b, (int32_t)r.below((uint64_t)b.view.n_offsets), n); else rc = GeoArrowBuilderReserveBuffer(&b, (int64_t)r.below((uint64_t)b.view.n_buffers), n);
      REQUIRE(rc != 0, "accepted", "reservation %d of %lld", k, (long long)n);
      REQUIRE(GeoArrowBuilderCoordsAppend(&b, &cv, (GeoArrowDimensions)type_dims(t), 0, 1) == 0, "append", "after a refused reservation");
      REQUIRE(b.view.coords.size_coords == 1 + before, "builder", "%lld coordinates", (long long)b.view.coords.size_coords);
      for (int64_t i = 0; i < b.view.coords.size_coords; i++) for (int j = 0; j < b.view.coords.n_values; j++) REQUIRE(b.view.coords.values[j][i * b.view.coords.coords_stride] == kOne[j], "builder", "coordinate %lld", (long long)i);
      GeoArrowBuilderReset(&b); }
  }
  count("refusals");
}

// ---- one feature with all the coordinates there can be ----------------------
static void giant_native(Rng& r) {
  int geom = r.pick({2, 3, 4, 5, 6}), dims = (int)r.range(1, 4), nd = ndim(dims); bool inter = r.one_in(2); int type = native_type(geom, dims, inter), depth = list_depth(geom);
  int64_t n = r.one_in(3) ? MAX32 - (int64_t)r.below(3) : ((int64_t)1 << r.range(24, 30)) + r.range(-2, 2);
  ArrowArray a; ReleaseLog log; ArrowArray* x = &a; std::vector<std::pair<ArrowArray*, NodePriv*>> all;
  NodePriv* p = node_init(x, &log, true); struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a};
  for (int l = 0; l < depth; l++) {
    node_buf(p, nullptr, 0, true); int32_t off[2] = {0, l + 1 == depth ? (int32_t)n : 1}; node_buf(p, off, 8); x->length = 1; ArrowArray* c = new ArrowArray; p->children.push_back(c); all.push_back({x, p}); p = node_init(c, &log, false); x = c;
  }
  node_buf(p, nullptr, 0, true); x->length = n; all.push_back({x, p});
  for (int j = 0; j < (inter ? 1 : nd); j++) {
    ArrowArray* c = new ArrowArray; p->children.push_back(c); NodePriv* q = node_init(c, &log, false); node_buf(q, nullptr, 0, true); c->length = inter ? n * nd : n;
    size_t bytes = (size_t)c->length * 8, total = (bytes + 4095) / 4096 * 4096 + 4096; uint8_t* m = (uint8_t*)map_sparse(total); REQUIRE(m, "harness", "no address space"); q->maps.push_back({m, total}); double* d = (double*)(m + (total - 4096 - bytes));
    for (uint32_t i : marks((uint32_t)n)) { if (inter) for (int k = 0; k < nd; k++) d[(int64_t)i * nd + k] = Plan::value(i, k); else d[i] = Plan::value(i, j); }
    protect_sparse(m, total - 4096, false); protect_sparse(m + total - 4096, 4096, true); q->buffers.push_back(d); q->sizes.push_back({nullptr, 0}); node_done(c);
  }
  for (size_t i = all.size(); i-- > 0;) node_done(all[i].first);
  crumb("native type %d with %lld coordinates", type, (long long)n); distinct(mix64((uint64_t)type * 77 ^ (uint64_t)n));
  // the view: everything in place
  GeoArrowArrayView av; GeoArrowError e; e.message[0] = 0; REQUIRE(GeoArrowArrayViewInitFromType(&av, (GeoArrowType)type) == 0, "init", "view"); REQUIRE(GeoArrowArrayViewSetArray(&av, &a, &e) == 0, "set-array", "%s", e.message);
  REQUIRE(av.coords.n_coords == n && av.length[depth] == n, "view", "%lld and %lld of %lld coordinates", (long long)av.coords.n_coords, (long long)av.length[depth], (long long)n);
  for (uint32_t i : marks((uint32_t)n)) for (int j = 0; j < nd; j++) REQUIRE(GEOARROW_COORD_VIEW_VALUE(&av.coords, (int64_t)i, j) == Plan::value(i, j), "value", "coordinate %u.%d", i, j);
  // the visitor: the whole sequence arrives, or as much as the visitor wants
  if (geom != T_MULTIPOINT) {
    Counter c; int64_t seen = 0, bad = 0;
    c.look = [&](int64_t first, const GeoArrowCoordView* v) { for (uint32_t i : marks((uint32_t)n)) if (i >= first && i < first + v->n_coords) { seen++; for (int j = 0; j < nd; j++) if (GEOARROW_COORD_VIEW_VALUE(v, i - first, j) != Plan::value(i, j)) bad++; } };
    int rc = GeoArrowArrayViewVisitNative(&av, 0, 1, &c.v);
    REQUIRE(rc == 0 && c.total == n && c.feats == 1 && seen == (int64_t)marks((uint32_t)n).size() && !bad, "visit", "rc %d: %lld of %lld coordinates, %lld of the marked ones, %lld wrong", rc, (long long)c.total, (long long)n, (long long)seen, (long long)bad);
  }
  // limited text of it: a prefix and quickly
  int64_t limit = (int64_t)r.below(300);
  { Kernel k("format_wkt"); ArrowSchema s, out; REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) == 0, "init", "schema");
    auto kv = [&](const std::vector<std::pair<std::string, std::string>>& l) { std::string o; auto i32 = [&](int32_t v) { o.append((char*)&v, 4); }; i32((int32_t)l.size()); for (auto& q : l) { i32((int32_t)q.first.size()); o += q.first; i32((int32_t)q.second.size()); o += q.second; } return o; };
    std::string opt = kv({{"precision", "6"}, {"max_element_size_bytes", std::to_string(limit)}}); int rc = k.start(&s, &opt, &out); s.release(&s); REQUIRE(rc == 0, "kernel-start", "%s", k.err.message); out.release(&out);
    ArrowArray o; rc = k.push(&a, &o);
    // the visitor may hand over everything at once; not having the memory for that is an answer
    if (rc == 0) {
      Decoder d; OptStrings got; bool ok = d.serialized(&o, GEOARROW_TYPE_WKT, got); o.release(&o); REQUIRE(ok && got.size() == 1 && got[0].first, "kernel", "%s", d.why.c_str());
      std::string N = GeoArrowGeometryTypeString((GeoArrowGeometryType)geom), want = N + (dims == D_XYZ ? " Z" : dims == D_XYM ? " M" : dims == D_XYZM ? " ZM" : "") + " " + (geom == T_POLYGON || geom == T_MULTILINESTRING ? "((" : geom == T_MULTIPOLYGON ? "(((" : "(");
      for (int i = 0; i < 200; i++) { if (i) want += ", "; for (int j = 0; j < nd; j++) want += (j ? " " : "") + fmt("%g", i == 0 ? Plan::value(0, j) : 0.0); }
      REQUIRE(got[0].second == want.substr(0, (size_t)limit), "prefix", "limit %lld: %s instead of %s", (long long)limit, quote(got[0].second).c_str(), quote(want.substr(0, (size_t)limit)).c_str());
      count("limited");
    } else { REQUIRE(rc == ENOMEM, "kernel", "rc %d %s", rc, k.err.message); count("no_memory"); }
  }
  count("giant_features"); if (n * nd * 8 > MAX32) count("beyond_2g");
}

// ---- the heavy ones: output and input of real size ---------------------------
static GeoArrowCoordView same_coord(int nd, int64_t n) { GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = n; cv.n_values = nd; for (int j = 0; j < 4; j++) cv.values[j] = &kOne[j]; return cv; }

// exactly 2^31 - 1 bytes of WKB can be had, one geometry more can not
static void full_wkb(Rng& r, bool over, bool nodes) {
  GeoArrowWKBWriter w; REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "w"); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; e.message[0] = 0; v.error = &e; GeoArrowWKBWriterInitVisitor(&w, &v);
  int64_t size = 0, rows = 0; std::vector<int64_t> tail;  // sizes of the rows
  auto line = [&](int64_t n, int dims, int calls) {
    int rc = 0;
    if (nodes) { GeoArrowGeometryNode x = flat_node(T_LINESTRING, dims, 0, (uint32_t)n); GeoArrowGeometryView g; g.root = &x; g.size_nodes = 1; rc = GeoArrowWKBWriterAppend(&w, g); }
    else {
      rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (GeoArrowDimensions)dims);
      for (int i = 0; i < calls && !rc; i++) { GeoArrowCoordView cv = same_coord(ndim(dims), i ? n - n / calls * (calls - 1) : n / calls); if (cv.n_coords) rc = v.coords(&v, &cv); }
      if (!rc) rc = v.geom_end(&v); if (!rc) rc = v.feat_end(&v);
    }
    if (!rc) { size += 9 + n * ndim(dims) * 8; rows++; tail.push_back(9 + n * ndim(dims) * 8); }
    return rc;
  };
  int64_t big = 1200000000 / 16 - (int64_t)r.below(1000);
  REQUIRE(line(big, D_XY, 1) == 0, "write", "the first half"); int64_t second = (MAX32 - size - 4096) / 32; REQUIRE(line(second, D_XYZM, 1) == 0, "write", "the second half");
  while (MAX32 - size > 400) REQUIRE(line((int64_t)r.below(6), D_XY, 1) == 0, "write", "a small one");
  while ((MAX32 - size - 9) % 16) REQUIRE(line(0, D_XY, 1) == 0, "write", "an empty one");
  REQUIRE(line((MAX32 - size - 9) / 16, D_XY, 1) == 0, "write", "the last one: rc for %lld bytes before", (long long)size); REQUIRE(size == MAX32, "harness", "%lld bytes", (long long)size);
  int extra = over ? line((int64_t)r.below(3), D_XY, 1) : 0;
  ArrowArray a; a.release = nullptr; int rc = GeoArrowWKBWriterFinish(&w, &a, &e);
  if (over) { REQUIRE(extra != 0 || rc != 0, "accepted", "%lld bytes of WKB in an array of 32-bit offsets", (long long)size); if (rc) REQUIRE(a.release == nullptr, "failed-finish", "an array is left"); else { a.release(&a); REQUIRE(false, "accepted", "array after a refused feature"); } GeoArrowWKBWriterReset(&w); count("overflow_refused"); return; }
  REQUIRE(rc == 0, "refused", "rc %d for %lld bytes", rc, (long long)size); GeoArrowWKBWriterReset(&w);
  struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a};
  REQUIRE(a.length == rows && a.null_count == 0, "array", "%lld of %lld rows", (long long)a.length, (long long)rows); const int32_t* off = (const int32_t*)a.buffers[1]; const uint8_t* data = (const uint8_t*)a.buffers[2]; int64_t pos = 0;
  for (int64_t i = 0; i < rows; i++) { REQUIRE(off[i] == pos, "offset", "row %lld at %d instead of %lld", (long long)i, off[i], (long long)pos); pos += tail[(size_t)i]; } REQUIRE(off[rows] == MAX32, "offset", "last offset %d", off[rows]);
  auto at = [&](int64_t row, int64_t n, int dims) { const uint8_t* q = data + off[row]; std::string head = std::string(1, 1) + Plan::u32((uint32_t)(2 + (dims - 1) * 1000), true) + Plan::u32((uint32_t)n, true); REQUIRE(!memcmp(q, head.data(), 9), "bytes", "header of row %lld: %s", (long long)row, hex(q, 9).c_str()); int nd = ndim(dims); for (int64_t i : {(int64_t)0, n / 2, n - 1}) if (i >= 0 && i < n) REQUIRE(!memcmp(q + 9 + i * nd * 8, kOne, (size_t)nd * 8), "bytes", "coordinate %lld of row %lld", (long long)i, (long long)row); };
  at(0, big, D_XY); at(1, second, D_XYZM); for (int64_t i = 2; i < rows; i++) at(i, (tail[(size_t)i] - 9) / 16, D_XY);
  GeoArrowArrayReader rd; REQUIRE(GeoArrowArrayReaderInitFromType(&rd, GEOARROW_TYPE_WKB) == 0, "init", "rd"); REQUIRE(GeoArrowArrayReaderSetArray(&rd, &a, &e) == 0, "set-array", "%s", e.message); Counter c; rc = GeoArrowArrayReaderVisit(&rd, 2, rows - 2, &c.v); int64_t want = 0; for (size_t i = 2; i < tail.size(); i++) want += (tail[i] - 9) / 16; GeoArrowArrayReaderReset(&rd);
  REQUIRE(rc == 0 && c.feats == rows - 2 && c.total == want, "read-back", "rc %d, %lld features, %lld coordinates", rc, (long long)c.feats, (long long)c.total);
  count("full_outputs"); count("beyond_2g");
}
static void full_wkt(Rng& r, bool over) {
  GeoArrowWKTWriter w; REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "w"); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; e.message[0] = 0; v.error = &e; GeoArrowWKTWriterInitVisitor(&w, &v);
  std::vector<int64_t> sizes; int64_t size = 0;
  // zero-stride coordinates whose reservation makes room for all that follows in one doubling
  static const double zero[4] = {0, 0, 0, 0}; GeoArrowCoordView cv = same_coord(4, 10500000 + (int64_t)r.below(1000)); for (int j = 0; j < 4; j++) cv.values[j] = &zero[j];
  auto ok = [&](int rc, const char* what) { REQUIRE(rc == 0, "write", "%s: rc %d at %lld bytes %s", what, rc, (long long)size, e.message); };
  ok(v.feat_start(&v), "start"); ok(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XYZM), "start"); ok(v.coords(&v, &cv), "coords"); ok(v.geom_end(&v), "end"); ok(v.feat_end(&v), "end");
  sizes.push_back(14 + 2 + cv.n_coords * 7 + (cv.n_coords - 1) * 2); size = sizes.back();
  // one collection of very many
  int64_t n = (MAX32 - size - 25 - 3000) / 29; ok(v.feat_start(&v), "start"); ok(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XYZM), "start");
  int rc = 0; for (int64_t i = 0; i < n && !rc; i++) { rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION, GEOARROW_DIMENSIONS_XYZM); if (!rc) rc = v.geom_end(&v); }
  ok(rc, "members"); ok(v.geom_end(&v), "end"); ok(v.feat_end(&v), "end"); sizes.push_back(22 + 2 + n * 27 + (n - 1) * 2); 
  // "GEOMETRYCOLLECTION ZM " + "(" + members + ")"
  size += sizes.back();
  static const int T[] = {11, 13, 16}; static const GeoArrowGeometryType G3[] = {GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_GEOMETRY_TYPE_LINESTRING}; static const GeoArrowDimensions D3[] = {GEOARROW_DIMENSIONS_XY, GEOARROW_DIMENSIONS_XYZ, GEOARROW_DIMENSIONS_XY};
  auto small = [&](int k) { int rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, G3[k], D3[k]); if (!rc) rc = v.geom_end(&v); if (!rc) rc = v.feat_end(&v); if (!rc) { sizes.push_back(T[k]); size += T[k]; } return rc; };
  std::vector<char> can(4001, 0); can[0] = 1; for (int i = 1; i <= 4000; i++) for (int t : T) if (i >= t && can[(size_t)(i - t)]) can[(size_t)i] = 1;
  int64_t left = MAX32 - size; REQUIRE(left >= 0 && left <= 4000 && can[(size_t)left], "harness", "%lld bytes left", (long long)left);
  while (left) { int k = (int)r.below(3); if (left < T[k] || !can[(size_t)(left - T[k])]) { for (k = 0; k < 3; k++) if (left >= T[k] && can[(size_t)(left - T[k])]) break; } ok(small(k), "a small one"); left = MAX32 - size; }
  int64_t rows = (int64_t)sizes.size(); int extra = over ? small((int)r.below(3)) : 0;
  ArrowArray a; a.release = nullptr; rc = GeoArrowWKTWriterFinish(&w, &a, &e); GeoArrowWKTWriterReset(&w);
  struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a};
  if (over) { REQUIRE(rc != 0, "accepted", "%lld bytes of WKT (extra feature rc %d)", (long long)size, extra); REQUIRE(a.release == nullptr, "failed-finish", "an array is left"); count("overflow_refused"); return; }
  REQUIRE(rc == 0, "refused", "rc %d for %lld bytes", rc, (long long)size); REQUIRE(a.length == rows, "array", "%lld of %lld rows", (long long)a.length, (long long)rows);
  const int32_t* off = (const int32_t*)a.buffers[1]; const char* data = (const char*)a.buffers[2]; int64_t pos = 0; for (int64_t i = 0; i < rows; i++) { REQUIRE(off[i] == pos, "offset", "row %lld at %d instead of %lld", (long long)i, off[i], (long long)pos); pos += sizes[(size_t)i]; } REQUIRE(off[rows] == MAX32, "offset", "last offset %d", off[rows]);
  std::string tail(data + off[2] - 30, 30); REQUIRE(tail == ", GEOMETRYCOLLECTION ZM EMPTY)", "text", "%s", quote(tail).c_str()); for (int64_t i = 2; i < rows; i++) { std::string s(data + off[i], (size_t)sizes[(size_t)i]); REQUIRE(s == (s.size() == 11 ? "POINT EMPTY" : s.size() == 13 ? "POINT Z EMPTY" : "LINESTRING EMPTY"), "text", "%s", quote(s).c_str()); }
  count("full_outputs"); count("beyond_2g");
}
static void full_native(Rng& r, bool inter, bool nodes) {
  int type = native_type(T_LINESTRING, D_XY, inter); GeoArrowNativeWriter w; GeoArrowError e; e.message[0] = 0; REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)type) == 0, "init", "w"); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.error = &e; if (!nodes) REQUIRE(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "v");
  std::vector<int64_t> sizes; int64_t total = 0; std::vector<double> xs;
  auto line = [&](int64_t n, double x) {
    double at[2] = {x, -x}; int rc;
    if (nodes) { GeoArrowGeometryNode q = flat_node(T_LINESTRING, D_XY, 0, (uint32_t)n); q.coords[0] = (const uint8_t*)&at[0]; q.coords[1] = (const uint8_t*)&at[1]; GeoArrowGeometryView g; g.root = &q; g.size_nodes = 1; rc = GeoArrowNativeWriterAppend(&w, g, &e); }
    else { GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = n; cv.n_values = 2; cv.values[0] = &at[0]; cv.values[1] = &at[1]; rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY); if (!rc && n) rc = v.coords(&v, &cv); if (!rc) rc = v.geom_end(&v); if (!rc) rc = v.feat_end(&v); }
    REQUIRE(rc == 0, "write", "rc %d after %lld coordinates %s", rc, (long long)total, e.message); sizes.push_back(n); xs.push_back(x); total += n;
  };
  line(75000000 + (int64_t)r.below(100), 1); line(60000000, 2); for (int i = 0; i < 40; i++) line((int64_t)r.below(9), 3 + i);
  ArrowArray a; a.release = nullptr; int rc = GeoArrowNativeWriterFinish(&w, &a, &e); GeoArrowNativeWriterReset(&w); struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a};
  REQUIRE(rc == 0, "finish", "rc %d %s", rc, e.message); REQUIRE(a.length == (int64_t)sizes.size() && a.children[0]->length == total, "array", "%lld rows, %lld coordinates of %lld", (long long)a.length, (long long)a.children[0]->length, (long long)total);
  const int32_t* off = (const int32_t*)a.buffers[1]; int64_t pos = 0;
  for (size_t i = 0; i < sizes.size(); i++) { REQUIRE(off[i] == pos, "offset", "row %zu at %d instead of %lld", i, off[i], (long long)pos); for (int64_t k : {(int64_t)0, sizes[i] / 2, sizes[i] - 1}) if (k >= 0 && k < sizes[i]) { double x, y; ArrowArray* c = a.children[0]; if (inter) { const double* d = (const double*)c->children[0]->buffers[1]; x = d[(pos + k) * 2]; y = d[(pos + k) * 2 + 1]; } else { x = ((const double*)c->children[0]->buffers[1])[pos + k]; y = ((const double*)c->children[1]->buffers[1])[pos + k]; } REQUIRE(x == xs[i] && y == -xs[i], "value", "row %zu coordinate %lld: %g %g", i, (long long)k, x, y); } pos += sizes[i]; }
  REQUIRE(off[sizes.size()] == pos, "offset", "the last"); count("full_outputs"); count("beyond_2g");
}
// 2^31 - 1 coordinates can be had, and not one more: in memory that is shown again and again
static void limit_native(Rng& r, bool nodes) {
  alloc::limit((size_t)1 << 40); alloc::alias((size_t)1 << 26); const int64_t chunk = nodes ? 60000000 : 100000000;
  int geom = nodes ? r.pick({2, 3, 4, 5, 6}) : r.pick({2, 3, 5, 6}), dims = r.one_in(3) ? (int)D_XYZM : (int)D_XY, nd = ndim(dims); bool inter = r.one_in(2), over = r.one_in(2); if (inter && dims == D_XYZM) dims = D_XY, nd = 2; int type = native_type(geom, dims, inter), depth = list_depth(geom);
  crumb("native type %d to the limit, %s%s", type, nodes ? "nodes" : "events", over ? ", and beyond" : ""); distinct(mix64((uint64_t)type * 4 + nodes * 2 + over));
  GeoArrowNativeWriter w; GeoArrowError e; e.message[0] = 0; REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)type) == 0, "init", "w"); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.error = &e; if (!nodes) REQUIRE(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "v");
  std::vector<int64_t> sizes; int64_t total = 0;
  auto row = [&](int64_t n) {
    int rc = 0;
    if (nodes) {
      std::vector<GeoArrowGeometryNode> x; for (int l = 0; l < depth; l++) { bool leaf = l + 1 == depth && geom != T_MULTIPOINT; x.push_back(flat_node(leaf ? (int)T_LINESTRING : l ? (int)T_POLYGON : geom, dims, l, leaf ? (uint32_t)n : 1)); }
      if (geom == T_MULTIPOINT) { x[0].geometry_type = T_LINESTRING; x[0].size = (uint32_t)n; for (int j = 0; j < nd; j++) x[0].coords[j] = (const uint8_t*)&kOne[j]; if (n == 0) x[0] = flat_node(T_MULTIPOINT, dims, 0, 0); else x[0].geometry_type = T_LINESTRING; }
      GeoArrowGeometryView g; g.root = x.data(); g.size_nodes = (int64_t)x.size(); rc = GeoArrowNativeWriterAppend(&w, g, &e);
    } else {
      rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, (GeoArrowGeometryType)geom, (GeoArrowDimensions)dims); if (!rc && geom >= 5) rc = v.geom_start(&v, (GeoArrowGeometryType)(geom - 3), (GeoArrowDimensions)dims); bool ring = geom == 3 || geom == 6; if (!rc && ring) rc = v.ring_start(&v);
      for (int64_t i = 0; i < n && !rc; i += chunk) { GeoArrowCoordView cv = same_coord(nd, std::min(chunk, n - i)); rc = v.coords(&v, &cv); alloc::alias_rest(); }
      if (!rc && ring) rc = v.ring_end(&v); if (!rc && geom >= 5) rc = v.geom_end(&v); if (!rc) rc = v.geom_end(&v); if (!rc) rc = v.feat_end(&v);
    }
    alloc::alias_rest(); if (!rc) { sizes.push_back(n); total += n; }
    return rc;
  };
  while (total < MAX32 - 2 * chunk) { int rc = row(nodes || r.one_in(2) ? chunk : MAX32 - total - chunk - (int64_t)r.below(1000)); REQUIRE(rc == 0, "refused", "rc %d %s after %lld coordinates", rc, e.message, (long long)total); }
  while (total < MAX32) { int64_t left = MAX32 - total, n = left > chunk ? chunk - (int64_t)r.below(100) : left < 50 || r.one_in(8) ? left : 1 + (int64_t)r.below((uint64_t)left); int rc = row(n); REQUIRE(rc == 0, "refused", "rc %d %s for %lld after %lld coordinates", rc, e.message, (long long)n, (long long)total); }
  int rc = 0; if (over) rc = row(1 + (int64_t)r.below(3));
  ArrowArray a; a.release = nullptr;
  if (over) { REQUIRE(rc != 0, "accepted", "type %d: %lld coordinates", type, (long long)total); GeoArrowNativeWriterReset(&w); count("overflow_refused"); return; }
  rc = GeoArrowNativeWriterFinish(&w, &a, &e); GeoArrowNativeWriterReset(&w); struct G { ArrowArray* a; ~G() { if (a->release) a->release(a); } } guard{&a}; REQUIRE(rc == 0, "finish", "rc %d %s", rc, e.message);
  ArrowArray* x = &a; REQUIRE(a.length == (int64_t)sizes.size() && a.null_count == 0, "array", "%lld rows", (long long)a.length);
  for (int l = 0; l < depth; l++) { const int32_t* off = (const int32_t*)x->buffers[1]; int64_t pos = 0; for (size_t i = 0; i < sizes.size(); i++) { REQUIRE(off[i] == pos, "offset", "level %d row %zu at %d instead of %lld", l, i, off[i], (long long)pos); pos += l + 1 == depth ? sizes[i] : 1; } REQUIRE(off[sizes.size()] == pos, "offset", "level %d: the last is %d", l, off[sizes.size()]); x = x->children[0]; REQUIRE(x->length == pos, "array", "level %d: length %lld instead of %lld", l + 1, (long long)x->length, (long long)pos); }
  for (int64_t c = 0; c < x->n_children; c++) { ArrowArray* q = x->children[c]; REQUIRE(q->length == (inter ? total * nd : total), "array", "%lld ordinates", (long long)q->length); const double* d = (const double*)q->buffers[1]; for (int k = 0; k < 300; k++) { int64_t i = k < 3 ? (k == 0 ? 0 : q->length - k) : (int64_t)r.below((uint64_t)q->length); REQUIRE(d[i] == kOne[inter ? i % nd : c], "value", "ordinate %lld: %g", (long long)i, d[i]); } }
  REQUIRE(alloc::aliased() > 0, "harness", "no aliased block"); alloc::alias_rest(); count("full_outputs"); count("beyond_2g");
}
// text whose beginning is repeated over and over without being in memory more than once
static void far_text(Rng& r, const std::string& block, const std::string& tail, int64_t repeat, std::function<void(GeoArrowStringView)> go) {
  const size_t pg = 1 << 20; REQUIRE(pg % block.size() == 0, "harness", "block"); int fd = (int)syscall(SYS_memfd_create, "text", 0); REQUIRE(fd >= 0, "harness", "memfd"); struct F { int fd; ~F() { close(fd); } } ff{fd};
  std::string one; while (one.size() < pg) one += block; REQUIRE(write(fd, one.data(), one.size()) == (ssize_t)one.size(), "harness", "memfd write");
  size_t total = (size_t)repeat * pg + 4096 * 2; uint8_t* m = (uint8_t*)map_sparse(total); REQUIRE(m, "harness", "address space"); struct U { void* m; size_t n; ~U() { unmap_sparse(m, n); } } uu{m, total};
  for (int64_t i = 0; i < repeat; i++) REQUIRE((void*)syscall(SYS_mmap, m + (size_t)i * pg, pg, PROT_READ, MAP_PRIVATE | MAP_FIXED, (long)fd, 0L) == m + (size_t)i * pg, "harness", "mmap");
  // the tail continues after the last block, up to the end of a page
  memcpy(m + (size_t)repeat * pg, tail.data(), tail.size()); GeoArrowStringView s; s.data = (const char*)m; s.size_bytes = (int64_t)((size_t)repeat * pg + tail.size()); (void)r; go(s);
}
static void far_whitespace(Rng& r) {
  bool bad = r.one_in(3); far_text(r, r.one_in(2) ? " " : " \t\n\r", bad ? "POINT (1 2" : "POINT (1 2)", 2100, [&](GeoArrowStringView s) {
    GeoArrowWKTReader rd; REQUIRE(GeoArrowWKTReaderInit(&rd) == 0, "init", "rd"); Monitor m; int rc = GeoArrowWKTReaderVisit(&rd, s, &m.v); GeoArrowWKTReaderReset(&rd);
    if (bad) REQUIRE(rc != 0, "accepted", "an unfinished point after %lld bytes", (long long)s.size_bytes); else REQUIRE(rc == 0 && m.feats.size() == 1 && m.feats[0].g.xs == std::vector<double>({1, 2}), "far-text", "rc %d %s", rc, m.err.message); });
  count("far_texts"); count("beyond_2g");
}
static void far_coords_text(Rng& r) {
  // the blocks are "0 1," and the first of them is overwritten in its own page
  far_text(r, "0 1,", "7 8)", 2080, [&](GeoArrowStringView s) {
    static const char H[] = "LINESTRING (0 2,"; char* p = (char*)s.data; REQUIRE(mprotect(p, 4096, PROT_READ | PROT_WRITE) == 0, "harness", "mprotect"); memcpy(p, H, 16);
    int64_t n = (s.size_bytes - 16) / 4 + 1; GeoArrowWKTReader rd; REQUIRE(GeoArrowWKTReaderInit(&rd) == 0, "init", "rd"); Counter c; int64_t bad = 0;
    c.look = [&](int64_t first, const GeoArrowCoordView* v) { for (int64_t i = 0; i < v->n_coords; i++) { double x = first + i == n - 1 ? 7 : 0, y = first + i == 0 ? 2 : first + i == n - 1 ? 8 : 1; bad += GEOARROW_COORD_VIEW_VALUE(v, i, 0) != x || GEOARROW_COORD_VIEW_VALUE(v, i, 1) != y; } };
    int rc = GeoArrowWKTReaderVisit(&rd, s, &c.v); GeoArrowWKTReaderReset(&rd); REQUIRE(rc == 0 && c.feats == 1 && c.total == n && !bad, "far-text", "rc %d %s: %lld of %lld coordinates, %lld wrong", rc, c.err.message, (long long)c.total, (long long)n, (long long)bad); });
  count("far_texts"); count("beyond_2g");
}
// a visit of a sequence that is longer in bytes than 32 bits tell
static void far_visit(Rng& r, bool le) {
  int dims = r.one_in(2) ? D_XYZM : D_XYZ, nd = ndim(dims); uint32_t n = (uint32_t)(((int64_t)1 << 32) / (nd * 8)) + (uint32_t)r.range(1, 400); Plan p; p.head(T_LINESTRING, dims, le); p.raw(Plan::u32(n, le)); p.coords(n, dims, le);
  Sparse f((size_t)p.size); write_plan(p, f.p, p.size); f.seal(); GeoArrowBufferView src; src.data = f.p; src.size_bytes = p.size; GeoArrowWKBReader rd; REQUIRE(GeoArrowWKBReaderInit(&rd) == 0, "init", "rd");
  Counter c; int64_t seen = 0, bad = 0, zero = 0; auto mk = marks(n);
  c.look = [&](int64_t first, const GeoArrowCoordView* v) { double s = 0; for (int64_t i = 0; i < v->n_coords; i++) s += GEOARROW_COORD_VIEW_VALUE(v, i, 0) + GEOARROW_COORD_VIEW_VALUE(v, i, nd - 1); double want = 0; for (uint32_t i : mk) if (i >= first && i < first + v->n_coords) { seen++; want += Plan::value(i, 0) + Plan::value(i, nd - 1); for (int j = 0; j < nd; j++) if (GEOARROW_COORD_VIEW_VALUE(v, i - first, j) != Plan::value(i, j)) bad++; } if (s != want) zero++; };
  int rc = GeoArrowWKBReaderVisit(&rd, src, &c.v); GeoArrowWKBReaderReset(&rd);
  REQUIRE(rc == 0 && c.total == n && seen == (int64_t)mk.size() && !bad && !zero, "far-visit", "rc %d: %lld of %u coordinates, %lld marked ones, %lld wrong, %lld calls with others wrong", rc, (long long)c.total, n, (long long)seen, (long long)bad, (long long)zero); count("far_visits"); count("beyond_2g");
}
// coordinates far apart from each other
static void far_strides(Rng& r) {
  int dims = (int)r.range(1, 4), nd = ndim(dims); int32_t stride = r.pick({INT32_MAX, 1 << 30, (1 << 30) + 8, 11184811, 11184810, 1 << 24, 123456789}); if (r.one_in(3)) stride -= (int32_t)r.below(100); uint32_t n = (uint32_t)r.range(1, 900); bool back = r.one_in(3);
  size_t bytes = (size_t)(n - 1) * (size_t)stride + 32; Sparse f(bytes); Geom g; g.type = T_LINESTRING; g.dims = dims;
  for (uint32_t i = 0; i < n; i++) for (int j = 0; j < nd; j++) { double d = gen_double(r, NUM_ANY); g.xs.push_back(d); memcpy(f.p + (size_t)(back ? n - 1 - i : i) * (size_t)stride + (size_t)j * 8, &d, 8); }
  f.seal(); GeoArrowGeometryNode x = flat_node(T_LINESTRING, dims, 0, n); for (int j = 0; j < nd; j++) { x.coords[j] = f.p + (back ? (size_t)(n - 1) * (size_t)stride : 0) + (size_t)j * 8; x.coord_stride[j] = back ? -stride : stride; }
  GeoArrowGeometryView w; w.root = &x; w.size_nodes = 1; crumb("%u coordinates %d bytes apart%s", n, stride, back ? " backwards" : ""); distinct(mix64((uint64_t)stride * 1000 + n));
  Monitor m; int rc = GeoArrowGeometryViewVisit(w, &m.v); check_noted(); std::string why; REQUIRE(rc == 0 && m.feats.size() == 1 && equal(m.feats[0].g, g, &why), "far-stride", "visit: rc %d %s", rc, why.c_str());
  GeoArrowGeometry c; REQUIRE(GeoArrowGeometryInit(&c) == 0, "init", "geometry"); REQUIRE(GeoArrowGeometryDeepCopy(w, &c) == 0, "deep-copy", "rc"); Geom got; bool ok = view_to_geom(GeoArrowGeometryAsView(&c), got, why) && equal(got, g, &why); GeoArrowGeometryReset(&c); REQUIRE(ok, "far-stride", "deep copy: %s", why.c_str());
  int nt = native_type(T_LINESTRING, dims, r.one_in(2)); GeoArrowNativeWriter nw; GeoArrowError e; e.message[0] = 0; REQUIRE(GeoArrowNativeWriterInit(&nw, (GeoArrowType)nt) == 0, "init", "w"); REQUIRE(GeoArrowNativeWriterAppend(&nw, w, &e) == 0, "append", "%s", e.message); ArrowArray a; a.release = nullptr; REQUIRE(GeoArrowNativeWriterFinish(&nw, &a, &e) == 0, "finish", "%s", e.message); GeoArrowNativeWriterReset(&nw);
  Decoder d; Features fs; ok = d.native(&a, nt, fs); a.release(&a); REQUIRE(ok, "array", "%s", d.why.c_str()); REQUIRE(fs.size() == 1 && equal(fs[0].g, g, &why), "far-stride", "native writer: %s", why.c_str());
  // the same through coordinate views, whose strides are in values
  GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_coords = n; cv.n_values = nd; if (stride % 8 == 0 && !back && ((uintptr_t)f.p & 7) == 0) {
    cv.coords_stride = stride / 8; for (int j = 0; j < nd; j++) cv.values[j] = (const double*)(f.p + j * 8);
    GeoArrowWKBWriter wb; REQUIRE(GeoArrowWKBWriterInit(&wb) == 0, "init", "w"); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); v.error = &e; GeoArrowWKBWriterInitVisitor(&wb, &v); rc = v.feat_start(&v); if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, (GeoArrowDimensions)dims); if (!rc) rc = v.coords(&v, &cv); if (!rc) rc = v.geom_end(&v); if (!rc) rc = v.feat_end(&v); REQUIRE(rc == 0, "write", "rc %d", rc);
    a.release = nullptr; REQUIRE(GeoArrowWKBWriterFinish(&wb, &a, &e) == 0, "finish", "%s", e.message); GeoArrowWKBWriterReset(&wb); OptStrings rows; Decoder dd; ok = dd.serialized(&a, GEOARROW_TYPE_WKB, rows); a.release(&a); std::string want; enc_wkb(g, want, wkb_plain()); REQUIRE(ok && rows.size() == 1 && rows[0].second == want, "far-stride", "WKB writer %s", dd.why.c_str()); count("far_views"); }
  count("far_strides"); if (bytes > (size_t)MAX32) count("beyond_2g");
}

// ---- metadata and CRS of gigabytes -------------------------------------------
// the header, then the same letter up to an inaccessible page
static void far_filler(const std::string& header, int64_t pages, const std::string& tail, std::function<void(GeoArrowStringView)> go) {
  const size_t pg = 1 << 20; int fd = (int)syscall(SYS_memfd_create, "text", 0); REQUIRE(fd >= 0, "harness", "memfd"); struct F { int fd; ~F() { close(fd); } } ff{fd};
  std::string one(pg, 'y'); REQUIRE(write(fd, one.data(), pg) == (ssize_t)pg, "harness", "memfd write");
  size_t len = (size_t)pages * pg, total = len + 4096; uint8_t* m = (uint8_t*)map_sparse(total); REQUIRE(m, "harness", "address space"); struct U { void* m; size_t n; ~U() { unmap_sparse(m, n); } } uu{m, total};
  for (int64_t i = 0; i < pages; i++) REQUIRE((void*)syscall(SYS_mmap, m + (size_t)i * pg, pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, (long)fd, 0L) == m + (size_t)i * pg, "harness", "mmap");
  memcpy(m, header.data(), header.size()); memcpy(m + len - tail.size(), tail.data(), tail.size()); protect_sparse(m, len, false); protect_sparse(m + len, 4096, true);
  size_t skip = 0; GeoArrowStringView s; s.data = (const char*)m + skip; s.size_bytes = (int64_t)len; go(s);
}
static void err_ok(const GeoArrowError& e) { REQUIRE(memchr(e.message, 0, sizeof e.message), "message", "not terminated"); }
static void far_metadata(Rng& r, bool heavy) {
  int64_t pages = heavy ? 2048 + (int64_t)r.below(40) : r.pick({2048, 2049, 4095, 4096, 4097, 6000, 8192}); GeoArrowError* e = (GeoArrowError*)raw_malloc(sizeof *e); struct FE { GeoArrowError* e; ~FE() { raw_free(e); } } fe{e}; memset(e, 'z', sizeof *e); e->message[0] = 0;
  int mode = heavy ? 9 : (int)r.below(4); distinct(mix64((uint64_t)(mode * 100000 + pages))); crumb("metadata: mode %d, %lld MB", mode, (long long)pages);
  GeoArrowMetadataView v;
  switch (mode) {
    case 0: far_filler(r.pick({std::string("["), std::string("y"), std::string("{\"crs\": y"), std::string("{}"), std::string("{}y"), std::string("{\"edges\": \"planar\"} y")}), pages, "", [&](GeoArrowStringView s) {
      REQUIRE(GeoArrowMetadataViewInit(&v, s, e) != 0, "accepted", "nonsense of %lld bytes", (long long)s.size_bytes); err_ok(*e); }); break;
    case 1: case 2: far_filler("{\"y\": \"", pages, "\"}", [&](GeoArrowStringView crs) {  // an object as it stands
      memset(&v, 0, sizeof v); v.edge_type = r.one_in(2) ? GEOARROW_EDGE_TYPE_PLANAR : GEOARROW_EDGE_TYPE_KARNEY; v.crs_type = r.one_in(2) ? GEOARROW_CRS_TYPE_UNKNOWN : GEOARROW_CRS_TYPE_PROJJSON; v.crs = crs;
      std::string pre = "{"; if (v.edge_type) pre += "\"edges\":\"karney\","; if (v.crs_type == GEOARROW_CRS_TYPE_PROJJSON) pre += "\"crs_type\":\"projjson\","; pre += "\"crs\":"; int64_t want = (int64_t)pre.size() + crs.size_bytes + 1;
      if (mode == 1) {
        char small[64]; memset(small, '#', sizeof small); int64_t n = (int64_t)r.below(60), got = GeoArrowMetadataSerialize(&v, small, n); REQUIRE(got == want, "size", "serialized metadata would have %lld bytes, not %lld", (long long)got, (long long)want); for (size_t i = (size_t)n; i < sizeof small; i++) REQUIRE(small[i] == '#', "overrun", "byte %zu of %lld", i, (long long)n);
        memset(small, '#', sizeof small); got = GeoArrowUnescapeCrs(crs, small, n); REQUIRE(got == crs.size_bytes, "size", "unescaped CRS would have %lld bytes, not %lld", (long long)got, (long long)crs.size_bytes); REQUIRE(memcmp(small, crs.data, (size_t)n) == 0, "prefix", "%lld bytes", (long long)n); for (size_t i = (size_t)n; i < sizeof small; i++) REQUIRE(small[i] == '#', "overrun", "byte %zu of %lld", i, (long long)n);
      } else {  // there is no room for it in a schema
        int type = r.pick(all_native()); ArrowSchema s; REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) == 0, "init", "schema"); SNode a, b; REQUIRE(snode_read(&s, a), "schema", "unreadable");
        int rc = GeoArrowSchemaSetMetadata(&s, &v); REQUIRE(rc != 0, "accepted", "metadata of %lld bytes in a schema", (long long)want); REQUIRE(s.release && snode_read(&s, b) && snode_show(a) == snode_show(b), "schema", "changed by a refused call"); s.release(&s);
      } }); break;
    case 3: far_filler("\"", pages, "\"", [&](GeoArrowStringView crs) {  // trailing text after small metadata is told in full
      GeoArrowStringView s = crs; s.data++; s.size_bytes--; REQUIRE(GeoArrowMetadataViewInit(&v, s, e) != 0, "accepted", "%lld bytes", (long long)s.size_bytes); err_ok(*e); }); break;
    default: far_filler("{\"edges\": \"thomas\", \"crs\": \"", pages, "\"}", [&](GeoArrowStringView s) {  // all of it read
      int rc = GeoArrowMetadataViewInit(&v, s, e); REQUIRE(rc == 0, "refused", "%s", e->message); REQUIRE(v.edge_type == GEOARROW_EDGE_TYPE_THOMAS && v.crs.data == s.data + 27 && v.crs.size_bytes == s.size_bytes - 28, "far-crs", "%lld bytes at %lld of %lld", (long long)v.crs.size_bytes, (long long)(v.crs.data - s.data), (long long)s.size_bytes);
      char out[8]; memset(out, '#', 8); int64_t n = GeoArrowUnescapeCrs(v.crs, out, 4); REQUIRE(n == v.crs.size_bytes - 2 && !memcmp(out, "yyyy####", 8), "size", "unescaped CRS would have %lld bytes, not %lld", (long long)n, (long long)v.crs.size_bytes - 2); count("far_crs"); });
  }
  count("far_metadata"); count("beyond_2g");
}

void hz_case(Case& c) {
  Rng& r = c.r;
  // the heavy ones go to the shards by what they need (idx % 8)
  switch (c.idx) {
    case 0: full_wkb(r, false, false); return;
    case 8: full_wkb(r, true, false); return;
    case 1: full_wkb(r, false, true); return;
    case 9: full_wkb(r, true, true); return;
    case 2: full_wkt(r, false); return;
    case 3: full_native(r, true, false); return;
    case 11: full_native(r, false, true); return;
    case 4: far_visit(r, true); return;
    case 12: far_visit(r, false); return;
    case 5: far_whitespace(r); return;
    case 6: limit_native(r, false); return;
    case 7: limit_native(r, true); return;
    case 14: case 22: case 30: case 38: if (c.thorough) { limit_native(r, false); return; } break;
    case 15: case 23: case 31: case 39: case 47: if (c.thorough) { limit_native(r, true); return; } break;
    case 13: far_metadata(r, true); return;
    case 10: if (c.thorough) { full_wkt(r, true); return; } break;
    case 21: if (c.thorough) { far_coords_text(r); return; } break;
    case 19: if (c.thorough) { full_native(r, true, true); return; } break;
  }
  if (r.one_in(24)) { far_metadata(r, false); REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str()); return; }
  switch (r.below(8)) {
    case 0: case 1: sparse_wkb(r); break;
    case 2: case 3: giant_builder(r); break;
    case 4: case 5: refusals(r); break;
    case 6: far_strides(r); break;
    default: giant_native(r);
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
