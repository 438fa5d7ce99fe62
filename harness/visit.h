// Visitor side: a recording monitor that checks the event grammar online and
// rebuilds the model, and a replayer that plays the model into any visitor
// with arbitrary chunking and coordinate layout.
#ifndef HZ_VISIT_H
#define HZ_VISIT_H
#include <errno.h>
#include "geoarrow/geoarrow.h"
#include "geom.h"

namespace hz {

// called at every event, if set: what a user may do inside a callback
inline thread_local void (*on_event)() = nullptr;

struct Monitor {
  GeoArrowVisitor v;
  Features feats;
  // grammar state
  bool in_feat = false, feat_null = false;
  int roots = 0;
  std::vector<Geom*> stack;   // open geometries (into feats.back().g)
  bool in_ring = false;
  bool strict = true;         // children kinds, dims equality
  // fault injection
  int64_t fail_at = -1; int fail_code = 0; int64_t n_events = 0; int64_t after_fail = 0;
  bool did_fail = false;
  uint64_t n_coord_calls = 0;
  uint64_t trace = 17;        // hash of the event kinds seen
  GeoArrowError err;
  bool check = true;

  Monitor() { init(); }
  Monitor(const Monitor&) = delete;
  void init() {
    memset(&v, 0, sizeof v);
    v.feat_start = s_feat_start; v.null_feat = s_null; v.geom_start = s_geom_start;
    v.ring_start = s_ring_start; v.coords = s_coords; v.ring_end = s_ring_end;
    v.geom_end = s_geom_end; v.feat_end = s_feat_end;
    v.private_data = this; v.error = &err; err.message[0] = 0;
  }
  void clear() { feats.clear(); in_feat = false; stack.clear(); in_ring = false; roots = 0; n_events = 0; did_fail = false; after_fail = 0; trace = 17; n_coord_calls = 0; }
  bool balanced() const { return !in_feat && stack.empty() && !in_ring; }

  int ev(int kind) {
    if (on_event) on_event();
    if (did_fail) after_fail++;
    trace = mix64(trace ^ (uint64_t)kind);
    if (fail_at >= 0 && n_events++ == fail_at) { did_fail = true; return fail_code; }
    if (fail_at < 0) n_events++;
    return 0;
  }
#define BAD(...) do { if (m->check) note_fail("event-grammar", __VA_ARGS__); } while (0)
  static Monitor* M(GeoArrowVisitor* v) { return (Monitor*)v->private_data; }
  static int s_feat_start(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(1);
    if (m->in_feat) BAD("feat_start inside a feature");
    m->in_feat = true; m->feat_null = false; m->roots = 0; m->stack.clear(); m->in_ring = false;
    m->feats.emplace_back();
    return rc;
  }
  static int s_null(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(2);
    if (!m->in_feat) { BAD("null_feat outside a feature"); return rc; }
    if (m->roots || m->feat_null) BAD("null_feat after other content");
    m->feat_null = true; m->feats.back().null = true;
    return rc;
  }
  __attribute__((no_sanitize("enum"))) static int s_geom_start(GeoArrowVisitor* v, GeoArrowGeometryType t, GeoArrowDimensions d) {
    Monitor* m = M(v);
    int rc = m->ev(16 + (int)t * 8 + (int)d);
    if (!m->in_feat || m->feat_null) { BAD("geom_start outside a non-null feature"); return rc; }
    if (m->in_ring) BAD("geom_start inside a ring");
    if ((int)t < 1 || (int)t > 7) BAD("geom_start with type %d", (int)t);
    if ((int)d < 1 || (int)d > 4) { BAD("geom_start with dimensions %d", (int)d); return rc; }
    Geom g; g.type = (int)t; g.dims = (int)d;
    if (m->stack.empty()) {
      if (m->roots++) BAD("second root geometry in a feature");
      m->feats.back().g = g;
      m->stack.push_back(&m->feats.back().g);
    } else {
      Geom* p = m->stack.back();
      if (m->strict) {
        bool ok = p->type == T_COLLECTION || (p->type == T_MULTIPOINT && t == 1) || (p->type == T_MULTILINESTRING && t == 2) || (p->type == T_MULTIPOLYGON && t == 3);
        if (!ok) BAD("child type %d inside type %d", (int)t, p->type);
      }
      p->kids.push_back(g);
      m->stack.push_back(&p->kids.back());
    }
    return rc;
  }
  static int s_ring_start(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(3);
    if (m->stack.empty() || m->stack.back()->type != T_POLYGON || m->in_ring) { BAD("ring_start outside a polygon or inside a ring"); return rc; }
    m->in_ring = true;
    Geom g; g.type = T_LINESTRING; g.dims = m->stack.back()->dims;
    m->stack.back()->kids.push_back(g);
    return rc;
  }
  static int s_coords(GeoArrowVisitor* v, const GeoArrowCoordView* c) {
    Monitor* m = M(v);
    int rc = m->ev(4);
    m->n_coord_calls++;
    if (m->stack.empty()) { BAD("coords outside a geometry"); return rc; }
    Geom* g = m->stack.back();
    if (m->in_ring) g = &g->kids.back();
    else if (!is_seq(g->type)) { BAD("coords directly inside type %d", g->type); return rc; }
    if (c->n_values != ndim(g->dims)) { BAD("coords with %d values inside dims %d", c->n_values, g->dims); return rc; }
    if (c->n_coords < 0) { BAD("coords with n_coords %lld", (long long)c->n_coords); return rc; }
    for (int64_t i = 0; i < c->n_coords; i++)
      for (int j = 0; j < c->n_values; j++) {
        double d; memcpy(&d, &GEOARROW_COORD_VIEW_VALUE(c, i, j), 8);
        g->xs.push_back(d);
      }
    if (g->type == T_POINT && g->ncoords() > 1 && m->strict) BAD("%zu coordinates in a point", g->ncoords());
    return rc;
  }
  static int s_ring_end(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(5);
    if (!m->in_ring) { BAD("ring_end without ring_start"); return rc; }
    m->in_ring = false;
    return rc;
  }
  static int s_geom_end(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(6);
    if (m->in_ring || m->stack.empty()) { BAD("geom_end without open geometry (or inside a ring)"); return rc; }
    m->stack.pop_back();
    return rc;
  }
  static int s_feat_end(GeoArrowVisitor* v) {
    Monitor* m = M(v);
    int rc = m->ev(7);
    if (!m->in_feat) { BAD("feat_end without feat_start"); return rc; }
    if (!m->stack.empty() || m->in_ring) { if (!m->did_fail) BAD("feat_end with open geometry"); }
    if (!m->feat_null && m->roots == 0 && !m->did_fail) BAD("non-null feature without geometry");
    m->in_feat = false;
    return rc;
  }
#undef BAD
};

// ---- replay ----------------------------------------------------------------
struct Layout {
  Rng* r = nullptr;           // null: one interleaved call per sequence
  bool chunk = true;
  bool empty_calls = true;    // extra calls with zero coordinates
};
enum { CB_OK = 0 };

// Coordinates are copied to exact-size heap blocks for the time of the call
inline int play_coords(GeoArrowVisitor* v, const std::vector<double>& xs, int dims, const Layout& L) {
  int nd = ndim(dims);
  size_t n = xs.size() / nd, pos = 0;
  auto call = [&](size_t from, size_t cnt) {
    GeoArrowCoordView cv; memset(&cv, 0, sizeof cv);
    cv.n_coords = (int64_t)cnt; cv.n_values = nd;
    int layout = L.r ? (int)L.r->below(3) : 0;
    if (layout == 2) {  // constant view when the coordinates are all the same
      for (size_t i = 1; i < cnt && layout == 2; i++)
        if (memcmp(&xs[(from + i) * nd], &xs[from * nd], 8 * nd)) layout = 1;
      if (cnt == 0) layout = 0;
    }
    double* buf; int at[4] = {0, 1, 2, 3};  // where the dimensions lie in memory
    if (L.r && L.r->one_in(4)) for (int j = nd - 1; j > 0; j--) std::swap(at[j], at[L.r->below((size_t)j + 1)]);
    if (layout == 0) {
      size_t pad = L.r && L.r->one_in(3) ? L.r->below(3) : 0;  // stride may exceed n_values
      size_t st = nd + pad;
      size_t len = cnt ? (cnt - 1) * st + nd : 0;
      buf = (double*)raw_malloc(len * 8);
      for (size_t i = 0; i < cnt; i++) for (int j = 0; j < nd; j++) buf[i * st + at[j]] = xs[(from + i) * nd + j];
      for (int j = 0; j < nd; j++) cv.values[j] = buf + (cnt ? at[j] : 0);
      cv.coords_stride = (int32_t)st;
    } else if (layout == 1) {
      buf = (double*)raw_malloc(cnt * nd * 8);
      for (size_t i = 0; i < cnt; i++) for (int j = 0; j < nd; j++) buf[at[j] * cnt + i] = xs[(from + i) * nd + j];
      for (int j = 0; j < nd; j++) cv.values[j] = buf + at[j] * cnt;
      cv.coords_stride = 1;
    } else {
      buf = (double*)raw_malloc(nd * 8);
      for (int j = 0; j < nd; j++) { buf[at[j]] = xs[from * nd + j]; cv.values[j] = buf + at[j]; }
      cv.coords_stride = 0;
    }
    int rc = v->coords(v, &cv);
    if (L.r && cnt) memset(buf, 0xAB, 8);  // scribble: the consumer must have copied
    raw_free(buf);
    return rc;
  };
  if (!L.r || !L.chunk) { if (n == 0 && !(L.r && L.empty_calls && L.r->one_in(3))) return 0; return call(0, n); }
  if (n == 0) { if (L.empty_calls && L.r->one_in(3)) return call(0, 0); return 0; }
  bool single = L.r->chance(0.4);
  while (pos < n) {
    size_t c = single ? n : 1 + L.r->below(L.r->one_in(4) ? n - pos : (n - pos < 5 ? n - pos : 5));
    if (L.r->one_in(50) && L.empty_calls) { int rc = call(pos, 0); if (rc) return rc; }
    int rc = call(pos, c);
    if (rc) return rc;
    pos += c;
  }
  return 0;
}
#define HZ_TRY(x) do { int rc_ = (x); if (rc_) return rc_; } while (0)
inline int play_geom(GeoArrowVisitor* v, const Geom& g, const Layout& L) {
  HZ_TRY(v->geom_start(v, (GeoArrowGeometryType)g.type, (GeoArrowDimensions)g.dims));
  if (is_seq(g.type)) HZ_TRY(play_coords(v, g.xs, g.dims, L));
  else if (g.type == T_POLYGON)
    for (auto& k : g.kids) {
      HZ_TRY(v->ring_start(v));
      HZ_TRY(play_coords(v, k.xs, k.dims, L));
      HZ_TRY(v->ring_end(v));
    }
  else for (auto& k : g.kids) HZ_TRY(play_geom(v, k, L));
  return v->geom_end(v);
}
inline int play(GeoArrowVisitor* v, const Feature& f, const Layout& L) {
  HZ_TRY(v->feat_start(v));
  if (f.null) HZ_TRY(v->null_feat(v));
  else {
    int rc = play_geom(v, f.g, L);
    if (rc == EAGAIN) return v->feat_end(v);
    if (rc) return rc;
  }
  return v->feat_end(v);
}
inline int play(GeoArrowVisitor* v, const Features& fs, const Layout& L) {
  for (auto& f : fs) HZ_TRY(play(v, f, L));
  return 0;
}

// ---- GeoArrowGeometryView built from the model, with arbitrary strides ------
struct NodeStyle { Rng* r = nullptr; bool swap = true; bool strides = true; };
struct OwnedView {
  std::vector<GeoArrowGeometryNode> nodes;
  std::vector<Exact> bufs;
  GeoArrowGeometryView view() const { GeoArrowGeometryView w; w.root = nodes.data(); w.size_nodes = (int64_t)nodes.size(); return w; }
};
extern const double kNaNHolder;
inline const uint8_t* nan_ptr() {
  static const double n = std::numeric_limits<double>::quiet_NaN();
  return (const uint8_t*)&n;
}
inline void add_nodes(OwnedView& o, const Geom& g, int level, const NodeStyle& st) {
  GeoArrowGeometryNode n; memset(&n, 0, sizeof n);
  for (int j = 0; j < 4; j++) n.coords[j] = nan_ptr();
  n.geometry_type = (uint8_t)g.type; n.dimensions = (uint8_t)g.dims; n.level = (uint8_t)level;
  if (is_seq(g.type)) {
    int nd = ndim(g.dims); size_t cnt = g.ncoords();
    n.size = (uint32_t)cnt;
    bool sw = st.r && st.swap && st.r->one_in(3);
    if (sw) n.flags |= GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
    auto put = [&](uint8_t* p, double d) {
      uint8_t b[8]; memcpy(b, &d, 8);
      if (sw) for (int i = 0; i < 4; i++) std::swap(b[i], b[7 - i]);
      memcpy(p, b, 8);
    };
    int layout = st.r && st.strides ? (int)st.r->below(9) : 0;
    if (layout == 3) for (size_t i = 1; i < cnt; i++) if (memcmp(&g.xs[i * nd], &g.xs[0], 8 * nd)) { layout = 4; break; }
    // interleaved with random gap and misalignment / separated / reversed / constant
    size_t lead = st.r && st.strides ? st.r->below(4) : 0;
    if (cnt > 0 || layout > 6) {
      if (layout == 0 || layout == 4) {
        size_t stride = nd * 8 + (layout == 4 ? st.r->below(13) : 0);
        std::string b(lead + (cnt - 1) * stride + nd * 8, '\x5a');
        for (size_t i = 0; i < cnt; i++) for (int j = 0; j < nd; j++) put((uint8_t*)&b[lead + i * stride + j * 8], g.xs[i * nd + j]);
        o.bufs.emplace_back(b);
        for (int j = 0; j < nd; j++) { n.coords[j] = o.bufs.back().p + lead + j * 8; n.coord_stride[j] = (int32_t)stride; }
      } else if (layout == 1 || layout == 2) {
        for (int j = 0; j < nd; j++) {
          std::string b(lead + cnt * 8, '\x5a');
          for (size_t i = 0; i < cnt; i++) put((uint8_t*)&b[lead + (layout == 2 ? cnt - 1 - i : i) * 8], g.xs[i * nd + j]);
          o.bufs.emplace_back(b);
          n.coords[j] = o.bufs.back().p + lead + (layout == 2 ? (cnt - 1) * 8 : 0);
          n.coord_stride[j] = layout == 2 ? -8 : 8;
        }
      } else if (layout > 6) {  // the library's own setters, which leave the level and flags alone
        std::string b(cnt * (size_t)nd * 8, 0);
        for (size_t i = 0; i < cnt; i++) for (int j = 0; j < nd; j++) put((uint8_t*)&b[(layout == 7 ? i * (size_t)nd + (size_t)j : (size_t)j * cnt + i) * 8], g.xs[i * nd + j]);
        o.bufs.emplace_back(b);
        GeoArrowBufferView bv; bv.data = cnt == 0 && st.r->one_in(2) ? nullptr : o.bufs.back().p; bv.size_bytes = (int64_t)o.bufs.back().n;
        GeoArrowGeometryNode was = n; memset(&n, 0x5a, sizeof n); n.level = was.level; n.flags = was.flags; n.user_data = 0;
        if (layout == 7) GeoArrowGeometryNodeSetInterleaved(&n, (GeoArrowGeometryType)g.type, (GeoArrowDimensions)g.dims, bv); else GeoArrowGeometryNodeSetSeparated(&n, (GeoArrowGeometryType)g.type, (GeoArrowDimensions)g.dims, bv);
        REQUIRE(n.size == was.size && n.level == was.level && n.flags == was.flags, "node-setter", "%u coordinates instead of %u, level %d, flags %d", n.size, was.size, n.level, n.flags);
      } else if (layout > 4) {  // dimensions spread over blocks in any order, each block with its own stride and direction
        Rng& r = *st.r; int home[4], nb = (int)r.range(1, nd); for (int j = 0; j < nd; j++) home[j] = (int)r.below((size_t)nb);
        for (int k = 0; k < nb; k++) {
          std::vector<int> in; for (int j = 0; j < nd; j++) if (home[j] == k) in.push_back(j);
          if (in.empty()) continue;
          while ((int)in.size() < nd && r.one_in(2)) in.push_back(-1);  // slots of no dimension
          if (r.one_in(2)) for (size_t j = in.size() - 1; j > 0; j--) std::swap(in[j], in[r.below(j + 1)]);
          size_t stride = in.size() * 8 + (r.one_in(3) ? r.below(13) : 0); bool back = r.one_in(4);
          std::string b(lead + (cnt - 1) * stride + in.size() * 8, '\x5a');
          for (size_t i = 0; i < cnt; i++) for (size_t j = 0; j < in.size(); j++) if (in[j] >= 0) put((uint8_t*)&b[lead + (back ? cnt - 1 - i : i) * stride + j * 8], g.xs[i * nd + (size_t)in[j]]);
          o.bufs.emplace_back(b);
          for (size_t j = 0; j < in.size(); j++) if (in[j] >= 0) { n.coords[in[j]] = o.bufs.back().p + lead + (back ? (cnt - 1) * stride : 0) + j * 8; n.coord_stride[in[j]] = back ? -(int32_t)stride : (int32_t)stride; }
        }
      } else {
        std::string b(nd * 8, 0);
        for (int j = 0; j < nd; j++) put((uint8_t*)&b[j * 8], g.xs[j]);
        o.bufs.emplace_back(b);
        for (int j = 0; j < nd; j++) { n.coords[j] = o.bufs.back().p + j * 8; n.coord_stride[j] = 0; }
      }
    }
    o.nodes.push_back(n);
    return;
  }
  n.size = (uint32_t)g.kids.size();
  o.nodes.push_back(n);
  for (auto& k : g.kids) add_nodes(o, k, level + 1, st);
}
inline OwnedView make_view(const Geom& g, NodeStyle st = NodeStyle()) { OwnedView o; add_nodes(o, g, 0, st); return o; }

// model from a view by independent walking
inline bool view_to_geom(const GeoArrowGeometryNode*& p, const GeoArrowGeometryNode* end, Geom& g, std::string& why) {
  if (p >= end) { why = "ran out of nodes"; return false; }
  const GeoArrowGeometryNode* n = p++;
  g.type = n->geometry_type; g.dims = n->dimensions;
  if (g.dims < 1 || g.dims > 4 || g.type < 1 || g.type > 7) { why = fmt("node type %d dims %d", g.type, g.dims); return false; }
  if (is_seq(g.type)) {
    int nd = ndim(g.dims);
    for (int j = 0; j < 4; j++) {  // readable even when there is nothing to read, NaN where there is no such dimension
      if (!n->coords[j]) { why = fmt("coords[%d] of a node with %d dimensions and %u coordinates is NULL", j, nd, n->size); return false; }
      for (uint32_t i = 0; i < (n->size ? n->size : 1); i += n->size > 8 ? n->size / 4 : 1) {
        double d; memcpy(&d, n->coords[j] + (int64_t)i * n->coord_stride[j], 8);
        if (j >= nd && !(d != d)) { why = fmt("coords[%d] of a node with %d dimensions points at %g, not at NaN", j, nd, d); return false; }
      }
    }
    g.xs.reserve((size_t)n->size * nd);
    for (uint32_t i = 0; i < n->size; i++)
      for (int j = 0; j < nd; j++) {
        uint8_t b[8];
        memcpy(b, n->coords[j] + (int64_t)i * n->coord_stride[j], 8);
        if (n->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) for (int k = 0; k < 4; k++) std::swap(b[k], b[7 - k]);
        double d; memcpy(&d, b, 8); g.xs.push_back(d);
      }
    return true;
  }
  for (uint32_t i = 0; i < n->size; i++) {
    if (p < end && p->level != n->level + 1) { why = fmt("child level %d under level %d", p->level, n->level); return false; }
    g.kids.emplace_back();
    if (!view_to_geom(p, end, g.kids.back(), why)) return false;
  }
  return true;
}
inline bool view_to_geom(GeoArrowGeometryView w, Geom& g, std::string& why) {
  const GeoArrowGeometryNode* p = w.root; const GeoArrowGeometryNode* e = p + w.size_nodes;
  if (!view_to_geom(p, e, g, why)) return false;
  if (p != e) { why = fmt("%lld nodes left over", (long long)(e - p)); return false; }
  return true;
}

}  // namespace hz
#endif
