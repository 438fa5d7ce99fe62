// Hand-laid-out Arrow arrays (inputs) and an independent validator/decoder
// (outputs). Nothing here uses the library's array code.
#ifndef HZ_ARROW_REF_H
#define HZ_ARROW_REF_H
#include "visit.h"
#include "wkx.h"

namespace hz {

// ---- type identifiers (independent algebra) -------------------------------
inline int native_type(int geom, int dims, bool interleaved) { return geom + (dims - 1) * 1000 + (interleaved ? 10000 : 0); }
inline bool is_native(int t) { int g = t % 1000; return t > 0 && t < 20000 && g >= 1 && g <= 6; }
inline bool is_box(int t) { return t % 1000 == 990; }
inline int type_geom(int t) { return t % 1000; }
inline int type_dims(int t) { return (t % 10000) / 1000 + 1; }
inline bool type_inter(int t) { return t / 10000 == 1; }
inline std::vector<int> all_native() {
  std::vector<int> v;
  for (int i = 0; i < 2; i++) for (int d = 1; d <= 4; d++) for (int g = 1; g <= 6; g++) v.push_back(native_type(g, d, i));
  return v;
}
inline std::vector<int> all_serialized() { return {GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKB_VIEW, GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKT_VIEW}; }
inline bool is_wkb(int t) { return t == GEOARROW_TYPE_WKB || t == GEOARROW_TYPE_LARGE_WKB || t == GEOARROW_TYPE_WKB_VIEW; }
inline bool is_wkt(int t) { return t == GEOARROW_TYPE_WKT || t == GEOARROW_TYPE_LARGE_WKT || t == GEOARROW_TYPE_WKT_VIEW; }
inline int list_depth(int geom) { static const int d[] = {-1, 0, 1, 2, 1, 2, 3}; return d[geom]; }

// ---- owned input arrays ----------------------------------------------------
struct ReleaseLog { int released = 0; int live = 0; };
struct NodePriv {
  std::vector<void*> owned; std::vector<const void*> buffers; std::vector<ArrowArray*> children;
  ReleaseLog* log; bool root;
  std::vector<std::pair<const void*, size_t>> sizes;  // for digests
  std::vector<std::pair<void*, size_t>> maps;  // see big.h
};
void unmap_sparse(void* p, size_t n);
inline void node_release(ArrowArray* a) {
  NodePriv* p = (NodePriv*)a->private_data;
  for (ArrowArray* c : p->children) { if (c->release) c->release(c); delete c; }
  for (void* b : p->owned) raw_free(b);
  for (auto& m : p->maps) unmap_sparse(m.first, m.second);
  if (p->log && p->root) { p->log->released++; p->log->live--; }
  delete p;
  a->release = nullptr;
}
inline NodePriv* node_init(ArrowArray* a, ReleaseLog* log, bool root) {
  memset(a, 0, sizeof *a);
  NodePriv* p = new NodePriv(); p->log = log; p->root = root;
  if (log && root) log->live++;
  a->private_data = p; a->release = node_release;
  return p;
}
inline void* node_buf(NodePriv* p, const void* d, size_t n, bool null_ok = false) {
  if (n == 0 && null_ok) { p->buffers.push_back(nullptr); p->sizes.push_back({nullptr, 0}); return nullptr; }
  void* b = raw_malloc(n);
  if (n) memcpy(b, d, n);
  p->owned.push_back(b); p->buffers.push_back(b); p->sizes.push_back({b, n});
  return b;
}
inline void node_done(ArrowArray* a) {
  NodePriv* p = (NodePriv*)a->private_data;
  a->buffers = p->buffers.data(); a->n_buffers = (int64_t)p->buffers.size();
  a->n_children = (int64_t)p->children.size(); a->children = p->children.empty() ? nullptr : p->children.data();
}
inline uint64_t digest(const ArrowArray* a, uint64_t h = 3) {
  NodePriv* p = (NodePriv*)a->private_data;
  int64_t v[6] = {a->length, a->null_count, a->offset, a->n_buffers, a->n_children, (int64_t)(intptr_t)a->release};
  h = fnv(v, sizeof v, h);
  for (int64_t i = 0; i < a->n_buffers; i++) { h = fnv(&a->buffers[i], sizeof(void*), h); }
  for (auto& s : p->sizes) h = fnv(s.first, s.second, h);
  for (ArrowArray* c : p->children) h = digest(c, h);
  return h;
}

struct ArrayStyle {
  Rng* r = nullptr;       // null: compact, no slicing
  bool slices = true;
  bool null_garbage = true;  // content under null slots
  int max_view_buffers = 3;
};
inline std::string bitmap(const std::vector<bool>& valid) {
  std::string b((valid.size() + 7) / 8, 0);
  for (size_t i = 0; i < valid.size(); i++) if (valid[i]) b[i / 8] |= (char)(1 << (i % 8));
  return b;
}

struct LNode { std::vector<LNode> kids; std::vector<double> row; };  // list tree; leaf = one coordinate row
inline LNode junk_node(Rng& r, int depth, int nd) {
  LNode n;
  if (depth == 0) for (int i = 0; i < nd; i++) n.row.push_back(-777.0 - (double)r.below(100));
  else for (size_t i = r.below(3); i > 0; i--) n.kids.push_back(junk_node(r, depth - 1, nd));
  return n;
}
inline LNode to_lnode(const Geom& g, int target) {
  // g already of the target geometry type
  LNode n; int nd = ndim(g.dims);
  auto rows = [&](const std::vector<double>& xs, LNode& out) {
    for (size_t i = 0; i < xs.size(); i += nd) { LNode l; l.row.assign(xs.begin() + i, xs.begin() + i + nd); out.kids.push_back(l); }
  };
  switch (target) {
    case T_POINT:
      if (g.xs.empty()) n.row.assign(nd, std::numeric_limits<double>::quiet_NaN()); else n.row = g.xs;
      break;
    case T_LINESTRING: rows(g.xs, n); break;
    case T_MULTIPOINT:
      for (auto& k : g.kids) n.kids.push_back(to_lnode(k, T_POINT));
      break;
    case T_POLYGON: case T_MULTILINESTRING:
      for (auto& k : g.kids) n.kids.push_back(to_lnode(k, T_LINESTRING));
      break;
    case T_MULTIPOLYGON:
      for (auto& k : g.kids) n.kids.push_back(to_lnode(k, T_POLYGON));
      break;
  }
  return n;
}

// validity: size of elements (logical), or empty if no bitmap
inline void build_level(std::vector<LNode> elems, int depth, int dims, bool inter, std::vector<bool> validity, bool with_bitmap, ArrayStyle& st, ReleaseLog* log, bool root, ArrowArray* out) {
  int nd = ndim(dims);
  NodePriv* p = node_init(out, log, root);
  size_t lead = 0, trail = 0, n = elems.size();
  if (st.r && st.slices) { lead = st.r->chance(0.5) ? st.r->below(st.r->one_in(4) ? 12 : 4) : 0; trail = st.r->below(3); }
  std::vector<LNode> all;
  for (size_t i = 0; i < lead; i++) all.push_back(junk_node(*st.r, depth, nd));
  for (auto& e : elems) all.push_back(std::move(e));
  for (size_t i = 0; i < trail; i++) all.push_back(junk_node(*st.r, depth, nd));
  out->offset = (int64_t)lead; out->length = (int64_t)n;
  int64_t nulls = 0;
  if (with_bitmap) {
    std::vector<bool> v;
    for (size_t i = 0; i < lead; i++) v.push_back(st.r->chance(0.5));
    for (bool b : validity) { v.push_back(b); nulls += !b; }
    if (st.r) for (size_t i = 0; i < trail; i++) v.push_back(st.r->chance(0.5));
    std::string b = bitmap(v);
    node_buf(p, b.data(), b.size());
  } else node_buf(p, nullptr, 0, true);
  // null_count may be left unknown (-1) only together with a bitmap
  out->null_count = (with_bitmap && st.r && st.r->one_in(4)) ? -1 : nulls;
  if (depth > 0) {
    std::vector<LNode> kids;
    size_t gap = st.r && st.slices ? st.r->below(3) : 0;
    for (size_t i = 0; i < gap; i++) kids.push_back(junk_node(*st.r, depth - 1, nd));
    std::vector<int32_t> off{(int32_t)gap};
    for (auto& e : all) { for (auto& k : e.kids) kids.push_back(std::move(k)); off.push_back((int32_t)kids.size()); }
    node_buf(p, off.data(), off.size() * 4);
    ArrowArray* c = new ArrowArray;
    p->children.push_back(c);
    build_level(std::move(kids), depth - 1, dims, inter, {}, false, st, log, false, c);
  } else if (inter) {
    ArrowArray* c = new ArrowArray; p->children.push_back(c);
    NodePriv* q = node_init(c, log, false);
    std::vector<double> vals;
    size_t cl = st.r && st.slices ? st.r->below(4) : 0;
    for (size_t i = 0; i < cl; i++) vals.push_back(-555);
    for (auto& e : all) vals.insert(vals.end(), e.row.begin(), e.row.end());
    node_buf(q, nullptr, 0, true); node_buf(q, vals.data(), vals.size() * 8);
    c->offset = (int64_t)cl; c->length = (int64_t)(vals.size() - cl);
    node_done(c);
  } else {
    for (int j = 0; j < nd; j++) {
      ArrowArray* c = new ArrowArray; p->children.push_back(c);
      NodePriv* q = node_init(c, log, false);
      std::vector<double> vals;
      size_t cl = st.r && st.slices ? st.r->below(4) : 0;
      for (size_t i = 0; i < cl; i++) vals.push_back(-555);
      for (auto& e : all) vals.push_back(e.row[j]);
      node_buf(q, nullptr, 0, true); node_buf(q, vals.data(), vals.size() * 8);
      c->offset = (int64_t)cl; c->length = (int64_t)(vals.size() - cl);
      node_done(c);
    }
  }
  node_done(out);
}

inline void build_native(int type, const Features& f, ArrowArray* out, ReleaseLog* log, ArrayStyle st) {
  int g = type_geom(type), d = type_dims(type);
  std::vector<LNode> el; std::vector<bool> valid; bool any = false;
  for (auto& x : f) {
    valid.push_back(!x.null); any |= x.null;
    if (x.null) {
      if (st.r && st.null_garbage) el.push_back(junk_node(*st.r, list_depth(g), ndim(d)));
      else { LNode n; if (list_depth(g) == 0) n.row.assign(ndim(d), 0); el.push_back(n); }
    } else el.push_back(to_lnode(x.g, g));
  }
  bool bm = any || (st.r && st.r->one_in(3));
  build_level(std::move(el), list_depth(g), d, type_inter(type), valid, bm, st, log, true, out);
}

using OptStrings = std::vector<std::pair<bool, std::string>>;  // (valid, value)

inline void build_serialized(int type, const OptStrings& vals_in, ArrowArray* out, ReleaseLog* log, ArrayStyle st) {
  NodePriv* p = node_init(out, log, true);
  size_t lead = 0, trail = 0, n = vals_in.size();
  if (st.r && st.slices) { lead = st.r->chance(0.5) ? st.r->below(10) : 0; trail = st.r->below(3); }
  OptStrings v;
  auto junk = [&]() { v.push_back({st.r->chance(0.7), st.r->chance(0.5) ? std::string("\x7fjunk that is never to be read") : std::string("??")}); };
  for (size_t i = 0; i < lead; i++) junk();
  for (auto& x : vals_in) {
    v.push_back(x);
    if (!x.first && !(st.r && st.null_garbage && st.r->chance(0.5))) v.back().second.clear();
  }
  for (size_t i = 0; i < trail; i++) junk();
  int64_t nulls = 0; bool any = false; std::vector<bool> valid;
  for (size_t i = 0; i < v.size(); i++) { valid.push_back(v[i].first); any |= !v[i].first; if (i >= lead && i < lead + n) nulls += !v[i].first; }
  out->offset = (int64_t)lead; out->length = (int64_t)n;
  bool with_bitmap = any || (st.r && st.r->one_in(3));
  if (with_bitmap) { std::string b = bitmap(valid); node_buf(p, b.data(), b.size()); }
  else node_buf(p, nullptr, 0, true);
  out->null_count = (with_bitmap && st.r && st.r->one_in(4)) ? -1 : nulls;
  bool large = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT;
  bool view = type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_WKT_VIEW;
  if (!view) {
    size_t gap = st.r && st.slices ? st.r->below(9) : 0;
    std::string data(gap, 'G'); std::vector<int32_t> o32{(int32_t)gap}; std::vector<int64_t> o64{(int64_t)gap};
    for (auto& x : v) { data += x.second; o32.push_back((int32_t)data.size()); o64.push_back((int64_t)data.size()); }
    if (large) node_buf(p, o64.data(), o64.size() * 8); else node_buf(p, o32.data(), o32.size() * 4);
    node_buf(p, data.data(), data.size(), st.r ? st.r->chance(0.5) : true);
  } else {
    std::vector<std::string> bufs(1 + (st.r ? st.r->below(st.max_view_buffers) : 0));
    std::string views;
    for (auto& x : v) {
      char e[16]; memset(e, 0, 16);
      int32_t len = (int32_t)x.second.size();
      memcpy(e, &len, 4);
      if (len <= 12) memcpy(e + 4, x.second.data(), len);
      else {
        int32_t b = st.r ? (int32_t)st.r->below(bufs.size()) : 0;
        if (st.r && st.r->one_in(3)) bufs[b] += "gap";
        int32_t off = (int32_t)bufs[b].size();
        memcpy(e + 4, x.second.data(), 4); memcpy(e + 8, &b, 4); memcpy(e + 12, &off, 4);
        bufs[b] += x.second;
      }
      views.append(e, 16);
    }
    node_buf(p, views.data(), views.size(), st.r ? st.r->chance(0.5) : true);
    std::vector<int64_t> sizes;
    // trailing unused buffers are legal; a first empty buffer too
    if (bufs.size() == 1 && bufs[0].empty()) bufs.clear();
    for (auto& b : bufs) { node_buf(p, b.data(), b.size()); sizes.push_back((int64_t)b.size()); }
    node_buf(p, sizes.data(), sizes.size() * 8);
  }
  node_done(out);
}

// boxes as a struct of doubles (xmin, ymin, [zmin, mmin], xmax, ymax, ..)
inline void build_box(int type, const std::vector<std::pair<bool, std::vector<double>>>& rows, ArrowArray* out, ReleaseLog* log, ArrayStyle st) {
  int nv = 2 * ndim(type_dims(type));
  NodePriv* p = node_init(out, log, true);
  size_t lead = st.r && st.slices ? st.r->below(5) : 0, trail = st.r && st.slices ? st.r->below(3) : 0, n = rows.size();
  std::vector<bool> valid(lead, true); int64_t nulls = 0;
  for (auto& r : rows) { valid.push_back(r.first); nulls += !r.first; }
  for (size_t i = 0; i < trail; i++) valid.push_back(true);
  if (nulls || (st.r && st.r->one_in(3))) { std::string b = bitmap(valid); node_buf(p, b.data(), b.size()); } else node_buf(p, nullptr, 0, true);
  out->null_count = nulls; out->offset = (int64_t)lead; out->length = (int64_t)n;
  for (int j = 0; j < nv; j++) {
    ArrowArray* c = new ArrowArray; p->children.push_back(c);
    NodePriv* q = node_init(c, log, false);
    size_t cl = st.r && st.slices ? st.r->below(4) : 0;
    std::vector<double> v(cl + lead, -333.0);
    for (auto& r : rows) v.push_back(r.second[j]);
    v.resize(v.size() + trail, -333.0);
    node_buf(q, nullptr, 0, true); node_buf(q, v.data(), v.size() * 8);
    c->offset = (int64_t)cl; c->length = (int64_t)(v.size() - cl);
    node_done(c);
  }
  node_done(out);
}

// ---- validator / decoder of produced arrays --------------------------------
struct Decoder {
  std::string why;
  bool bad(std::string s) { if (why.empty()) why = s; return false; }
  static bool bit(const void* b, int64_t i) { return (((const uint8_t*)b)[i / 8] >> (i % 8)) & 1; }

  bool common(const ArrowArray* a, int64_t nbuf, int64_t nchild) {
    if (!a->release) return bad("array is released");
    if (a->length < 0 || a->offset < 0) return bad(fmt("length %lld offset %lld", (long long)a->length, (long long)a->offset));
    if (a->n_buffers != nbuf) return bad(fmt("%lld buffers, expected %lld", (long long)a->n_buffers, (long long)nbuf));
    if (a->n_children != nchild) return bad(fmt("%lld children, expected %lld", (long long)a->n_children, (long long)nchild));
    if (a->dictionary) return bad("unexpected dictionary");
    if (nbuf && !a->buffers) return bad("no buffers");
    for (int64_t i = 0; i < nchild; i++) if (!a->children || !a->children[i] || !a->children[i]->release) return bad("missing or released child");
    if (a->null_count < -1 || a->null_count > a->length) return bad(fmt("null_count %lld of %lld", (long long)a->null_count, (long long)a->length));
    return true;
  }
  bool validity(const ArrowArray* a, std::vector<bool>& v, bool may_null) {
    int64_t nulls = 0;
    v.assign((size_t)a->length, true);
    if (a->buffers[0]) for (int64_t i = 0; i < a->length; i++) if (!bit(a->buffers[0], a->offset + i)) { v[i] = false; nulls++; }
    if (a->null_count != -1 && a->null_count != nulls) return bad(fmt("null_count %lld but %lld nulls", (long long)a->null_count, (long long)nulls));
    if (!may_null && nulls) return bad("nulls in an inner array");
    return true;
  }
  // rows in [0, length) of a coordinate array
  bool coords(const ArrowArray* a, int dims, bool inter, std::vector<double>& xs, bool may_null, std::vector<bool>* valid_out) {
    int nd = ndim(dims);
    std::vector<bool> v;
    if (inter) {
      if (!common(a, 1, 1) || !validity(a, v, may_null)) return false;
      const ArrowArray* c = a->children[0];
      if (!common(c, 2, 0)) return false;
      if (c->length != (a->offset + a->length) * nd) return bad(fmt("interleaved child length %lld for %lld coords", (long long)c->length, (long long)(a->offset + a->length)));
      std::vector<bool> cv; if (!validity(c, cv, false)) return false;
      const double* p = (const double*)c->buffers[1];
      if (a->length && !p) return bad("no coordinate buffer");
      for (int64_t i = 0; i < a->length * nd; i++) { double d; memcpy(&d, p + c->offset + a->offset * nd + i, 8); xs.push_back(d); }
    } else {
      if (!common(a, 1, nd) || !validity(a, v, may_null)) return false;
      for (int j = 0; j < nd; j++) {
        const ArrowArray* c = a->children[j];
        if (!common(c, 2, 0)) return false;
        if (c->length != a->offset + a->length) return bad(fmt("ordinate child %d length %lld for %lld coords", j, (long long)c->length, (long long)(a->offset + a->length)));
        std::vector<bool> cv; if (!validity(c, cv, false)) return false;
        if (a->length && !c->buffers[1]) return bad("no coordinate buffer");
      }
      for (int64_t i = 0; i < a->length; i++)
        for (int j = 0; j < nd; j++) {
          const ArrowArray* c = a->children[j];
          double d; memcpy(&d, (const double*)c->buffers[1] + c->offset + a->offset + i, 8);
          xs.push_back(d);
        }
    }
    if (valid_out) *valid_out = v;
    return true;
  }
  bool list(const ArrowArray* a, std::vector<int32_t>& off, bool may_null, std::vector<bool>* valid_out) {
    std::vector<bool> v;
    if (!common(a, 2, 1) || !validity(a, v, may_null)) return false;
    off.clear();
    const int32_t* p = (const int32_t*)a->buffers[1];
    if (!p) { if (a->length) return bad("no offsets buffer"); off.push_back(0); }
    else for (int64_t i = 0; i <= a->length; i++) off.push_back(p[a->offset + i]);
    if (off[0] < 0) return bad("negative first offset");
    if (a->offset == 0 && off[0] != 0) return bad(fmt("first offset %d", off[0]));
    for (size_t i = 1; i < off.size(); i++) if (off[i] < off[i - 1]) return bad(fmt("offset %zu decreases: %d -> %d", i, off[i - 1], off[i]));
    const ArrowArray* c = a->children[0];
    if (off.back() != c->length) return bad(fmt("last offset %d, child length %lld", off.back(), (long long)c->length));
    if (valid_out) *valid_out = v;
    return true;
  }
  bool native(const ArrowArray* a, int type, Features& out) {
    int g = type_geom(type), d = type_dims(type); bool in = type_inter(type);
    int nd = ndim(d), depth = list_depth(g);
    std::vector<bool> valid;
    std::vector<std::vector<int32_t>> offs(depth);
    const ArrowArray* p = a;
    for (int l = 0; l < depth; l++) {
      if (!list(p, offs[l], l == 0, l == 0 ? &valid : nullptr)) { why = fmt("level %d: ", l) + why; return false; }
      p = p->children[0];
      if (p->offset != 0) { /* produced arrays are unsliced */ return bad("inner offset"); }
    }
    std::vector<double> xs;
    if (!coords(p, d, in, xs, depth == 0, depth == 0 ? &valid : nullptr)) { why = "coords: " + why; return false; }
    auto row = [&](int64_t i, std::vector<double>& o) { o.insert(o.end(), xs.begin() + i * nd, xs.begin() + (i + 1) * nd); };
    auto seq = [&](int t, int64_t b, int64_t e) { Geom s; s.type = t; s.dims = d; for (int64_t i = b; i < e; i++) row(i, s.xs); return s; };
    for (int64_t i = 0; i < a->length; i++) {
      Feature f;
      if (!valid[i]) { f.null = true; out.push_back(f); continue; }
      f.g.type = g; f.g.dims = d;
      switch (g) {
        case T_POINT: row(i, f.g.xs); break;
        case T_LINESTRING: f.g = seq(T_LINESTRING, offs[0][i], offs[0][i + 1]); break;
        case T_MULTIPOINT: for (int32_t j = offs[0][i]; j < offs[0][i + 1]; j++) f.g.kids.push_back(seq(T_POINT, j, j + 1)); break;
        case T_POLYGON: case T_MULTILINESTRING:
          for (int32_t j = offs[0][i]; j < offs[0][i + 1]; j++) f.g.kids.push_back(seq(T_LINESTRING, offs[1][j], offs[1][j + 1]));
          break;
        case T_MULTIPOLYGON:
          for (int32_t j = offs[0][i]; j < offs[0][i + 1]; j++) {
            Geom pg; pg.type = T_POLYGON; pg.dims = d;
            for (int32_t k = offs[1][j]; k < offs[1][j + 1]; k++) pg.kids.push_back(seq(T_LINESTRING, offs[2][k], offs[2][k + 1]));
            f.g.kids.push_back(pg);
          }
          break;
      }
      norm_empty_points(f.g);
      out.push_back(f);
    }
    return true;
  }
  // binary/string and their large forms; exact: offsets must start at 0 and cover
  bool serialized(const ArrowArray* a, int type, OptStrings& out) {
    if (type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_WKT_VIEW) {
      if (a->n_buffers < 3) return bad("view array with fewer than 3 buffers");
      if (!common(a, a->n_buffers, 0)) return false;
      std::vector<bool> v; if (!validity(a, v, true)) return false;
      const uint8_t* views = (const uint8_t*)a->buffers[1];
      const int64_t* sizes = (const int64_t*)a->buffers[a->n_buffers - 1];
      int64_t nvar = a->n_buffers - 3;
      for (int64_t i = 0; i < a->length; i++) {
        if (!v[i]) { out.push_back({false, ""}); continue; }
        const uint8_t* e = views + (a->offset + i) * 16;
        int32_t len, b, off; memcpy(&len, e, 4); memcpy(&b, e + 8, 4); memcpy(&off, e + 12, 4);
        if (len < 0) return bad("negative view length");
        if (len <= 12) { out.push_back({true, std::string((const char*)e + 4, len)}); continue; }
        if (b < 0 || b >= nvar || off < 0 || off + (int64_t)len > sizes[b]) return bad("view points outside its buffer");
        const char* q = (const char*)a->buffers[2 + b] + off;
        if (memcmp(q, e + 4, 4)) return bad("view prefix mismatch");
        out.push_back({true, std::string(q, len)});
      }
      return true;
    }
    bool large = type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT;
    if (!common(a, 3, 0)) return false;
    std::vector<bool> v; if (!validity(a, v, true)) return false;
    std::vector<int64_t> off;
    if (!a->buffers[1]) { if (a->length) return bad("no offsets"); off.push_back(0); }
    else for (int64_t i = 0; i <= a->length; i++) off.push_back(large ? ((const int64_t*)a->buffers[1])[a->offset + i] : ((const int32_t*)a->buffers[1])[a->offset + i]);
    if (off[0] != 0) return bad("first offset is not 0");
    for (size_t i = 1; i < off.size(); i++) if (off[i] < off[i - 1]) return bad("offsets decrease");
    if (off.back() > 0 && !a->buffers[2]) return bad("no data buffer");
    for (int64_t i = 0; i < a->length; i++) {
      if (!v[i] && off[i + 1] != off[i]) return bad("null element with data");
      out.push_back({v[i], v[i] ? std::string((const char*)a->buffers[2] + off[i], off[i + 1] - off[i]) : std::string()});
    }
    return true;
  }
};

// independent WKB decoder (ISO or EWKB, either endian)
struct WkbDecoder {
  const uint8_t* p; const uint8_t* e; std::string why;
  bool u8(uint8_t& v) { if (p >= e) { why = "truncated"; return false; } v = *p++; return true; }
  bool u32(uint32_t& v, bool le) {
    if (e - p < 4) { why = "truncated"; return false; }
    v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)p[i] << (le ? 8 * i : 24 - 8 * i);
    p += 4; return true;
  }
  bool rows(std::vector<double>& xs, uint64_t n, int nd, bool le) {
    if ((uint64_t)(e - p) / 8 < n * nd) { why = "truncated coordinates"; return false; }
    for (uint64_t i = 0; i < n * nd; i++) {
      uint64_t v = 0; for (int k = 0; k < 8; k++) v |= (uint64_t)p[k] << (le ? 8 * k : 56 - 8 * k);
      p += 8; double d; memcpy(&d, &v, 8); xs.push_back(d);
    }
    return true;
  }
  bool geom(Geom& g, int depth = 0) {
    uint8_t b; uint32_t c, n;
    if (depth > 2000) { why = "too deep"; return false; }
    if (!u8(b)) return false;
    if (b > 1) { why = "byte order"; return false; }
    bool le = b;
    if (!u32(c, le)) return false;
    bool z = false, m = false;
    if (c & 0xE0000000u) {
      z = c & 0x80000000u; m = c & 0x40000000u;
      uint32_t s; if ((c & 0x20000000u) && !u32(s, le)) return false;
      c &= 0x1fffffffu;
    } else { z = (c / 1000) & 1; m = (c / 1000) & 2; if (c / 1000 > 3) { why = "type"; return false; } c %= 1000; }
    if (c < 1 || c > 7) { why = "type"; return false; }
    g.type = (int)c; g.dims = z && m ? D_XYZM : z ? D_XYZ : m ? D_XYM : D_XY;
    int nd = ndim(g.dims);
    if (g.type == T_POINT) { if (!rows(g.xs, 1, nd, le)) return false; Geom t = g; norm_empty_points(t); g = t; return true; }
    if (!u32(n, le)) return false;
    if (g.type == T_LINESTRING) return rows(g.xs, n, nd, le);
    for (uint32_t i = 0; i < n; i++) {
      g.kids.emplace_back(); Geom& k = g.kids.back();
      if (g.type == T_POLYGON) {
        uint32_t rn; k.type = T_LINESTRING; k.dims = g.dims;
        if (!u32(rn, le) || !rows(k.xs, rn, nd, le)) return false;
      } else if (!geom(k, depth + 1)) return false;
    }
    return true;
  }
};
inline bool wkb_decode(const std::string& s, Geom& g, std::string& why) {
  WkbDecoder d; d.p = (const uint8_t*)s.data(); d.e = d.p + s.size();
  if (!d.geom(g)) { why = d.why; return false; }
  if (d.p != d.e) { why = "trailing bytes"; return false; }
  return true;
}

}  // namespace hz
#endif
