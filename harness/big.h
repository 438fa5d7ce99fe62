// The same array with its elements far into buffers of many gigabytes (of which
// only the pages that hold something exist, read-only and ending at an
// inaccessible page), so that every index, byte position and offset on the way
// to an element passes 2^31 and 2^32 somewhere.
#ifndef HZ_BIG_H
#define HZ_BIG_H
#include "arrow_ref.h"
namespace hz {
struct Far {
  Rng& r; bool ok = true, flat = false; uint64_t beyond = 0;  // flat: only the outermost array may have an offset
  explicit Far(Rng& rr) : r(rr) {}
  // around the places where 32 bits end, for elements of 1 to 32 bytes
  int64_t distance() {
    if (r.one_in(4)) return 0;
    int64_t b = (int64_t)1 << r.range(26, 33);
    return r.one_in(3) ? b : b - 64 + (int64_t)r.below(128);
  }
  // buffer i of the node now has its bytes `shift` further
  void move(NodePriv* p, size_t i, int64_t shift, const std::string* content = nullptr) {
    const void* old = p->buffers[i]; size_t n = p->sizes[i].second;
    if (!old) return;
    if (!content && !shift) return;
    const size_t page = 4096; size_t len = (size_t)shift + n, total = (len + page - 1) / page * page + page;
    uint8_t* m = (uint8_t*)map_sparse(total);
    if (!m) { ok = false; return; }
    uint8_t* base = m + ((total - page - len) & ~(size_t)15);
    if (n) memcpy(base + shift, content ? content->data() : old, n);
    protect_sparse(m, total - page, false); protect_sparse(m + total - page, page, true);
    p->maps.push_back({m, total}); p->buffers[i] = base;
    if (len > ((size_t)1 << 31)) beyond++;
  }
  template <class T> void move_offsets(NodePriv* p, size_t i, int64_t shift, int64_t add) {
    size_t n = p->sizes[i].second; std::string c((const char*)p->buffers[i], n);
    for (size_t k = 0; k + sizeof(T) <= n; k += sizeof(T)) { T v; memcpy(&v, &c[k], sizeof v); v = (T)(v + (T)add); memcpy(&c[k], &v, sizeof v); }
    move(p, i, shift, &c);
  }
  template <class T> static int64_t last_of(NodePriv* p, size_t i) { size_t n = p->sizes[i].second; if (n < sizeof(T)) return 0; T v; memcpy(&v, (const char*)p->buffers[i] + n - sizeof(T), sizeof v); return (int64_t)v; }
  int64_t add32(int64_t last) { int64_t room = INT32_MAX - last, d = distance(); return d > room ? (r.one_in(2) ? room : r.below(3) ? room - (int64_t)r.below(1000) : 0) : d; }

  void leaf(ArrowArray* c, int64_t by) {
    NodePriv* p = (NodePriv*)c->private_data; int64_t k = flat ? 0 : distance();
    move(p, 1, (by + k) * 8); c->offset += k; c->length += by;
  }
  // by: how much further the parent points
  void level(ArrowArray* a, int depth, int nd, bool inter, int64_t by) {
    NodePriv* p = (NodePriv*)a->private_data; int64_t k = flat && !p->root ? 0 : distance();
    if (p->buffers[0]) k += (8 - (by + k) % 8) % 8;
    int64_t s = by + k; a->offset += k; a->length += by;
    move(p, 0, s / 8);
    if (depth > 0) {
      int64_t add = add32(last_of<int32_t>(p, 1)); move_offsets<int32_t>(p, 1, s * 4, add);
      level(p->children[0], depth - 1, nd, inter, add);
    } else if (inter) leaf(p->children[0], s * nd);
    else for (ArrowArray* c : p->children) leaf(c, s);
  }
  void serialized(ArrowArray* a, int type) {
    NodePriv* p = (NodePriv*)a->private_data; int64_t k = p->buffers[1] ? distance() : 0;
    if (p->buffers[0]) k += (8 - k % 8) % 8;
    a->offset += k; move(p, 0, k / 8);
    if (type == GEOARROW_TYPE_WKB_VIEW || type == GEOARROW_TYPE_WKT_VIEW) {
      size_t nb = p->buffers.size() - 3, n = p->sizes[1].second; std::vector<int32_t> add(nb); std::vector<int64_t> sz(nb);
      std::string views(p->buffers[1] ? (const char*)p->buffers[1] : "", n), last;
      for (size_t b = 0; b < nb; b++) { int64_t len = (int64_t)p->sizes[2 + b].second; add[b] = (int32_t)add32(len); sz[b] = len + add[b]; move(p, 2 + b, add[b]); }
      for (size_t i = 0; i + 16 <= n; i += 16) { int32_t len, b, o; memcpy(&len, &views[i], 4); if (len > 12) { memcpy(&b, &views[i + 8], 4); memcpy(&o, &views[i + 12], 4); o += add[(size_t)b]; memcpy(&views[i + 12], &o, 4); } }
      move(p, 1, k * 16, &views);
      last.assign((const char*)sz.data(), nb * 8); move(p, 2 + nb, 0, &last);
    } else if (type == GEOARROW_TYPE_LARGE_WKB || type == GEOARROW_TYPE_LARGE_WKT) {
      int64_t add = p->buffers[2] ? distance() : 0; move_offsets<int64_t>(p, 1, k * 8, add); move(p, 2, add);
    } else {
      int64_t add = p->buffers[2] ? add32(last_of<int32_t>(p, 1)) : 0; move_offsets<int32_t>(p, 1, k * 4, add); move(p, 2, add);
    }
  }
  static void redo(ArrowArray* a) { node_done(a); for (int64_t i = 0; i < a->n_children; i++) redo(a->children[i]); }
};
// true if some buffer now reaches beyond 2^31 bytes
inline bool far_away(Rng& r, int type, ArrowArray* a, bool flat = false) {
  Far f(r); f.flat = flat;
  if (is_native(type)) f.level(a, list_depth(type_geom(type)), ndim(type_dims(type)), type_inter(type), 0);
  else if (is_box(type)) f.level(a, 0, 0, false, 0);
  else f.serialized(a, type);
  Far::redo(a);
  REQUIRE(f.ok, "harness", "no address space for a sparse mapping");
  if (f.beyond) count("far_arrays");
  return f.beyond > 0;
}
}  // namespace hz
#endif
