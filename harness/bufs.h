// The buffers of an array in the order of the builder, and whether an array holds them.
#ifndef HZ_BUFS_H
#define HZ_BUFS_H
#include <functional>
#include "arrow_ref.h"

namespace hz {

struct Buf { std::string bytes; bool present; };
inline std::vector<Buf> flatten(const ArrowArray* src) {
  std::vector<Buf> out;
  std::function<void(const ArrowArray*, bool)> walk = [&](const ArrowArray* a, bool root) {
    NodePriv* p = (NodePriv*)a->private_data;
    for (int64_t i = 0; i < a->n_buffers; i++) {
      if (i == 0 && !root) continue;
      size_t sz = 0; if (a->buffers[i]) for (auto& q : p->sizes) if (q.first == a->buffers[i]) sz = q.second;
      out.push_back({std::string((const char*)a->buffers[i], a->buffers[i] ? sz : 0), a->buffers[i] != nullptr});
    }
    for (int64_t i = 0; i < a->n_children; i++) walk(a->children[i], false);
  };
  walk(src, true);
  return out;
}
// the produced array holds these bytes, buffer by buffer
inline void same_buffers(const ArrowArray* a, const std::vector<Buf>& want, const std::string& what) {
  size_t at = 0;
  std::function<void(const ArrowArray*, bool)> walk = [&](const ArrowArray* x, bool root) {
    for (int64_t i = 0; i < x->n_buffers; i++) {
      if (i == 0 && !root) { REQUIRE(!x->buffers[0], "buffers", "%s: validity in an inner array", what.c_str()); continue; }
      REQUIRE(at < want.size(), "buffers", "%s: more buffers than supplied", what.c_str());
      const Buf& b = want[at];
      if (!b.bytes.empty()) REQUIRE(x->buffers[i] && !memcmp(x->buffers[i], b.bytes.data(), b.bytes.size()), "buffers", "%s: buffer %zu (%zu bytes) differs from what was supplied: %s / %s", what.c_str(), at, b.bytes.size(), x->buffers[i] ? hex(x->buffers[i], b.bytes.size()).c_str() : "NULL", hex(b.bytes.data(), b.bytes.size()).c_str());
      at++;
    }
    for (int64_t i = 0; i < x->n_children; i++) walk(x->children[i], false);
  };
  walk(a, true);
  REQUIRE(at == want.size(), "buffers", "%s: %zu of %zu buffers", what.c_str(), at, want.size());
}

}  // namespace hz
#endif
