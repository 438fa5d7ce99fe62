// Hostile and near-valid WKB.
#ifndef HZ_HOSTILE_H
#define HZ_HOSTILE_H
#include "wkx.h"

namespace hz {

inline std::string hostile(Rng& r) {
  GenOpts o; o.budget = 120; o.num = NUM_ANY; o.big = r.one_in(4);
  std::string s;
  int mode = (int)r.below(12);
  WkbStyle st; st.r = &r;
  switch (mode) {
    case 0: {  // plain random bytes
      size_t n = r.below(60);
      for (size_t i = 0; i < n; i++) s += (char)r.next();
      if (n && r.chance(0.8)) s[0] = (char)r.below(2);
      return s;
    }
    case 1: {  // header with hostile count and k doubles
      bool le = r.chance(0.5);
      s += (char)(le ? 1 : r.pick({0, 0, 2, 255}));
      uint32_t code = (uint32_t)r.range(1, 7);
      if (r.chance(0.5)) code += 1000 * (uint32_t)r.below(4);
      if (r.chance(0.3)) code |= (uint32_t)r.below(8) << 29;
      put_u32(s, code, le);
      if (code & 0x20000000u) put_u32(s, (uint32_t)r.next(), le);
      uint32_t cnt = r.pick({0xffffffffu, 0x80000000u, 0x80000001u, 0x7fffffffu, 0x40000000u, 0x20000000u, 0x20000001u, 0x10000000u, 0x15555556u, 0x55555556u, 0xaaaaaaabu, 0x0aaaaaabu, 0x08000000u, 0x08000001u, 100u, 2u, 1u});
      put_u32(s, cnt, le);
      if (code % 1000 == 3 && r.chance(0.8)) put_u32(s, r.pick({cnt, 0x80000000u, 0x40000000u, 0x20000000u, 0x10000000u, 0x08000000u, 0x55555556u, 2u}), le);
      if (r.chance(0.3) && (code % 1000) >= 4) { Geom k = gen_geom(r, (int)r.range(1, 7), (int)r.range(1, 4), o); enc_wkb(k, s, st); }
      size_t n = r.below(50);
      for (size_t i = 0; i < n; i++) s += (char)r.below(3);
      return s;
    }
    case 2: {  // deep nesting
      size_t d = r.pick({(size_t)10, (size_t)31, (size_t)32, (size_t)33, (size_t)127, (size_t)128, (size_t)250, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)300, (size_t)1000, (size_t)20000, (size_t)200000});
      bool le = r.chance(0.5);
      int t = (int)r.range(4, 7);
      for (size_t i = 0; i < d; i++) { s += (char)le; put_u32(s, (uint32_t)(r.one_in(9) ? t : 7), le); put_u32(s, 1, le); }
      if (r.chance(0.7)) { Geom g = gen_geom(r, (int)r.range(1, 6), 1, o); enc_wkb(g, s, st); }
      return s;
    }
    default: break;
  }
  Geom g = r.one_in(6) ? gen_nested(r, (int)r.below(40), (int)r.range(1, 4), o) : gen_any(r, o);
  enc_wkb(g, s, st);
  if (mode == 3) return s;                                     // valid
  if (mode <= 5) { s.resize(r.below(s.size() + 1)); return s; }  // truncation
  if (mode == 6) { size_t n = r.below(20); for (size_t i = 0; i < n; i++) s += (char)r.next(); return s; }  // trailing
  int k = (int)r.range(1, 4);
  for (int i = 0; i < k; i++) {
    if (s.empty()) break;
    size_t p = r.chance(0.6) ? r.below(std::min<size_t>(s.size(), 30)) : r.below(s.size());
    switch (r.below(5)) {
      case 0: s[p] = (char)r.next(); break;
      case 1: s[p] ^= (char)(1 << r.below(8)); break;
      case 2: s.erase(p, 1 + r.below(9)); break;
      case 3: { std::string ins; for (size_t q = r.below(9); q > 0; q--) ins += (char)r.next(); s.insert(p, ins); break; }
      case 4: { uint32_t v = r.pick({0xffffffffu, 0x80000000u, 0x20000000u, 0x10000000u, 0x7fffffffu, 0u, 1000u, 3u}); for (int q = 0; q < 4 && p + q < s.size(); q++) s[p + q] = (char)(v >> (8 * q)); break; }
    }
  }
  return s;
}

}  // namespace hz
#endif
