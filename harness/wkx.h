// Independent WKB encoder, WKT formatter and WKT parser (oracles and generators).
#ifndef HZ_WKX_H
#define HZ_WKX_H
#include "geom.h"

namespace hz {

struct WkbStyle {
  // chooses per node
  Rng* r = nullptr;         // null: canonical little-endian ISO
  bool allow_ewkb = true;
  bool mixed_endian = true;
  int fixed_endian = -1;    // 0 big, 1 little
};
inline void put_u32(std::string& o, uint32_t v, bool le) {
  for (int i = 0; i < 4; i++) o += (char)(uint8_t)(v >> (le ? 8 * i : 24 - 8 * i));
}
inline void put_f64(std::string& o, double d, bool le) {
  uint64_t v; memcpy(&v, &d, 8);
  for (int i = 0; i < 8; i++) o += (char)(uint8_t)(v >> (le ? 8 * i : 56 - 8 * i));
}
inline void enc_wkb(const Geom& g, std::string& o, WkbStyle& st, int parent_endian = -1, bool root = true) {
  bool le = true, ewkb = false, srid = false;
  if (st.r) {
    if (st.fixed_endian >= 0) le = st.fixed_endian;
    else if (parent_endian >= 0 && !st.mixed_endian) le = parent_endian;
    else le = st.r->chance(0.5);
    ewkb = st.allow_ewkb && st.r->chance(0.4);
    srid = ewkb && st.r->chance(root ? 0.5 : 0.2);
  }
  o += (char)(le ? 1 : 0);
  uint32_t code = (uint32_t)g.type;
  bool z = g.dims == D_XYZ || g.dims == D_XYZM, m = g.dims == D_XYM || g.dims == D_XYZM;
  if (ewkb) { if (z) code |= 0x80000000u; if (m) code |= 0x40000000u; if (srid) code |= 0x20000000u; }
  else code += (z ? 1000u : 0u) + (m ? 2000u : 0u);
  put_u32(o, code, le);
  if (srid) put_u32(o, st.r ? (uint32_t)st.r->next() : 4326, le);
  switch (g.type) {
    case T_POINT:
      if (g.xs.empty()) for (int i = 0; i < ndim(g.dims); i++) put_f64(o, std::numeric_limits<double>::quiet_NaN(), le);
      else for (double v : g.xs) put_f64(o, v, le);
      break;
    case T_LINESTRING:
      put_u32(o, (uint32_t)g.ncoords(), le);
      for (double v : g.xs) put_f64(o, v, le);
      break;
    case T_POLYGON:
      put_u32(o, (uint32_t)g.kids.size(), le);
      for (auto& k : g.kids) { put_u32(o, (uint32_t)k.ncoords(), le); for (double v : k.xs) put_f64(o, v, le); }
      break;
    default:
      put_u32(o, (uint32_t)g.kids.size(), le);
      for (auto& k : g.kids) enc_wkb(k, o, st, le, false);
  }
}
inline std::string wkb_iso(const Geom& g) { std::string o; WkbStyle s; enc_wkb(g, o, s); return o; }

// ---- WKT -------------------------------------------------------------------
inline const char* wkt_name(int t) {
  static const char* n[] = {"", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};
  return n[t];
}
struct WktStyle {
  std::function<std::string(double)> num;
  std::function<std::string()> ws0;   // optional whitespace
  std::function<std::string()> ws1;   // mandatory whitespace
  std::function<std::string()> sep;   // between items
  std::function<bool()> flat;         // MULTIPOINT item without parentheses?
};
inline void wkt_seq(const Geom& s, std::string& o, const WktStyle& st) {
  if (s.xs.empty()) { o += "EMPTY"; return; }
  o += "("; o += st.ws0();
  int nd = ndim(s.dims);
  for (size_t i = 0; i < s.xs.size(); i++) {
    if (i) o += i % nd == 0 ? st.sep() : st.ws1();
    o += st.num(s.xs[i]);
  }
  o += st.ws0(); o += ")";
}
inline void wkt_body(const Geom& g, std::string& o, const WktStyle& st);
inline void wkt_tagged(const Geom& g, std::string& o, const WktStyle& st) {
  o += wkt_name(g.type);
  static const char* d[] = {"", "", "Z", "M", "ZM"};
  if (g.dims > 1) { o += st.ws1(); o += d[g.dims]; }
  o += st.ws1();
  wkt_body(g, o, st);
}
inline void wkt_body(const Geom& g, std::string& o, const WktStyle& st) {
  if (is_seq(g.type)) { wkt_seq(g, o, st); return; }
  if (g.kids.empty()) { o += "EMPTY"; return; }
  o += "("; o += st.ws0();
  for (size_t i = 0; i < g.kids.size(); i++) {
    if (i) o += st.sep();
    const Geom& k = g.kids[i];
    if (g.type == T_COLLECTION) wkt_tagged(k, o, st);
    else if (g.type == T_MULTIPOINT && !k.xs.empty() && st.flat()) {
      for (size_t j = 0; j < k.xs.size(); j++) { if (j) o += st.ws1(); o += st.num(k.xs[j]); }
    } else wkt_body(k, o, st);
  }
  o += st.ws0(); o += ")";
}

}  // namespace hz
#endif
