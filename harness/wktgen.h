// Random WKT spellings of a model geometry.
#ifndef HZ_WKTGEN_H
#define HZ_WKTGEN_H
#include "wkx.h"
namespace hz {
// A spelling of v (finite) that every supported number parser must read as v
inline std::string spell_number(Rng& r, double v) {
  Neutral neutral; char b[80];
  switch (r.below(6)) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.17e", v); break;
    case 2: snprintf(b, sizeof b, "%.17E", v); break;
    case 3: {
      snprintf(b, sizeof b, "%.17g", v);
      std::string s = b;
      if (s.find_first_of(".eEn") == std::string::npos) s += r.chance(0.5) ? ".0" : ".";
      else if (s.find('e') == std::string::npos && s.find('.') != std::string::npos) s += std::string(r.below(4), '0');
      return s;
    }
    case 4:
      if (std::fabs(v) < 1e15 && v == std::floor(v)) { snprintf(b, sizeof b, "%.0f", v); break; }
      snprintf(b, sizeof b, "%.17g", v); break;
    default: {
      snprintf(b, sizeof b, "%.17g", v);
      std::string s = b;
      // leading zeros
      if (r.chance(0.5)) s.insert(s[0] == '-' ? 1 : 0, std::string(r.below(3), '0'));
      // .5 without a leading digit
      else if (s.compare(0, 2, "0.") == 0 && s.size() > 2) s = s.substr(1);
      return s;
    }
  }
  return b;
}
inline WktStyle random_style(Rng& r, double ws = 0.3) {
  WktStyle st;
  static const char* W[] = {" ", "\n", "\t", "\r", "  ", " \t", "\r\n", "    "};
  st.num = [&r](double v) { return spell_number(r, v); };
  st.ws0 = [&r, ws]() { return std::string(r.chance(ws) ? W[r.below(8)] : ""); };
  st.ws1 = [&r, ws]() { return std::string(r.chance(ws) ? W[r.below(8)] : " "); };
  st.sep = [&r, ws, st]() { return (r.chance(ws) ? std::string(W[r.below(8)]) : "") + "," + (r.chance(ws) ? std::string(W[r.below(8)]) : r.chance(0.5) ? " " : ""); };
  bool always_flat = r.chance(0.4), never = r.chance(0.5);
  st.flat = [&r, always_flat, never]() { return always_flat || (!never && r.chance(0.5)); };
  return st;
}
inline std::string wkt_random(Rng& r, const Geom& g, double ws = 0.3) {
  WktStyle st = random_style(r, ws);
  std::string o = st.ws0();
  wkt_tagged(g, o, st);
  o += st.ws0();
  return o;
}
}  // namespace hz
#endif
