// Independent strict reader of the WKT grammar the library documents.
#ifndef HZ_WKTREF_H
#define HZ_WKTREF_H
#include <ctype.h>
#include "geoarrow/geoarrow.h"
#include "wkx.h"

namespace hz {

// Independent recursive-descent reader of the supported grammar. Returns false
// for text outside it. Numbers are read with strtod on an isolated token.
struct RefWkt {
  const std::string& s; size_t p = 0; int depth = 0; bool unsure = false;
  explicit RefWkt(const std::string& t) : s(t) {}
  static bool isws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void ws() { while (p < s.size() && isws(s[p])) p++; }
  bool ch(char c) { if (p < s.size() && s[p] == c) { p++; return true; } return false; }
  std::string word() { size_t b = p; while (p < s.size() && isalpha((unsigned char)s[p])) p++; return s.substr(b, p - b); }
  bool number(double& d) {
    // strict decimal token: [-] digits [. digits] [e[+-]digits]; whether a leading
    // '+' or a hexadecimal number is one depends on the number parser configured
    size_t b = p;
    if (p < s.size() && s[p] == '+') unsure = true;
    for (size_t i = p; i < s.size() && i < p + 4; i++) if (s[i] == 'x') unsure = true;
    if (p < s.size() && s[p] == '-') p++;
    size_t d0 = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++;
    size_t nd = p - d0;
    if (p < s.size() && s[p] == '.') { p++; size_t f0 = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; nd += p - f0; }
    if (nd == 0) return false;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
      p++; if (p < s.size() && (s[p] == '-' || s[p] == '+')) p++;
      size_t e0 = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++;
      if (p == e0) return false;
    }
    if (p - b > 60) unsure = true;
    d = strtod(s.substr(b, p - b).c_str(), nullptr);
    if (std::isinf(d)) unsure = true;
    if (d == 0) for (size_t i = b; i < p; i++) { if (s[i] == 'e' || s[i] == 'E') break; if (s[i] > '0' && s[i] <= '9') unsure = true; }
    return true;
  }
  bool coord(Geom& g) {
    int nd = ndim(g.dims);
    for (int i = 0; i < nd; i++) { if (i) { if (p >= s.size() || !isws(s[p])) return false; ws(); } double d; if (!number(d)) return false; g.xs.push_back(d); }
    return true;
  }
  bool empty_or_open(bool& empty) {
    size_t b = p;
    if (ch('(')) { empty = false; return true; }
    if (word() == "EMPTY") { empty = true; return true; }
    p = b; return false;
  }
  bool seq(Geom& g, bool point) {
    bool e; if (!empty_or_open(e)) return false;
    if (e) return true;
    for (;;) {
      ws(); if (!coord(g)) return false; ws();
      if (ch(')')) return true;
      if (point || !ch(',')) return false;
    }
  }
  bool body(Geom& g) {
    if (is_seq(g.type)) return seq(g, g.type == T_POINT);
    bool e; if (!empty_or_open(e)) return false;
    if (e) return true;
    for (;;) {
      ws();
      g.kids.emplace_back(); Geom& k = g.kids.back(); k.dims = g.dims;
      switch (g.type) {
        case T_POLYGON: case T_MULTILINESTRING: k.type = T_LINESTRING; if (!seq(k, false)) return false; break;
        case T_MULTIPOLYGON: k.type = T_POLYGON; if (!body(k)) return false; break;
        case T_MULTIPOINT:
          k.type = T_POINT;
          if (p < s.size() && (s[p] == '(' || isalpha((unsigned char)s[p]))) { if (!seq(k, true)) return false; }
          else if (!coord(k)) return false;
          break;
        default: if (!tagged(k)) return false;
      }
      ws();
      if (ch(')')) return true;
      if (!ch(',')) return false;
    }
  }
  bool tagged(Geom& g) {
    if (++depth > 200) { unsure = true; return false; }
    ws(); std::string w = word(); g.type = 0;
    for (int t = 1; t <= 7; t++) if (w == wkt_name(t)) g.type = t;
    if (!g.type) return false;
    size_t b0 = p; ws(); size_t b = p; w = word(); g.dims = D_XY;
    if (w == "Z") g.dims = D_XYZ; else if (w == "M") g.dims = D_XYM; else if (w == "ZM") g.dims = D_XYZM; else { p = b; (void)b0; return body(g) && (depth--, true); }
    size_t q = p; ws();
    if (q == p && !(p < s.size() && s[p] == '(')) return false;
    bool ok = body(g); depth--; return ok;
  }
  bool parse(Geom& g) { if (!tagged(g)) return false; ws(); return p == s.size(); }
};

// the canonical text of a geometry (number spelling is P09's business)
inline std::string text_of(const Geom& g, int precision, bool flat) {
  WktStyle st;
  st.num = [precision](double d) { char b[64]; int n = (int)GeoArrowPrintDouble(d, precision, b); return std::string(b, n); };
  st.ws0 = [] { return std::string(); }; st.ws1 = [] { return std::string(" "); }; st.sep = [] { return std::string(", "); };
  st.flat = [flat] { return flat; };
  std::string o; wkt_tagged(g, o, st); return o;
}

inline bool close_enough(double got, double want, int precision) {
  if (same_bits(got, want) || got == want) return true;
  if (!std::isfinite(got) || !std::isfinite(want)) {
    // the largest doubles may round out of range in 15 significant digits
    return std::isinf(got) && std::fabs(want) > 1.79769e308;
  }
  double tol = std::fabs(want) > 1e17 ? std::fabs(want) * 1e-14 : 0.5 * std::pow(10.0, -precision) * (1 + 1e-9) + std::fabs(want) * 4.5e-16;
  return std::fabs(got - want) <= tol;
}
inline bool close_enough(const Geom& a, const Geom& b, int precision, std::string& why) {
  if (a.type != b.type || a.dims != b.dims || a.xs.size() != b.xs.size() || a.kids.size() != b.kids.size()) { why = show(a) + " is not " + show(b); return false; }
  for (size_t i = 0; i < a.xs.size(); i++) if (!close_enough(a.xs[i], b.xs[i], precision)) { why = fmt("%.17g read back as %.17g at precision %d", b.xs[i], a.xs[i], precision); return false; }
  for (size_t i = 0; i < a.kids.size(); i++) if (!close_enough(a.kids[i], b.kids[i], precision, why)) return false;
  return true;
}

}  // namespace hz
#endif
