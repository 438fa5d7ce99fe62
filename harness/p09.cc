// P09: text <-> double conversions.
#include "wktgen.h"
#include "geoarrow/geoarrow.h"
using namespace hz;
const char* hz_name = "p09";
#ifdef HZ_CONFIG_B
static const size_t kMaxLen = 63;
#else
static const size_t kMaxLen = 100000;
#endif

// -1 not a number, 0 number, 1 depends on the configured parser
static int classify(const std::string& t) {
  size_t p = 0, n = t.size(), nd = 0;
  if (n > kMaxLen) return 1;
  bool ws = false;
  for (char c : t) { if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f' || c == 0) ws = true; }
  if (p < n && t[p] == '-') p++;
  else if (p < n && t[p] == '+') return 1;
  if (p < n && strchr("iInNxX", t[p])) return 1;
  if (p + 1 < n && t[p] == '0' && (t[p + 1] == 'x' || t[p + 1] == 'X')) return 1;
  if (ws && n && (isspace((unsigned char)t[0]) || memchr(t.data(), 0, n))) return 1;
  while (p < n && isdigit((unsigned char)t[p])) p++, nd++;
  if (p < n && t[p] == '.') { p++; while (p < n && isdigit((unsigned char)t[p])) p++, nd++; }
  if (!nd) return -1;
  if (p < n && (t[p] == 'e' || t[p] == 'E')) {
    p++; if (p < n && (t[p] == '-' || t[p] == '+')) p++;
    size_t e0 = p; while (p < n && isdigit((unsigned char)t[p])) p++;
    if (p == e0) return -1;
  }
  if (p != n) return -1;
  double d = strtod(t.c_str(), nullptr);
  if (std::isinf(d)) return 1;
  if (d == 0 || std::fabs(d) < 2.3e-308) for (char c : t) { if (c == 'e' || c == 'E') break; if (c > '0' && c <= '9') { if (d == 0) return 1; break; } }
  return 0;
}
static const char* kAfter[] = {"", "1", "9", ".5", "e5", "E+10", ")", " ", ",", "x"};
static void parse_case(Rng& r, const std::string& t) {
  int k = classify(t);
  crumb("parse %s", quote(t, 400).c_str());
  if (k == 1) { // only memory safety
    Exact b(t); double o; GeoArrowFromChars((char*)b.p, (char*)b.p + b.n, &o); count("unspecified"); return;
  }
  distinct(fnv(t));
  double want = k == 0 ? strtod(t.c_str(), nullptr) : 0;
  for (int i = 0; i < 2; i++) {
    std::string with = t + (i ? kAfter[r.below(sizeof kAfter / sizeof *kAfter)] : "");
    Exact b(with); double o = -12345.5;
    int rc = GeoArrowFromChars((char*)b.p, (char*)b.p + t.size(), &o);
    if (k < 0) { REQUIRE(rc != 0, "not-a-number-accepted", "%s read as %.17g", quote(t).c_str(), o); count("rejected"); }
    else {
      REQUIRE(rc == 0, "number-rejected", "%s (followed by %s) rc %d", quote(t).c_str(), quote(with.substr(t.size())).c_str(), rc);
      REQUIRE(same_bits(o, want), "wrong-value", "%s read as %.17g (%s), nearest is %.17g", quote(t).c_str(), o, hex(&o, 8).c_str(), want);
      count("numbers");
    }
  }
}
// decimal text of a finite double, exactly
static std::string exact_dec(double v) { char b[1500]; snprintf(b, sizeof b, "%.1080f", v); return b; }
static std::string gen_token(Rng& r) {
  double v = gen_double(r, NUM_FINITE);
  switch (r.below(10)) {
    case 0: case 1: case 2: return spell_number(r, v);
    case 3: { // exact halfway point between neighbours, perhaps nudged
      if (kMaxLen < 1000) { // short halfway cases: odd 54-bit integers
        uint64_t m = (1ULL << 53) | (r.next() >> 11); return fmt("%llu", (unsigned long long)(m * 2 + 1)); }
      // values of a moderate exponent: midpoint has at most ~1080 decimals
      long double a = v; double b = std::nextafter(v, r.chance(0.5) ? INFINITY : -INFINITY);
      if (!std::isfinite(b) || std::fabs(v) > 1e200 || std::fabs(v) < 1e-200) return spell_number(r, v);
      long double mid = (a + (long double)b) / 2;
      char buf[2500]; snprintf(buf, sizeof buf, "%.1100Lf", mid);
      std::string s = buf; s.erase(s.find_last_not_of('0') + 1);
      if (r.chance(0.3)) s += r.chance(0.5) ? "1" : "0000000000000000000000000000001";
      else if (r.chance(0.3)) { size_t i = s.size() - 1; if (s[i] > '0' && s[i] <= '9') s[i]--; s += "9999"; }
      return s; }
    case 4: { std::string s = r.chance(0.5) ? "-" : ""; size_t n = (size_t)r.range(1, r.one_in(5) ? 900 : 25); for (size_t i = 0; i < n; i++) s += (char)('0' + r.below(10)); if (r.chance(0.5)) s.insert(s.size() - r.below(n), "."); if (r.chance(0.4)) s += fmt("e%d", (int)r.range(-320, 300)); return s; }
    case 5: { char b[64]; uint64_t u = r.below(1ULL << 52); if (r.chance(0.3)) u = r.below(20); double d; memcpy(&d, &u, 8); snprintf(b, sizeof b, "%.*e", (int)r.range(16, 30), d); return b; }
    case 6: return fmt("%llue%d", (unsigned long long)(r.next() >> r.below(64)), (int)r.range(-345, 300));
    case 7: { std::string s(r.below(40), '0'); s += fmt("%d.%s%d", (int)r.below(100), std::string(r.below(15), '0').c_str(), (int)r.below(1000)); s += std::string(r.below(20), '0'); return s; }
    default: { // near misses
      std::string s = spell_number(r, v);
      for (int i = (int)r.range(1, 2); i > 0; i--) { size_t p = r.below(s.size() + 1); switch (r.below(3)) { case 0: if (p < s.size()) s.erase(p, 1); break; case 1: s.insert(p, 1, "+-.eE0129 ,)x_"[r.below(14)]); break; default: if (p < s.size()) s[p] = "+-.eE0129 ,)x_"[r.below(14)]; } }
      return s; }
  }
}

// |text - v| <= half a unit of decimal p plus one unit of v's own precision, in
// exact decimal arithmetic
static bool within_half(const std::string& text, double v, int p) {
  auto norm = [](std::string s, bool& neg) {
    neg = s[0] == '-'; if (neg) s = s.substr(1);
    size_t dot = s.find('.'); std::string ip = s.substr(0, dot), fp = dot == std::string::npos ? "" : s.substr(dot + 1);
    ip = std::string(330 - ip.size(), '0') + ip; fp.resize(1100, '0'); return ip + fp; };
  bool na, nb; std::string a = norm(text, na), b = norm(exact_dec(v), nb);
  bool za = a.find_first_not_of('0') == std::string::npos, zb = b.find_first_not_of('0') == std::string::npos;
  std::string d(a.size(), '0');
  if (na != nb && !za && !zb) { int c = 0; for (size_t i = a.size(); i-- > 0;) { int x = a[i] - '0' + b[i] - '0' + c; d[i] = (char)('0' + x % 10); c = x / 10; } }
  else { if (a < b) std::swap(a, b); int c = 0; for (size_t i = a.size(); i-- > 0;) { int x = a[i] - b[i] - c; c = x < 0; d[i] = (char)('0' + (x + 10) % 10); } }
  std::string lim(d.size(), '0'); lim[330 + p] = '5';
  bool nu; std::string u = norm(exact_dec(std::nextafter(std::fabs(v), INFINITY) - std::fabs(v)), nu); int cy = 0;
  for (size_t i = lim.size(); i-- > 0;) { int x = lim[i] - '0' + u[i] - '0' + cy; lim[i] = (char)('0' + x % 10); cy = x / 10; }
  return d <= lim;
}
static void print_case(Rng& r, double v, uint32_t prec) {
  crumb("print %.17g (%s) precision %u", v, hex(&v, 8).c_str(), prec);
  Exact b; b.assign(std::string(40, '\x01').data(), 40);
  int64_t n = GeoArrowPrintDouble(v, prec, (char*)b.p);
  REQUIRE(n > 0 && n <= 40, "length", "%.17g precision %u: returned %lld", v, prec, (long long)n);
  std::string t((char*)b.p, (size_t)n);
  REQUIRE(t.find('\x01') == std::string::npos && t.find('\0') == std::string::npos, "length", "%.17g precision %u: %s", v, prec, quote(t).c_str());
  uint64_t vb; memcpy(&vb, &v, 8); distinct(mix64(vb) ^ prec); distinct(fnv(t));
  Exact tb(t); double back = 0;
  int rc = GeoArrowFromChars((char*)tb.p, (char*)tb.p + tb.n, &back);
  REQUIRE(rc == 0, "not-parsed-back", "%.17g precision %u printed as %s", v, prec, quote(t).c_str());
  count("printed");
  if (std::isnan(v)) { REQUIRE(std::isnan(back), "inaccurate", "NaN printed as %s", t.c_str()); return; }
  if (std::isinf(v)) { REQUIRE(back == v, "inaccurate", "%g printed as %s", v, t.c_str()); return; }
  bool exp = t.find_first_of("eE") != std::string::npos;
  if (exp) {
    REQUIRE(std::fabs(v) > 1e15, "exponent-form", "%.17g precision %u printed as %s", v, prec, t.c_str());
    REQUIRE(std::fabs(back - v) <= std::fabs(v) * 0.5e-14, "inaccurate", "%.17g printed as %s", v, t.c_str());
    count("printed_exp");
  } else {
    size_t q = t[0] == '-';
    REQUIRE(q < t.size() && isdigit((unsigned char)t[q]) && isdigit((unsigned char)t.back()) && t.find_first_not_of("0123456789.", q) == std::string::npos, "malformed", "%.17g printed as %s", v, quote(t).c_str());
    size_t dot = t.find('.');
    REQUIRE(dot == std::string::npos || t.size() - dot - 1 <= prec, "too-many-decimals", "%.17g precision %u printed as %s", v, prec, t.c_str());
    char w[400]; snprintf(w, sizeof w, "%.*f", (int)prec, v); std::string ws = w;
    if (prec) { ws.erase(ws.find_last_not_of('0') + 1); if (ws.back() == '.') ws.pop_back(); }
    // enough decimals for the shortest text of v: exact
    for (int k = 1; k <= 17; k++) {
      char e[64]; snprintf(e, sizeof e, "%.*e", k - 1, v);
      if (strtod(e, nullptr) != v) continue;
      int ex = atoi(strchr(e, 'e') + 1);
      if (k - 1 - ex <= (int)prec) { REQUIRE(back == v, "not-exact", "%.17g precision %u printed as %s", v, prec, t.c_str()); count("printed_exact"); }
      break;
    }
    if (ws != t) { REQUIRE(within_half(t, v, (int)prec), "inaccurate", "%.20g precision %u printed as %s, exactly %s", v, prec, t.c_str(), ws.c_str()); count("other_spelling"); }
    REQUIRE(same_bits(back, strtod(t.c_str(), nullptr)), "wrong-value", "%s", t.c_str());
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  for (int i = 0; i < 12; i++) { std::string t = gen_token(r); if (want_sample()) sample(quote(t)); parse_case(r, t); }
  for (int i = 0; i < 12; i++) {
    double v;
    switch (r.below(8)) {
      case 0: v = (double)r.range(-1000, 1000) / (double)r.pick({1, 2, 4, 8, 16, 32, 1024}); break;   // exact ties
      case 1: v = r.pick({1e17, -1e17, 99999999999999999.0, 1e16, 9999999999999998.0, 123456789012345678.0, 1e15, 0.5, 1.5, 2.5, 0.05, 9.5, 99.5, 999999.9999995, 5e-324, 0.0, -0.0}); if (r.chance(0.3)) v = std::nextafter(v, r.chance(0.5) ? INFINITY : -INFINITY); break;
      case 2: { int e = (int)r.range(-20, 18); v = std::round(std::pow(10.0, e) * 1e6) / 1e6 - (r.chance(0.5) ? std::pow(10.0, -(int)r.below(17)) / 2 : 0); break; }
      case 3: { char b[64]; snprintf(b, sizeof b, "%d.%0*d", (int)r.range(-180, 180), (int)r.range(1, 12), (int)r.below(1000000)); v = strtod(b, nullptr); break; }
      default: v = gen_double(r, NUM_ANY);
    }
    print_case(r, v, (uint32_t)r.below(17));
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
