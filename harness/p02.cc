// P02: parsing arbitrary bytes as WKT.
#include "arrow_ref.h"
#include "wktgen.h"
using namespace hz;
const char* hz_name = "p02";

static const char* kTok[] = {"POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "EMPTY", "Z", "M", "ZM", "(", ")", "((", "))", ",", " ", "\n", "1", "-1.5", "1e5", "nan", "inf", "1e999", "0x10", "+1", "E", "EMPT", "EMPTYX", "GEOMETRYCOLLECTIONX", "point", ".", "-", "1.2.3", "1e", "\t", "1 2", "1 2 3", "1 2 3 4", ", "};

static std::string hostile(Rng& r) {
  GenOpts o; o.budget = 100; o.big = r.one_in(4);
  std::string s;
  int mode = (int)r.below(12);
  switch (mode) {
    case 0: for (size_t n = r.below(50); n > 0; n--) s += (char)r.next(); return s;
    case 1: for (size_t n = r.below(30); n > 0; n--) { s += kTok[r.below(sizeof kTok / sizeof *kTok)]; if (r.chance(0.4)) s += ' '; } return s;
    case 2: {
      size_t d = r.pick({(size_t)2, (size_t)31, (size_t)32, (size_t)33, (size_t)64, (size_t)200, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)1000, (size_t)5000});
      if (r.one_in(12)) d = r.pick({(size_t)50000, (size_t)200000});
      const char* t = r.pick({"GEOMETRYCOLLECTION (", "GEOMETRYCOLLECTION(", "GEOMETRYCOLLECTION Z ( ", "GEOMETRYCOLLECTION (POINT (1 2),"});
      for (size_t i = 0; i < d; i++) s += t;
      if (r.chance(0.7)) s += "POINT (0 1)";
      if (r.chance(0.7)) s += std::string(d, ')');
      return s;
    }
    case 3: { s = "POINT ("; size_t n = r.pick({(size_t)5, (size_t)62, (size_t)63, (size_t)64, (size_t)65, (size_t)300, (size_t)20000}); for (size_t i = 0; i < n; i++) s += (char)('0' + r.below(10)); if (r.chance(0.5)) s += " 1)"; return s; }
    case 4: { s = "LINESTRING ("; size_t n = r.below(200); for (size_t i = 0; i < n; i++) s += (i ? "," : "") + fmt("%d %d", (int)r.below(99), (int)r.below(99)); if (r.chance(0.5)) s += ")"; if (r.one_in(3)) s.resize(r.below(s.size() + 1)); return s; }
    default: break;
  }
  Geom g = r.one_in(8) ? gen_nested(r, (int)r.below(20), (int)r.range(1, 4), o) : gen_any(r, o);
  s = wkt_random(r, g);
  if (mode == 5) return s;
  if (mode <= 7) { s.resize(r.below(s.size() + 1)); return s; }
  for (int i = (int)r.range(1, 3); i > 0 && !s.empty(); i--) {
    size_t p = r.below(s.size());
    switch (r.below(7)) {
      case 0: s[p] = (char)r.next(); break;
      case 1: s.erase(p, 1 + r.below(4)); break;
      case 2: s.insert(p, kTok[r.below(sizeof kTok / sizeof *kTok)]); break;
      case 3: s[p] = 0; break;
      case 4: s[p] = "(), \tEZM-.e0"[r.below(12)]; break;
      case 5: { size_t q = r.below(s.size()); std::swap(s[p], s[q]); break; }
      case 6: s.insert(p, s.substr(p, r.below(12))); break;
    }
  }
  return s;
}

// a visitor that only checks nesting: deep input must not exhaust the monitor
struct Shallow { GeoArrowVisitor v; GeoArrowError err; int64_t depth = 0, max = 0, ev = 0; };
static int sh0(GeoArrowVisitor* v) { ((Shallow*)v->private_data)->ev++; return 0; }
static int sh_gs(GeoArrowVisitor* v, GeoArrowGeometryType, GeoArrowDimensions) { Shallow* s = (Shallow*)v->private_data; s->ev++; if (++s->depth > s->max) s->max = s->depth; return 0; }
static int sh_ge(GeoArrowVisitor* v) { Shallow* s = (Shallow*)v->private_data; s->ev++; s->depth--; return 0; }
static int sh_c(GeoArrowVisitor* v, const GeoArrowCoordView* c) { ((Shallow*)v->private_data)->ev++; double t = 0; for (int64_t i = 0; i < c->n_coords; i++) for (int j = 0; j < c->n_values; j++) t += GEOARROW_COORD_VIEW_VALUE(c, i, j); return t == 0.123456; }

static void check_err(const GeoArrowError& e) { REQUIRE(memchr(e.message, 0, sizeof e.message), "error-message-unterminated", "no NUL in error message"); }

static int one(GeoArrowWKTReader* rd, const std::string& s, bool null_err, Features* got, uint64_t* trace) {
  Exact buf(s);
  GeoArrowStringView sv{(const char*)buf.p, (int64_t)buf.n};
  if (s.size() > 20000) {
    Shallow sh; memset(&sh.v, 0, sizeof sh.v); memset(&sh.err, 'X', sizeof sh.err);
    sh.v.feat_start = sh.v.null_feat = sh.v.ring_start = sh.v.ring_end = sh.v.feat_end = sh0;
    sh.v.geom_start = sh_gs; sh.v.geom_end = sh_ge; sh.v.coords = sh_c; sh.v.private_data = &sh; sh.v.error = &sh.err;
    int rc = GeoArrowWKTReaderVisit(rd, sv, &sh.v);
    REQUIRE(rc >= 0 && sh.depth >= 0, "deep", "rc=%d", rc);
    if (rc == 0) REQUIRE(sh.depth == 0, "unbalanced-visit", "depth %lld", (long long)sh.depth);
    else check_err(sh.err);
    count("events", (uint64_t)sh.ev); count("deep_or_long");
    return rc;
  }
  Monitor m; memset(&m.err, 'X', sizeof m.err);
  if (null_err) m.v.error = nullptr;
  int rc = GeoArrowWKTReaderVisit(rd, sv, &m.v);
  check_noted();
  REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  if (rc == 0) { REQUIRE(m.feats.size() == 1 && m.balanced(), "unbalanced-visit", "%s", quote(s).c_str()); count("parsed"); }
  else { if (!null_err) check_err(m.err); count("rejected"); }
  count("events", (uint64_t)m.n_events);
  if (got) *got = m.feats;
  if (trace) *trace = m.trace;
  return rc;
}

void hz_case(Case& c) {
  Rng& r = c.r;
  GeoArrowWKTReader rd;
  REQUIRE(GeoArrowWKTReaderInit(&rd) == 0, "init", "WKTReaderInit");
  std::vector<std::string> ss;
  std::vector<int> rcs; std::vector<Features> outs;
  if (c.idx % 9 == 0) {
    GenOpts o; o.budget = 8; o.big = false;
    std::string full = wkt_random(r, gen_any(r, o));
    size_t end = full.find_last_not_of(" \t\r\n") + 1;
    for (size_t k = 0; k <= full.size(); k++) {
      int rc = one(&rd, full.substr(0, k), false, nullptr, nullptr);
      REQUIRE((rc == 0) == (k >= end), "truncation", "prefix %zu rc=%d of %s", k, rc, quote(full).c_str());
      count("truncations");
    }
  }
  for (int i = (int)r.range(1, 4); i > 0; i--) {
    std::string s = hostile(r);
    crumb("parse %s", quote(s).c_str());
    if (want_sample()) sample(quote(s));
    Features f; uint64_t tr = 0;
    int rc = one(&rd, s, r.one_in(4), &f, &tr);
    distinct(fnv(s)); if (tr) distinct(mix64(tr));
    // a fresh reader agrees with the re-used one
    GeoArrowWKTReader fresh; Features f2;
    REQUIRE(GeoArrowWKTReaderInit(&fresh) == 0, "init", "WKTReaderInit");
    int rc2 = one(&fresh, s, false, &f2, nullptr);
    GeoArrowWKTReaderReset(&fresh);
    std::string why;
    REQUIRE(rc == rc2 && equal(f, f2, &why), "reuse-differs", "rc %d vs %d, %s on %s", rc, rc2, why.c_str(), quote(s).c_str());
    // what follows the view in memory does not matter
    if (s.size() < 2000) {
      std::string big = s + r.pick({std::string("123)"), std::string(" EMPTY"), std::string("9"), std::string("))))"), std::string(",1 2)")});
      Exact b(big); Monitor m;
      int rc3 = GeoArrowWKTReaderVisit(&rd, GeoArrowStringView{(const char*)b.p, (int64_t)s.size()}, &m.v);
      check_noted();
      REQUIRE(rc3 == rc && equal(m.feats, f, &why), "depends-on-following-bytes", "rc %d vs %d %s on %s", rc3, rc, why.c_str(), quote(s).c_str());
    }
    ss.push_back(s); rcs.push_back(rc); outs.push_back(f);
  }
  GeoArrowWKTReaderReset(&rd);
  if (r.chance(0.5)) {
    int type = r.pick({(int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKT, (int)GEOARROW_TYPE_WKT_VIEW});
    OptStrings v; std::vector<int> src;
    for (size_t i = 0; i < ss.size(); i++) {
      if (r.one_in(5)) { v.push_back({false, ""}); src.push_back(-1); }
      if (ss[i].size() < 20000) { v.push_back({true, ss[i]}); src.push_back((int)i); }
    }
    ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r;
    build_serialized(type, v, &a, &log, st);
    GeoArrowArrayReader ar;
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "ArrayReaderInitFromType");
    Monitor m;
    int rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err);
    REQUIRE(rc == 0, "set-array", "valid string array rejected: %d %s", rc, m.err.message);
    rc = GeoArrowArrayReaderVisit(&ar, 0, a.length, &m.v);
    check_noted();
    size_t n = 0; int want = 0;
    for (; n < v.size(); n++) if (src[n] >= 0 && rcs[src[n]]) { want = rcs[src[n]]; break; }
    REQUIRE(rc == want, "array-rc", "rc=%d, element alone gives %d", rc, want);
    for (size_t i = 0; i < n; i++) {
      std::string why;
      REQUIRE(i < m.feats.size() && m.feats[i].null == (src[i] < 0), "array-null", "element %zu", i);
      if (src[i] >= 0) REQUIRE(equal(m.feats[i].g, outs[src[i]][0].g, &why), "array-differs", "%s", why.c_str());
    }
    GeoArrowArrayReaderReset(&ar);
    a.release(&a);
    count("arrays");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%lld blocks live: %s", (long long)alloc::live_blocks(), alloc::describe_live().c_str());
}
