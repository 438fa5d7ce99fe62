// P08: reading well-formed WKT yields exactly the written geometry, and text
// outside the grammar is rejected.
#include "arrow_ref.h"
#include "wktgen.h"
#include "wktref.h"
using namespace hz;
const char* hz_name = "p08";

static const char* kIns[] = {"(", ")", ",", " ", ".", "-", "E", "e", "Z", "M", "ZM", "1", "EMPTY", "POINT", ",,", "()", "x", "1 ", " 1", "\t", "+"};
static std::string mutate(Rng& r, std::string s) {
  for (int i = (int)r.range(1, 2); i > 0 && !s.empty(); i--) {
    size_t p = r.below(s.size());
    switch (r.below(6)) {
      case 0: s.erase(p, 1); break;
      case 1: s.insert(p, kIns[r.below(sizeof kIns / sizeof *kIns)]); break;
      case 2: s[p] = "(),. \tEZM-0129"[r.below(14)]; break;
      case 3: { size_t q = r.below(s.size()); std::swap(s[p], s[q]); break; }
      case 4: s.insert(p, s.substr(p, r.below(9))); break;
      default: s.resize(p);
    }
  }
  return s;
}

void hz_case(Case& c) {
  Rng& r = c.r;
  GeoArrowWKTReader rd;
  REQUIRE(GeoArrowWKTReaderInit(&rd) == 0, "init", "WKTReaderInit");
  GenOpts o; o.num = NUM_FINITE; o.budget = r.one_in(20) ? 1500 : 150; o.big = r.chance(0.4);
  Features fs; OptStrings vals; std::string why;
  size_t n = r.one_in(4) ? gen_nfeat(r) : (size_t)r.range(1, 4);
  for (size_t i = 0; i < n; i++) {
    Feature f;
    if (r.one_in(6)) { f.null = true; fs.push_back(f); vals.push_back({false, ""}); continue; }
    if (r.one_in(1500)) f.g = gen_huge(r, (int)r.range(1, 7), (int)r.range(1, 4));
    else if (r.one_in(25)) f.g = gen_nested(r, (int)(r.one_in(5) ? r.range(30, 200) : r.below(30)), (int)r.range(1, 4), o);
    else {
      f.g = gen_any(r, o);
      if (f.g.type == T_COLLECTION && r.one_in(3)) for (auto& k : f.g.kids) if (r.chance(0.5)) k = gen_geom(r, (int)r.range(1, 7), (int)r.range(1, 4), o);
    }
    o.budget = 150;
    fs.push_back(f); vals.push_back({true, wkt_random(r, f.g, r.pick({0.0, 0.3, 0.8}))});
  }
  distinct(shape_of(fs));
  for (size_t i = 0; i < n; i++) {
    if (fs[i].null) continue;
    const std::string& w = vals[i].second;
    crumb("wkt %s", quote(w).c_str());
    if (want_sample()) sample(quote(w));
    distinct(fnv(w));
    Exact b(w); Monitor m;
    int rc = GeoArrowWKTReaderVisit(&rd, GeoArrowStringView{(char*)b.p, (int64_t)b.n}, &m.v); check_noted();
    REQUIRE(rc == 0 && m.feats.size() == 1 && m.balanced(), "valid-rejected", "rc %d %s: %s", rc, m.err.message, quote(w, 600).c_str());
    REQUIRE(equal(m.feats[0].g, fs[i].g, &why), "differs", "%s; from %s", why.c_str(), quote(w, 500).c_str());
    count("parsed");
    // near misses: the reader must agree with the grammar
    if (w.size() < 3000) for (int k = 0; k < 3; k++) {
      std::string x = mutate(r, w);
      RefWkt ref(x); Geom g; bool ok = ref.parse(g);
      if (ref.unsure) continue;
      Exact xb(x); Monitor mx; mx.check = false;
      rc = GeoArrowWKTReaderVisit(&rd, GeoArrowStringView{(char*)xb.p, (int64_t)xb.n}, &mx.v);
      if (ok) {
        REQUIRE(rc == 0, "valid-rejected", "rc %d %s: %s", rc, mx.err.message, quote(x, 600).c_str());
        REQUIRE(equal(mx.feats[0].g, g, &why), "differs", "%s; from %s", why.c_str(), quote(x, 500).c_str());
        count("mutants_valid");
      } else { REQUIRE(rc != 0, "invalid-accepted", "%s read as %s", quote(x, 600).c_str(), show(mx.feats[0].g).c_str()); count("mutants_rejected"); }
      distinct(fnv(x));
    }
  }
  GeoArrowWKTReaderReset(&rd);
  for (int type : {(int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKT, (int)GEOARROW_TYPE_WKT_VIEW}) {
    if (!r.chance(0.5)) continue;
    ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r;
    build_serialized(type, vals, &a, &log, st);
    GeoArrowArrayReader ar; Monitor m;
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "ArrayReaderInitFromType");
    int rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err);
    REQUIRE(rc == 0, "set-array", "rc %d %s", rc, m.err.message);
    int64_t lo = r.one_in(2) ? 0 : (int64_t)r.below(n + 1), len = lo == 0 && r.one_in(2) ? (int64_t)n : (int64_t)r.below(n - lo + 1);
    rc = GeoArrowArrayReaderVisit(&ar, lo, len, &m.v); check_noted();
    REQUIRE(rc == 0 && m.balanced() && (int64_t)m.feats.size() == len, "array-rejected", "type %d rc %d %s", type, rc, m.err.message);
    for (int64_t i = 0; i < len; i++) {
      REQUIRE(m.feats[i].null == fs[lo + i].null, "array-null", "type %d element %lld", type, (long long)(lo + i));
      if (!fs[lo + i].null) REQUIRE(equal(m.feats[i].g, fs[lo + i].g, &why), "differs", "array: %s; from %s", why.c_str(), quote(vals[lo + i].second, 500).c_str());
    }
    GeoArrowArrayReaderReset(&ar);
    a.release(&a);
    count("arrays");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
