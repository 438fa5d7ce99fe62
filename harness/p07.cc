// P07: reading well-formed WKB yields exactly the encoded geometry.
#include "arrow_ref.h"
using namespace hz;
const char* hz_name = "p07";

static std::string enc(Rng& r, const Geom& g) {
  WkbStyle st; st.r = &r; st.allow_ewkb = r.chance(0.6); st.mixed_endian = r.chance(0.6);
  if (r.one_in(4)) st.fixed_endian = (int)r.below(2);
  std::string o; enc_wkb(g, o, st); return o;
}
static void same(Geom got, Geom want, const char* how, const std::string& wkb) {
  norm_empty_points(got); norm_empty_points(want);
  std::string why;
  REQUIRE(equal(got, want, &why), "differs", "%s: %s; wanted %s from %s", how, why.c_str(), show(want).c_str(), hex(wkb.data(), wkb.size()).c_str());
}

void hz_case(Case& c) {
  Rng& r = c.r;
  GeoArrowWKBReader rd;
  REQUIRE(GeoArrowWKBReaderInit(&rd) == 0, "init", "WKBReaderInit");
  GenOpts o; o.num = NUM_ANY; o.budget = r.one_in(20) ? 4000 : 300; o.big = r.chance(0.5);
  Features fs; OptStrings vals;
  size_t n = r.one_in(4) ? gen_nfeat(r) : (size_t)r.range(1, 4);
  for (size_t i = 0; i < n; i++) {
    Feature f;
    if (r.one_in(6)) { f.null = true; fs.push_back(f); vals.push_back({false, ""}); continue; }
    if (r.one_in(700)) f.g = gen_huge(r, (int)r.range(1, 7), (int)r.range(1, 4));
    else if (r.one_in(25)) f.g = gen_nested(r, (int)(r.one_in(5) ? r.range(30, 240) : r.below(30)), (int)r.range(1, 4), o);
    else {
      f.g = gen_any(r, o);
      // members of collections may have their own dimensions
      if (f.g.type == T_COLLECTION && r.one_in(3)) for (auto& k : f.g.kids) if (r.chance(0.5)) k = gen_geom(r, (int)r.range(1, 7), (int)r.range(1, 4), o);
    }
    o.budget = 300;
    fs.push_back(f); vals.push_back({true, enc(r, f.g)});
  }
  distinct(shape_of(fs));
  for (size_t i = 0; i < n; i++) {
    if (fs[i].null) continue;
    const std::string& w = vals[i].second;
    crumb("wkb %s", hex(w.data(), w.size(), 200).c_str());
    if (want_sample()) sample(show(fs[i].g) + " " + hex(w.data(), w.size()));
    distinct(fnv(w));
    Exact b(w);
    GeoArrowBufferView bv{b.p, (int64_t)b.n};
    GeoArrowGeometryView gv; GeoArrowError err; err.message[0] = 0;
    int rc = GeoArrowWKBReaderRead(&rd, bv, &gv, &err);
    REQUIRE(rc == 0, "valid-rejected", "Read rc %d %s: %s %s", rc, err.message, show(fs[i].g).c_str(), hex(w.data(), w.size()).c_str());
    Geom got; std::string why;
    REQUIRE(view_to_geom(gv, got, why), "bad-view", "%s", why.c_str());
    same(got, fs[i].g, "view", w); count("views");
    { // the view visits to the same thing
      Monitor m; rc = GeoArrowGeometryViewVisit(gv, &m.v); check_noted();
      REQUIRE(rc == EINVAL || rc == 0, "view-visit", "rc %d", rc);
      REQUIRE(rc == 0, "view-visit", "rc %d %s", rc, m.err.message);
      (void)0;
    }
    Monitor m; m.strict = true;
    rc = GeoArrowWKBReaderVisit(&rd, bv, &m.v); check_noted();
    REQUIRE(rc == 0 && m.feats.size() == 1 && m.balanced(), "valid-rejected", "Visit rc %d %s", rc, m.err.message);
    same(m.feats[0].g, fs[i].g, "visit", w); count("visits");
  }
  GeoArrowWKBReaderReset(&rd);
  // arrays
  for (int type : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKB_VIEW}) {
    if (!r.chance(0.5)) continue;
    ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r;
    build_serialized(type, vals, &a, &log, st);
    uint64_t before = digest(&a);
    GeoArrowArrayReader ar; Monitor m;
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "ArrayReaderInitFromType");
    int rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err);
    REQUIRE(rc == 0, "set-array", "rc %d %s", rc, m.err.message);
    int64_t lo = r.one_in(2) ? 0 : (int64_t)r.below(n + 1), len = lo == 0 && r.one_in(2) ? (int64_t)n : (int64_t)r.below(n - lo + 1);
    rc = GeoArrowArrayReaderVisit(&ar, lo, len, &m.v); check_noted();
    REQUIRE(rc == 0 && m.balanced(), "array-rejected", "type %d rc %d %s", type, rc, m.err.message);
    REQUIRE((int64_t)m.feats.size() == len, "array-count", "%zu features from a range of %lld", m.feats.size(), (long long)len);
    for (int64_t i = 0; i < len; i++) {
      REQUIRE(m.feats[i].null == fs[lo + i].null, "array-null", "type %d element %lld", type, (long long)(lo + i));
      if (!fs[lo + i].null) same(m.feats[i].g, fs[lo + i].g, "array", vals[lo + i].second);
    }
    REQUIRE(digest(&a) == before, "input-changed", "array modified");
    GeoArrowArrayReaderReset(&ar);
    a.release(&a);
    count("arrays");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
