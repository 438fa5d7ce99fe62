// P01: reading arbitrary bytes as WKB.
#include "arrow_ref.h"
#include "hostile.h"
using namespace hz;
const char* hz_name = "p01";


static void check_err(const GeoArrowError& e) {
  REQUIRE(memchr(e.message, 0, sizeof e.message), "error-message-unterminated", "no NUL in error message");
}

// one reader, one byte string: returns whether it was read
static bool one(GeoArrowWKBReader* rd, const std::string& s, bool null_err, Geom* got) {
  Exact buf(s);
  GeoArrowBufferView bv{buf.p, (int64_t)buf.n};
  GeoArrowError err; memset(&err, 'X', sizeof err);
  GeoArrowGeometryView gv; memset(&gv, 0x5a, sizeof gv);
  GeoArrowGeometryView before = gv;
  int rc = GeoArrowWKBReaderRead(rd, bv, &gv, null_err ? nullptr : &err);
  REQUIRE(rc >= 0, "negative-error-code", "rc=%d", rc);
  Geom g;
  if (rc == 0) {
    for (int64_t i = 0; i < gv.size_nodes; i++) {
      const GeoArrowGeometryNode& n = gv.root[i];
      if (!is_seq(n.geometry_type) || n.size == 0) continue;
      for (int j = 0; j < ndim(n.dimensions); j++) {
        const uint8_t* a = n.coords[j];
        const uint8_t* b = a + (int64_t)(n.size - 1) * n.coord_stride[j] + 8;
        REQUIRE(a >= buf.p && b <= buf.p + buf.n, "view-outside-input", "node %lld ordinate %d covers [%lld,%lld) of %zu", (long long)i, j, (long long)(a - buf.p), (long long)(b - buf.p), buf.n);
      }
    }
    std::string why;
    REQUIRE(view_to_geom(gv, g, why), "inconsistent-view", "%s for %s", why.c_str(), hex(s.data(), s.size()).c_str());
    count("read_ok");
  } else {
    if (!null_err) check_err(err);
    REQUIRE(memcmp(&before, &gv, sizeof gv) == 0, "output-changed-on-error", "rc=%d", rc);
    count("read_rejected");
  }
  Monitor m; m.strict = false;
  memset(&m.err, 'X', sizeof m.err);
  if (null_err) m.v.error = nullptr;
  int rc2 = GeoArrowWKBReaderVisit(rd, bv, &m.v);
  check_noted();
  REQUIRE((rc2 == 0) == (rc == 0), "read-visit-disagree", "read rc=%d visit rc=%d for %s", rc, rc2, hex(s.data(), s.size()).c_str());
  if (rc2) {
    if (!null_err) check_err(m.err);
    size_t ge = 0;
    for (auto& f : m.feats) ge += f.g.type != 0;
    REQUIRE(ge == 0, "events-before-reject", "%zu geometry events for rejected bytes %s", ge, hex(s.data(), s.size()).c_str());
  } else {
    REQUIRE(m.feats.size() == 1 && m.balanced(), "unbalanced-visit", "%zu features", m.feats.size());
    std::string why;
    REQUIRE(equal(m.feats[0].g, g, &why), "visit-differs-from-view", "%s", why.c_str());
    distinct(mix64(m.trace));
  }
  count("events", (uint64_t)m.n_events);
  if (got) *got = g;
  return rc == 0;
}

void hz_case(Case& c) {
  Rng& r = c.r;
  GeoArrowWKBReader rd;
  REQUIRE(GeoArrowWKBReaderInit(&rd) == 0, "init", "WKBReaderInit failed");
  int n = (int)r.range(1, 4);
  std::vector<std::string> ss;
  for (int i = 0; i < n; i++) {
    std::string s;
    if (c.idx % 7 == 0 && i == 0) {  // every truncation of one small geometry
      GenOpts o; o.budget = 12; o.big = false; o.num = NUM_ANY;
      Geom g = gen_any(r, o);
      WkbStyle st; st.r = &r;
      std::string full; enc_wkb(g, full, st);
      for (size_t k = 0; k <= full.size(); k++) {
        bool ok = one(&rd, full.substr(0, k), false, nullptr);
        REQUIRE(ok == (k == full.size()), "truncation-accepted", "prefix %zu of %zu: %s", k, full.size(), hex(full.data(), full.size()).c_str());
        count("truncations");
      }
      s = full;
    } else s = hostile(r);
    crumb("read %s", hex(s.data(), s.size()).c_str());
    if (want_sample()) sample(hex(s.data(), s.size()));
    Geom got, ref; std::string why;
    bool ok = one(&rd, s, r.one_in(4), &got);
    distinct(fnv(s));
    // strictly valid input must be read as what it says
    if (s.size() < 5000 && wkb_decode(s, ref, why)) {
      Geom a = got, b = ref; norm_empty_points(a); norm_empty_points(b);
      if (ok) REQUIRE(equal(a, b, &why), "misread", "%s for %s", why.c_str(), hex(s.data(), s.size()).c_str());
      count("strictly_valid");
    } else if (s.size() < 5000 && why.find("truncated") == 0) {
      REQUIRE(!ok, "truncated-accepted", "%s", hex(s.data(), s.size()).c_str());
    }
    ss.push_back(s);
  }
  // the reader is still as good as new
  {
    GenOpts o; o.budget = 40; o.big = false;
    Geom g = gen_any(r, o), got; std::string why;
    WkbStyle st; st.r = &r; std::string s; enc_wkb(g, s, st);
    REQUIRE(one(&rd, s, false, &got), "reuse-rejects", "valid input rejected after hostile input");
    norm_empty_points(g); norm_empty_points(got);
    REQUIRE(equal(got, g, &why), "reuse-differs", "%s", why.c_str());
  }
  GeoArrowWKBReaderReset(&rd);
  // through arrays
  if (r.chance(0.5)) {
    int type = r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKB_VIEW});
    OptStrings v;
    for (auto& s : ss) { if (r.one_in(5)) v.push_back({false, ""}); if (s.size() < 100000) v.push_back({true, s}); }
    ArrowArray a; ReleaseLog log; ArrayStyle st; st.r = &r;
    build_serialized(type, v, &a, &log, st);
    uint64_t dg = digest(&a);
    GeoArrowArrayReader ar;
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "ArrayReaderInitFromType");
    Monitor m; m.strict = false;
    int rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err);
    REQUIRE(rc == 0, "set-array", "valid binary array rejected: %d %s", rc, m.err.message);
    rc = GeoArrowArrayReaderVisit(&ar, 0, a.length, &m.v);
    check_noted();
    size_t complete = m.feats.size() - (m.in_feat ? 1 : 0);
    for (size_t i = 0; i < m.feats.size(); i++) {
      if (i < complete) { REQUIRE(i < v.size() && m.feats[i].null == !v[i].first, "array-null", "feature %zu", i); continue; }
      REQUIRE(m.feats[i].g.type == 0, "events-before-reject", "partial geometry for element %zu", i);
    }
    if (rc == 0) REQUIRE(complete == v.size(), "array-length", "%zu of %zu", complete, v.size());
    else { REQUIRE(complete < v.size(), "array-error", "all %zu features delivered but rc=%d", complete, rc); check_err(m.err); }
    REQUIRE(digest(&a) == dg, "input-modified", "array changed");
    GeoArrowArrayReaderReset(&ar);
    a.release(&a);
    count("arrays");
  }
  REQUIRE(alloc::live_blocks() == 0, "leak", "%lld blocks live: %s", (long long)alloc::live_blocks(), alloc::describe_live().c_str());
  REQUIRE(alloc::bad_frees() == 0, "bad-free", "%llu", (unsigned long long)alloc::bad_frees());
}
