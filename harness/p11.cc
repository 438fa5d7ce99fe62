// P11: writing WKT is canonical, round-trips and honours its options.
#include "arrow_ref.h"
#include "wktref.h"
using namespace hz;
const char* hz_name = "p11";

void hz_case(Case& c) {
  Rng& r = c.r;
  bool arr = r.one_in(3);
  GeoArrowWKTWriter w; GeoArrowArrayWriter aw; GeoArrowVisitor v; GeoArrowError err; err.message[0] = 0;
  memset(&v, 0, sizeof v); v.error = &err;
  int prec = 16; bool flat = true;
  if (arr) {
    REQUIRE(GeoArrowArrayWriterInitFromType(&aw, GEOARROW_TYPE_WKT) == 0, "init", "ArrayWriter");
    if (r.chance(0.7)) { prec = (int)r.range(0, 16); REQUIRE(GeoArrowArrayWriterSetPrecision(&aw, prec) == 0, "option", "SetPrecision(%d)", prec); }
    if (r.chance(0.7)) { flat = r.one_in(2); REQUIRE(GeoArrowArrayWriterSetFlatMultipoint(&aw, flat) == 0, "option", "SetFlatMultipoint"); }
    REQUIRE(GeoArrowArrayWriterInitVisitor(&aw, &v) == 0, "init", "visitor");
  } else {
    REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "writer");
    REQUIRE(w.precision == 16 && w.use_flat_multipoint == 1 && w.max_element_size_bytes == -1, "option", "defaults");
    if (r.chance(0.7)) w.precision = prec = (int)r.range(0, 16);
    if (r.chance(0.7)) w.use_flat_multipoint = flat = r.one_in(2);
    GeoArrowWKTWriterInitVisitor(&w, &v);
  }
  int batches = r.one_in(3) ? 3 : 1;
  std::vector<ArrowArray> kept; std::vector<Features> model; std::vector<std::pair<int, bool>> opts;
  for (int b = 0; b < batches; b++) {
    if (b && !arr && r.one_in(3)) {  // options can change between batches with a new visitor
      w.precision = prec = (int)r.range(0, 16); w.use_flat_multipoint = flat = r.one_in(2);
      GeoArrowWKTWriterInitVisitor(&w, &v);
    }
    GenOpts o; o.num = r.one_in(2) ? NUM_FINITE : NUM_NICE; o.budget = r.one_in(25) ? 3000 : 200; o.huge = 1500; o.big = r.chance(0.5);
    Features f = gen_features(r, 0, 0, o, r.one_in(3) ? gen_nfeat(r) : r.below(5), gen_pnull(r));
    for (auto& x : f) if (!x.null && r.one_in(25)) x.g = gen_nested(r, (int)r.below(28), (int)r.range(1, 4), GenOpts());
    if (r.one_in(6)) {  // long runs of numbers whose text is much longer than the precision suggests
      Feature x; x.null = false; int dm = (int)r.range(1, 4), nd = ndim(dm);
      size_t len = r.range(20, 1200);
      Geom s; s.type = T_LINESTRING; s.dims = dm;
      int digits = (int)r.range(12, 17); double base = std::pow(10.0, digits - 1);
      for (size_t i = 0; i < len * nd; i++) { double t = base * (1 + (double)r.below(9000) / 1000); if (digits < 17) t = std::floor(t) + (r.one_in(4) ? 0.5 : 0); s.xs.push_back(r.one_in(2) ? -t : t); }
      if (r.one_in(2)) x.g = s;
      else {
        int how = (int)r.below(3); x.g.dims = dm; x.g.type = how == 0 ? T_MULTIPOINT : how == 1 ? T_MULTILINESTRING : T_COLLECTION;
        size_t per = how == 0 ? 1 : r.range(1, 4);
        for (size_t i = 0; i + per <= len; i += per) { Geom k; k.type = how == 0 ? T_POINT : T_LINESTRING; k.dims = dm; k.xs.assign(s.xs.begin() + i * nd, s.xs.begin() + (i + per) * nd); x.g.kids.push_back(k); }
      }
      f.push_back(x); count("wide_runs");
    }
    distinct(shape_of(f)); distinct(hash_of(f));
    if (want_sample()) sample(show(f));
    crumb("batch %d precision %d flat %d %s", b, prec, flat, show(f).c_str());
    for (auto& x : f) {
      Layout L; L.r = &r;
      int rc = play(&v, x, L);
      REQUIRE(rc == 0, "write", "rc %d for %s", rc, show(x.g).c_str());
    }
    ArrowArray a; a.release = nullptr;
    int rc = arr ? GeoArrowArrayWriterFinish(&aw, &a, &err) : GeoArrowWKTWriterFinish(&w, &a, &err);
    REQUIRE(rc == 0, "finish", "rc %d", rc);
    kept.push_back(a); model.push_back(f); opts.push_back({prec, flat});
  }
  for (size_t b = 0; b < kept.size(); b++) {
    ArrowArray* a = &kept[b]; const Features& f = model[b];
    int p = opts[b].first; bool fl = opts[b].second;
    Decoder d; OptStrings got;
    REQUIRE(d.serialized(a, GEOARROW_TYPE_WKT, got), "array-structure", "%s", d.why.c_str());
    REQUIRE(got.size() == f.size(), "array-length", "%zu of %zu features", got.size(), f.size());
    int64_t nulls = 0;
    for (size_t i = 0; i < f.size(); i++) {
      nulls += f[i].null;
      REQUIRE(got[i].first == !f[i].null, "array-null", "element %zu", i);
      if (f[i].null) continue;
      std::string want = text_of(f[i].g, p, fl);
      REQUIRE(got[i].second == want, "text", "element %zu: wrote %s, canonical %s", i, quote(got[i].second).c_str(), quote(want).c_str());
      RefWkt ref(got[i].second); Geom g; std::string why;
      REQUIRE(ref.parse(g), "not-wkt", "%s", quote(got[i].second).c_str());
      REQUIRE(close_enough(g, f[i].g, p, why), "value", "%s in %s", why.c_str(), quote(got[i].second).c_str());
      count("elements");
    }
    REQUIRE(a->null_count == nulls, "null-count", "%lld vs %lld", (long long)a->null_count, (long long)nulls);
    // the library reads it back to the same text
    GeoArrowArrayReader ar; Monitor m;
    REQUIRE(GeoArrowArrayReaderInitFromType(&ar, GEOARROW_TYPE_WKT) == 0, "init", "reader");
    int rc = GeoArrowArrayReaderSetArray(&ar, a, &m.err);
    if (!rc) rc = GeoArrowArrayReaderVisit(&ar, 0, a->length, &m.v);
    GeoArrowArrayReaderReset(&ar);
    check_noted();
    REQUIRE(rc == 0 && m.feats.size() == f.size(), "read-back", "rc %d %s: %s", rc, m.err.message, show(f).c_str());
    for (size_t i = 0; i < f.size(); i++) {
      REQUIRE(m.feats[i].null == f[i].null, "read-back", "null %zu", i);
      std::string why;
      if (!f[i].null) REQUIRE(close_enough(m.feats[i].g, f[i].g, p, why), "read-back", "%s", why.c_str());
    }
    count("arrays");
  }
  if (arr) GeoArrowArrayWriterReset(&aw); else GeoArrowWKTWriterReset(&w);
  for (auto& a : kept) a.release(&a);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
