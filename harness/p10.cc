// P10: writing WKB is canonical and round-trips.
#include "arrow_ref.h"
using namespace hz;
const char* hz_name = "p10";

// nesting the visitor interface of the writer accepts
static int depth_of(const Geom& g) { int d = 0; for (auto& k : g.kids) d = std::max(d, depth_of(k)); return d + 1; }

static Features gen(Rng& r, bool deep) {
  GenOpts o; o.num = NUM_ANY; o.budget = r.one_in(25) ? 5000 : 300; o.huge = 250; o.big = r.chance(0.5);
  size_t n = r.one_in(3) ? gen_nfeat(r) : r.below(5);
  Features f = gen_features(r, 0, 0, o, n, gen_pnull(r));
  for (auto& x : f) {
    if (x.null) continue;
    if (deep && r.one_in(20)) x.g = gen_nested(r, (int)r.below(27), (int)r.range(1, 4), GenOpts());
    if (x.g.type == T_COLLECTION && r.one_in(3)) { GenOpts q; for (auto& k : x.g.kids) if (r.chance(0.5)) k = gen_geom(r, (int)r.range(1, 6), (int)r.range(1, 4), q); }
  }
  return f;
}

static void check_array(ArrowArray* a, const Features& f, const char* how) {
  Decoder d; OptStrings got;
  REQUIRE(d.serialized(a, GEOARROW_TYPE_WKB, got), "array-structure", "%s: %s (%s)", how, d.why.c_str(), show(f).c_str());
  REQUIRE(got.size() == f.size(), "array-length", "%s: %zu of %zu features", how, got.size(), f.size());
  int64_t nulls = 0, bytes = 0;
  for (size_t i = 0; i < f.size(); i++) {
    nulls += f[i].null;
    REQUIRE(got[i].first == !f[i].null, "array-null", "%s: element %zu of %zu: %s", how, i, f.size(), f[i].null ? "should be null" : "became null");
    if (f[i].null) continue;
    std::string want = wkb_iso(f[i].g);
    bytes += (int64_t)want.size();
    if (got[i].second != want)
      fail("bytes", "%s: element %zu: wrote %s, ISO WKB is %s (%s)", how, i, hex(got[i].second.data(), got[i].second.size(), 160).c_str(), hex(want.data(), want.size(), 160).c_str(), show(f[i].g).c_str());
    count("elements");
  }
  REQUIRE(a->null_count == nulls || a->null_count == -1, "null-count", "%s: null_count %lld, %lld nulls", how, (long long)a->null_count, (long long)nulls);
  REQUIRE(a->offset == 0, "array-structure", "offset %lld", (long long)a->offset);
  const int32_t* off = (const int32_t*)a->buffers[1];
  REQUIRE(off && off[a->length] == bytes, "offsets", "%s: last offset %d for %lld bytes", how, off ? off[a->length] : -1, (long long)bytes);
  // and back
  GeoArrowArrayReader ar; Monitor m;
  REQUIRE(GeoArrowArrayReaderInitFromType(&ar, GEOARROW_TYPE_WKB) == 0, "init", "reader");
  int rc = GeoArrowArrayReaderSetArray(&ar, a, &m.err);
  if (!rc) rc = GeoArrowArrayReaderVisit(&ar, 0, a->length, &m.v);
  GeoArrowArrayReaderReset(&ar);
  check_noted();
  REQUIRE(rc == 0, "read-back", "%s: rc %d %s", how, rc, m.err.message);
  Features want = f, back = m.feats; std::string why;
  norm_empty_points(want); norm_empty_points(back);
  REQUIRE(equal(back, want, &why), "read-back", "%s: %s", how, why.c_str());
  count("arrays");
}

void hz_case(Case& c) {
  Rng& r = c.r;
  int how = (int)r.below(4);  // visitor, append, mixed, array writer
  GeoArrowWKBWriter w; GeoArrowArrayWriter aw; GeoArrowVisitor v; GeoArrowError err; err.message[0] = 0;
  memset(&v, 0, sizeof v); v.error = &err;
  if (how == 3) {
    if (r.one_in(2)) REQUIRE(GeoArrowArrayWriterInitFromType(&aw, GEOARROW_TYPE_WKB) == 0, "init", "ArrayWriter");
    else {
      ArrowSchema s; REQUIRE(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKB) == 0, "init", "schema");
      int rc = GeoArrowArrayWriterInitFromSchema(&aw, &s); s.release(&s);
      REQUIRE(rc == 0, "init", "ArrayWriter from schema");
    }
    REQUIRE(GeoArrowArrayWriterInitVisitor(&aw, &v) == 0, "init", "visitor");
  } else {
    REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "writer");
    GeoArrowWKBWriterInitVisitor(&w, &v);
  }
  int batches = r.one_in(3) ? 3 : 1;
  std::vector<ArrowArray> kept; std::vector<Features> model;
  for (int b = 0; b < batches; b++) {
    Features f = gen(r, true);
    distinct(shape_of(f)); distinct(hash_of(f));
    if (want_sample()) sample(show(f));
    crumb("how %d batch %d %s", how, b, show(f).c_str());
    for (auto& x : f) {
      bool ap = how == 1 || (how == 2 && r.one_in(2));
      int rc;
      if (ap) {
        if (x.null) rc = GeoArrowWKBWriterAppendNull(&w);
        else { NodeStyle st; st.r = &r; OwnedView o = make_view(x.g, st); rc = GeoArrowWKBWriterAppend(&w, o.view()); }
        count("appended");
      } else {
        Layout L; L.r = &r; rc = play(&v, x, L); count("visited");
      }
      REQUIRE(rc == 0, "write", "%s rc %d for %s (nesting %d)", ap ? "append" : "visitor", rc, show(x.g).c_str(), x.null ? 0 : depth_of(x.g));
    }
    ArrowArray a; a.release = nullptr;
    int rc = how == 3 ? GeoArrowArrayWriterFinish(&aw, &a, &err) : GeoArrowWKBWriterFinish(&w, &a, &err);
    REQUIRE(rc == 0, "finish", "rc %d", rc);
    kept.push_back(a); model.push_back(f);
  }
  if (r.one_in(2)) { if (how == 3) GeoArrowArrayWriterReset(&aw); else GeoArrowWKBWriterReset(&w); how |= 16; }
  static const char* n[] = {"visitor", "append", "mixed", "array writer"};
  for (size_t b = 0; b < kept.size(); b++) check_array(&kept[b], model[b], n[how & 15]);
  if (!(how & 16)) { if (how == 3) GeoArrowArrayWriterReset(&aw); else GeoArrowWKBWriterReset(&w); }
  for (auto& a : kept) a.release(&a);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
