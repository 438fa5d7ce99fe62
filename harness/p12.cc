// P12: native arrays written are valid Arrow and hold exactly the input.
#include "arrow_ref.h"
using namespace hz;
const char* hz_name = "p12";

static void check_array(ArrowArray* a, int type, const Features& f, const char* how) {
  Decoder d; Features got;
  REQUIRE(d.native(a, type, got), "array-structure", "%s type %d: %s (%s)", how, type, d.why.c_str(), show(f).c_str());
  REQUIRE(got.size() == f.size(), "array-length", "%s: %zu of %zu features", how, got.size(), f.size());
  int64_t nulls = 0; for (auto& x : f) nulls += x.null;
  REQUIRE(a->null_count == nulls, "null-count", "%s: null_count %lld, %lld nulls", how, (long long)a->null_count, (long long)nulls);
  Features want = f; norm_empty_points(want); want = prune(want);
  std::string why;
  REQUIRE(equal(prune(got), want, &why), "features", "%s type %d: %s (given %s, decoded %s)", how, type, why.c_str(), show(want).c_str(), show(got).c_str());
  GeoArrowArrayReader ar; Monitor m;
  REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "reader");
  int rc = GeoArrowArrayReaderSetArray(&ar, a, &m.err);
  if (!rc) rc = GeoArrowArrayReaderVisit(&ar, 0, a->length, &m.v);
  GeoArrowArrayReaderReset(&ar);
  check_noted();
  REQUIRE(rc == 0, "read-back", "%s: rc %d %s", how, rc, m.err.message);
  Features back = m.feats; norm_empty_points(back);
  REQUIRE(equal(prune(back), want, &why), "read-back", "%s: %s", how, why.c_str());
  count("arrays"); count("features", f.size());
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static const std::vector<int> types = all_native();
  int type = types[c.idx % types.size()];
  int how = (int)r.below(3);  // visitor, append, array writer
  GeoArrowNativeWriter w; GeoArrowArrayWriter aw; GeoArrowVisitor v; GeoArrowError err; err.message[0] = 0;
  memset(&v, 0, sizeof v); v.error = &err;
  if (how == 2) {
    if (r.one_in(2)) REQUIRE(GeoArrowArrayWriterInitFromType(&aw, (GeoArrowType)type) == 0, "init", "ArrayWriter");
    else {
      ArrowSchema s; REQUIRE(GeoArrowSchemaInitExtension(&s, (GeoArrowType)type) == 0, "init", "schema");
      int rc = GeoArrowArrayWriterInitFromSchema(&aw, &s); s.release(&s);
      REQUIRE(rc == 0, "init", "ArrayWriter from schema");
    }
    REQUIRE(GeoArrowArrayWriterInitVisitor(&aw, &v) == 0, "init", "visitor");
  } else {
    REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)type) == 0, "init", "writer");
    REQUIRE(GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "visitor");
  }
  int batches = r.one_in(3) ? 3 : 1;
  std::vector<ArrowArray> kept; std::vector<Features> model;
  for (int b = 0; b < batches; b++) {
    GenOpts o; o.num = NUM_ANY; o.budget = r.one_in(25) ? 5000 : 300; o.huge = 250; o.big = r.chance(0.5);
    Features f = gen_features(r, type_geom(type), type_dims(type), o, r.one_in(3) ? gen_nfeat(r) : r.below(6), gen_pnull(r));
    distinct(mix64(type) ^ shape_of(f)); distinct(hash_of(f));
    if (want_sample()) sample(show(f));
    crumb("type %d how %d batch %d %s", type, how, b, show(f).c_str());
    // a batch is written either through the visitor or by appending
    bool ap = how == 1 && (b == 0 || r.one_in(2));
    for (auto& x : f) {
      int rc;
      if (ap) {
        if (x.null) rc = GeoArrowNativeWriterAppendNull(&w);
        else { NodeStyle st; st.r = &r; OwnedView ov = make_view(x.g, st); rc = GeoArrowNativeWriterAppend(&w, ov.view(), &err); }
        count("appended");
      } else { Layout L; L.r = &r; rc = play(&v, x, L); count("visited"); }
      REQUIRE(rc == 0, "write", "%s type %d rc %d for %s: %s", ap ? "append" : "visitor", type, rc, show(x.g).c_str(), err.message);
    }
    ArrowArray a; a.release = nullptr;
    int rc = how == 2 ? GeoArrowArrayWriterFinish(&aw, &a, &err) : GeoArrowNativeWriterFinish(&w, &a, &err);
    REQUIRE(rc == 0, "finish", "rc %d %s", rc, err.message);
    kept.push_back(a); model.push_back(f);
    if (f.empty()) count("empty_batches");
  }
  bool early = r.one_in(2);
  auto reset = [&] { if (how == 2) GeoArrowArrayWriterReset(&aw); else GeoArrowNativeWriterReset(&w); };
  if (early) reset();
  static const char* n[] = {"visitor", "append", "array writer"};
  for (size_t b = 0; b < kept.size(); b++) check_array(&kept[b], type, model[b], n[how]);
  if (!early) reset();
  for (auto& a : kept) a.release(&a);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
