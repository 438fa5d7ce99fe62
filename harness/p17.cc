// P17: coordinate chunking and memory layout never change the result.
#include "kern.h"
using namespace hz;
const char* hz_name = "p17";

// what a consumer produced, completely: lengths, null counts, validity, offsets, values
static void dump(const ArrowArray* a, int type, std::string& o) {
  auto put = [&](const void* p, size_t n) { o.append((const char*)p, n); };
  o += fmt("[%lld %lld %lld %lld %lld]", (long long)a->length, (long long)a->null_count, (long long)a->offset, (long long)a->n_buffers, (long long)a->n_children);
  if (a->n_buffers > 0 && a->buffers[0]) { o += 'v'; for (int64_t i = 0; i < a->length; i++) o += Decoder::bit(a->buffers[0], i) ? '1' : '0'; }
  if (a->n_buffers == 3) { const int32_t* f = (const int32_t*)a->buffers[1]; if (f) { put(f, (size_t)(a->length + 1) * 4); if (f[a->length]) put(a->buffers[2], (size_t)f[a->length]); } }
  else if (a->n_buffers == 2 && a->n_children == 1) { if (a->buffers[1]) put(a->buffers[1], (size_t)(a->length + 1) * 4); }
  else if (a->n_buffers == 2 && a->length) put(a->buffers[1], (size_t)a->length * 8);
  for (int64_t i = 0; i < a->n_children; i++) dump(a->children[i], type, o);
}

// lengths around every internal block size one could think of
static size_t pick_len(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(6);
    case 1: { size_t b = (size_t)1 << r.range(3, 12); return b + (size_t)r.range(-1, 1); }
    case 2: return (size_t)(32 * r.range(1, 16) + r.range(-1, 1));
    case 3: return (size_t)(384 / r.range(2, 4) * r.range(1, 5) + r.range(-1, 1));
    case 4: return (size_t)(3072 / r.range(2, 4) * r.range(1, 2) + r.range(-1, 1));
    default: return r.below(300);
  }
}
static Geom long_seq(Rng& r, int type, int dims, NumKind nk, size_t n) {
  Geom g; g.type = type; g.dims = dims; int nd = ndim(dims);
  bool same = r.one_in(4); std::vector<double> k;
  for (int j = 0; j < nd; j++) k.push_back(gen_double(r, nk));
  uint64_t mode = r.below(3);
  for (size_t i = 0; i < n; i++) for (int j = 0; j < nd; j++)
    g.xs.push_back(same ? k[j] : mode == 0 ? gen_double(r, nk) : mode == 1 ? (double)(int64_t)(i * 4 + j) : (double)(int64_t)(i * 31 % 1000) + j * 0.125);
  return g;
}
static Geom long_geom(Rng& r, int type, int dims, NumKind nk) {
  if (type == T_POINT) return long_seq(r, T_POINT, dims, nk, r.one_in(6) ? 0 : 1);
  if (type == T_LINESTRING) return long_seq(r, T_LINESTRING, dims, nk, pick_len(r));
  Geom g; g.type = type; g.dims = dims;
  size_t n = type == T_MULTIPOINT ? (r.one_in(6) ? pick_len(r) : r.below(5)) : r.below(4);
  for (size_t i = 0; i < n; i++) switch (type) {
    case T_POLYGON: case T_MULTILINESTRING: g.kids.push_back(long_seq(r, T_LINESTRING, dims, nk, r.one_in(3) ? pick_len(r) : r.below(6))); break;
    case T_MULTIPOINT: g.kids.push_back(long_geom(r, T_POINT, dims, nk)); break;
    case T_MULTIPOLYGON: g.kids.push_back(long_geom(r, T_POLYGON, dims, nk)); break;
    default: g.kids.push_back(long_geom(r, (int)r.range(1, 6), dims, nk));
  }
  return g;
}
static Features long_features(Rng& r, int gt, int dm, NumKind nk) {
  Features f(r.range(1, 4)); int64_t total = 0;
  for (auto& x : f) {
    if (r.one_in(8)) { x.null = true; continue; }
    x.g = long_geom(r, gt ? gt : (int)r.range(1, 7), dm ? dm : (int)r.range(1, 4), nk);
    total += (int64_t)total_coords(x.g);
    if (total > 9000) { f.resize((size_t)(&x - &f[0]) + 1); break; }
  }
  return f;
}
static void differ(const std::string& a, const std::string& b, const char* who, const Features& f) {
  if (a == b) return;
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  fail("differs", "%s: presentations give %zu and %zu bytes of result, first difference at %zu, for %s", who, a.size(), b.size(), i, show(f).c_str());
}

// ---- writers and the collector ---------------------------------------------
static void consumers(Rng& r) {
  int who = (int)r.below(4);  // WKB, WKT, native, geometry
  static const std::vector<int> types = all_native();
  int type = r.pick(types);
  NumKind nk = who == 1 && r.one_in(2) ? NUM_NICE : NUM_ANY;
  Features f = who == 2 ? long_features(r, type_geom(type), type_dims(type), nk) : long_features(r, 0, 0, nk);
  int prec = (int)r.range(0, 16), flat = (int)r.below(2); int64_t lim = r.one_in(3) ? (int64_t)r.below(5000) : -1;
  distinct(hash_of(f)); distinct(shape_of(f));
  if (want_sample()) sample(show(f));
  crumb("consumer %d type %d %s", who, type, show(f).c_str());
  static const char* W[] = {"WKB writer", "WKT writer", "native writer", "geometry"};
  int nv = (int)r.range(3, 5); std::string first;
  for (int k = 0; k < nv; k++) {
    Layout L; if (k) L.r = &r; L.empty_calls = true;
    GeoArrowVisitor v; GeoArrowError e; e.message[0] = 0; GeoArrowVisitorInitVoid(&v); v.error = &e;
    std::string out; ArrowArray a; a.release = nullptr; int rc = 0;
    auto feed = [&] { for (auto& x : f) { rc = play(&v, x, L); if (rc) break; } REQUIRE(rc == 0, "write", "%s: rc %d %s", W[who], rc, e.message); };
    if (who == 0) {
      GeoArrowWKBWriter w; REQUIRE(GeoArrowWKBWriterInit(&w) == 0, "init", "w"); GeoArrowWKBWriterInitVisitor(&w, &v); feed();
      rc = GeoArrowWKBWriterFinish(&w, &a, &e); GeoArrowWKBWriterReset(&w);
    } else if (who == 1) {
      GeoArrowWKTWriter w; REQUIRE(GeoArrowWKTWriterInit(&w) == 0, "init", "w"); w.precision = prec; w.use_flat_multipoint = flat; w.max_element_size_bytes = lim;
      GeoArrowWKTWriterInitVisitor(&w, &v); feed(); rc = GeoArrowWKTWriterFinish(&w, &a, &e); GeoArrowWKTWriterReset(&w);
    } else if (who == 2) {
      GeoArrowNativeWriter w; REQUIRE(GeoArrowNativeWriterInit(&w, (GeoArrowType)type) == 0 && GeoArrowNativeWriterInitVisitor(&w, &v) == 0, "init", "w"); feed();
      rc = GeoArrowNativeWriterFinish(&w, &a, &e); GeoArrowNativeWriterReset(&w);
    } else {
      GeoArrowGeometry g; REQUIRE(GeoArrowGeometryInit(&g) == 0, "init", "g"); GeoArrowGeometryInitVisitor(&g, &v);
      for (auto& x : f) {
        rc = play(&v, x, L); REQUIRE(rc == 0, "write", "geometry: rc %d %s", rc, e.message);
        if (x.null) continue;
        Geom q; std::string why; REQUIRE(view_to_geom(GeoArrowGeometryAsView(&g), q, why), "nodes", "%s", why.c_str());
        REQUIRE(equal(q, x.g, &why), "collected", "%s: %s", why.c_str(), show(x.g).c_str());
        out += fmt("%llx;", (unsigned long long)hash_of(q));
      }
      GeoArrowGeometryReset(&g);
    }
    if (who != 3) { REQUIRE(rc == 0, "finish", "%s: rc %d %s", W[who], rc, e.message); dump(&a, type, out); a.release(&a); }
    if (k == 0) first = out; else differ(first, out, W[who], f);
    count("presentations");
  }
  count(W[who]);
}

// ---- readers: the concatenation of their chunks is the sequence --------------
static void readers(Rng& r) {
  int who = (int)r.below(4);
  static const std::vector<int> types = all_native();
  int type = who == 0 ? r.pick(types) : who == 1 ? r.pick(std::vector<int>{GEOARROW_TYPE_WKB, GEOARROW_TYPE_LARGE_WKB, GEOARROW_TYPE_WKB_VIEW}) : r.pick(std::vector<int>{GEOARROW_TYPE_WKT, GEOARROW_TYPE_LARGE_WKT, GEOARROW_TYPE_WKT_VIEW});
  Features f = who == 0 ? long_features(r, type_geom(type), type_dims(type), NUM_ANY) : long_features(r, 0, 0, who == 2 ? NUM_NICE : NUM_ANY);
  distinct(hash_of(f)); distinct(shape_of(f)); crumb("reader %d type %d %s", who, type, show(f).c_str());
  Monitor m; int rc = 0;
  if (who == 3) {
    for (auto& x : f) { if (x.null) { x.null = false; x.g = long_geom(r, T_LINESTRING, 1, NUM_NICE); } NodeStyle st; st.r = &r; OwnedView ov = make_view(x.g, st); rc = GeoArrowGeometryViewVisit(ov.view(), &m.v); if (rc) break; }
  } else {
    ArrowArray a; build_source(r, type, f, &a, nullptr);
    GeoArrowArrayReader ar; REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "reader");
    rc = GeoArrowArrayReaderSetArray(&ar, &a, &m.err); if (!rc) rc = GeoArrowArrayReaderVisit(&ar, 0, a.length, &m.v);
    GeoArrowArrayReaderReset(&ar); a.release(&a);
  }
  check_noted();
  REQUIRE(rc == 0, "read", "type %d rc %d %s", type, rc, m.err.message);
  Features want = f; norm_empty_points(want); Features got = m.feats; norm_empty_points(got); std::string why;
  REQUIRE(equal(got, want, &why), "read", "type %d: %s", type, why.c_str());
  count("reads"); count("chunks", m.n_coord_calls);
}

// ---- kernels: the layout of the source does not matter --------------------------
static void kernels(Rng& r) {
  static const char* N[] = {"box", "box_agg", "unique_geometry_types_agg", "format_wkt", "as_geoarrow", "as_geoarrow"};
  int k = (int)r.below(6); bool agg = k == 1 || k == 2;
  int gt = (int)r.range(1, 6), dm = (int)r.range(1, 4);
  Features f = long_features(r, gt, dm, r.one_in(2) ? NUM_NICE : NUM_FINITE);
  f = prune(f);  // empty parts have no place of their own in every source
  distinct(hash_of(f)); crumb("kernel %s %s", N[k], show(f).c_str());
  int dst = k == 4 ? native_type(gt, dm, r.one_in(2)) : (int)GEOARROW_TYPE_WKB;
  std::string opt = k >= 4 ? enc_kv({{"type", std::to_string(dst)}}) : enc_kv({{"precision", std::to_string(r.range(0, 16))}});
  std::string first;
  int srcs[] = {native_type(gt, dm, false), native_type(gt, dm, true), (int)GEOARROW_TYPE_WKB};
  for (int i = 0; i < 3; i++) {
    ArrowArray a, o; build_source(r, srcs[i], f, &a, nullptr);
    Kernel kn(N[k]); SNode sn = ext_schema(r, srcs[i], nullptr); ArrowSchema s, os; snode_build(sn, &s, nullptr); os.release = nullptr;
    int rc = kn.start(&s, &opt, &os); REQUIRE(rc == 0, "kernel", "%s start %d %s", N[k], rc, kn.err.message);
    os.release(&os); s.release(&s);
    rc = kn.push(&a, agg ? nullptr : &o); a.release(&a);
    REQUIRE(rc == 0, "kernel", "%s push %d %s", N[k], rc, kn.err.message);
    rc = kn.finish(agg ? &o : nullptr); REQUIRE(rc == 0, "kernel", "%s finish %d", N[k], rc);
    kn.release();
    std::string out;
    if (k < 2) { Decoder d; std::vector<std::pair<bool, std::vector<double>>> rows; REQUIRE(decode_box(d, &o, 4, rows), "kernel", "%s", d.why.c_str()); for (auto& x : rows) { out += x.first ? 'V' : 'N'; if (x.first) out.append((const char*)x.second.data(), 32); } }
    else if (k == 2) { Decoder d; std::vector<int32_t> v; REQUIRE(decode_i32(d, &o, v), "kernel", "%s", d.why.c_str()); for (int x : v) out += fmt("%d,", x); }
    else dump(&o, 0, out);
    o.release(&o);
    if (i == 0) first = out; else differ(first, out, N[k], f);
    count("kernel_runs");
  }
}

void hz_case(Case& c) {
  Rng& r = c.r;
  int k = (int)r.below(10);
  if (k < 6) consumers(r); else if (k < 8) readers(r); else kernels(r);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
