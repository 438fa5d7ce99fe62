// P25: arrays built buffer by buffer hold exactly the supplied buffers.
#include "kern.h"
#include "bufs.h"
#include <functional>
#include <map>
using namespace hz;
const char* hz_name = "p25";

// buffers handed over: which were given, which came back
struct Given { uint8_t* p; int64_t n; int freed = 0; };
struct Ledger { std::map<int, Given> all; int wrong = 0; };
struct Token { Ledger* l; int id; };
static void give_back(uint8_t* p, int64_t n, void* priv) {
  Token* t = (Token*)priv; Given& g = t->l->all[t->id];
  g.freed++;
  if (p != g.p || n != g.n) t->l->wrong++;
  if (g.freed == 1 && p == g.p) { if (p) memset(p, 0xEE, (size_t)g.n); raw_free(p); }
}
static void ledger_check(Ledger& l, bool all_back, const char* when) {
  REQUIRE(!l.wrong, "owned-free-args", "%s: the callback of a buffer was called with another pointer or size", when);
  for (auto& x : l.all) {
    REQUIRE(x.second.freed <= 1, "owned-freed-twice", "%s: buffer %d", when, x.first);
    if (all_back) REQUIRE(x.second.freed == 1, "owned-not-freed", "%s: buffer %d of %zu", when, x.first, l.all.size());
  }
}

static void supply(Rng& r, GeoArrowBuilder* b, int64_t i, const Buf& d, int how, Ledger& led, std::vector<Token*>& toks) {
  if (how == 2) {  // taken over
    int n = r.one_in(6) ? 2 : 1;  // replacing the first one hands it back
    for (int k = 0; k < n; k++) {
      bool last = k == n - 1; std::string bytes = last ? d.bytes : std::string(r.below(40), 'o');
      if (n == 1 && bytes.empty() && r.one_in(2)) continue;
      uint8_t* p = bytes.empty() && r.one_in(2) ? nullptr : (uint8_t*)raw_malloc(bytes.size()); if (!bytes.empty()) memcpy(p, bytes.data(), bytes.size());
      if (!p) count("owned_null");
      int id = (int)led.all.size(); led.all[id] = Given{p, (int64_t)bytes.size()};
      Token* t = new Token{&led, id}; toks.push_back(t);
      GeoArrowBufferView bv; bv.data = p; bv.size_bytes = (int64_t)bytes.size();
      int rc = GeoArrowBuilderSetOwnedBuffer(b, i, bv, give_back, t);
      REQUIRE(rc == 0, "owned", "SetOwnedBuffer(%lld) rc %d", (long long)i, rc);
      count("owned");
      if (!last) { ledger_check(led, false, "replaced"); }
    }
    return;
  }
  // appended in pieces, with or without reserving
  int64_t at = 0, n = (int64_t)d.bytes.size();
  if (how == 1 && r.one_in(2)) { int rc = GeoArrowBuilderReserveBuffer(b, i, (int64_t)r.below(n + 200)); REQUIRE(rc == 0, "reserve", "rc %d", rc); count("reserved"); }
  while (at < n) {
    int64_t k = r.one_in(3) ? n - at : r.range(1, std::min<int64_t>(n - at, 1 + (int64_t)r.below(64)));
    Exact piece(d.bytes.data() + at, (size_t)k); GeoArrowBufferView bv; bv.data = piece.p; bv.size_bytes = k;
    if (how == 1 && r.one_in(3)) {
      int rc = GeoArrowBuilderReserveBuffer(b, i, k + (int64_t)r.below(30)); REQUIRE(rc == 0, "reserve", "rc %d", rc);
      REQUIRE(GeoArrowBuilderBufferCheck(b, i, k), "reserve", "no room for %lld bytes after reserving them", (long long)k);
      GeoArrowBuilderAppendBufferUnsafe(b, i, bv);
    } else { int rc = GeoArrowBuilderAppendBuffer(b, i, bv); REQUIRE(rc == 0, "append", "AppendBuffer(%lld, %lld bytes) rc %d", (long long)i, (long long)k, rc); }
    at += k; count("appended");
    // nothing appended so far is lost
    REQUIRE(b->view.buffers[i].size_bytes == at && b->view.buffers[i].capacity_bytes >= at && !memcmp(b->view.buffers[i].data.as_uint8, d.bytes.data(), (size_t)at), "append-lost", "buffer %lld after %lld bytes", (long long)i, (long long)at);
  }
}

// offsets through OffsetAppend, coordinates through CoordsAppend
static void supply_typed(Rng& r, GeoArrowBuilder* b, int type, const std::vector<Buf>& bufs) {
  int depth = list_depth(type_geom(type)), nd = ndim(type_dims(type)); bool inter = type_inter(type);
  for (int l = 0; l < depth; l++) {
    std::vector<int32_t> off(bufs[1 + l].bytes.size() / 4); memcpy(off.data(), bufs[1 + l].bytes.data(), off.size() * 4);
    for (size_t at = 0; at < off.size();) {
      size_t k = (size_t)r.range(1, (int64_t)(off.size() - at)); Exact p(off.data() + at, k * 4);
      if (r.one_in(3)) { int rc = GeoArrowBuilderOffsetReserve(b, l, (int64_t)(k + r.below(5))); REQUIRE(rc == 0, "offsets", "reserve rc %d", rc); REQUIRE(GeoArrowBuilderOffsetCheck(b, l, (int64_t)k), "offsets", "no room after reserving"); GeoArrowBuilderOffsetAppendUnsafe(b, l, (const int32_t*)p.p, (int64_t)k); }
      else { int rc = GeoArrowBuilderOffsetAppend(b, l, (const int32_t*)p.p, (int64_t)k); REQUIRE(rc == 0, "offsets", "append rc %d", rc); }
      at += k; count("offset_appends");
    }
  }
  size_t n; std::vector<double> xs;
  if (inter) { xs.resize(bufs.back().bytes.size() / 8); if (!xs.empty()) memcpy(xs.data(), bufs.back().bytes.data(), xs.size() * 8); n = xs.size() / nd; }
  else {
    n = bufs.back().bytes.size() / 8; xs.resize(n * nd);
    for (int j = 0; j < nd; j++) for (size_t i = 0; i < n; i++) memcpy(&xs[i * nd + j], bufs[1 + depth + j].bytes.data() + i * 8, 8);
  }
  for (size_t at = 0; at < n;) {
    size_t k = r.one_in(3) ? n - at : (size_t)r.range(1, std::min<int64_t>((int64_t)(n - at), 20)), pre = r.below(3);
    GeoArrowCoordView cv; memset(&cv, 0, sizeof cv); cv.n_values = nd; cv.n_coords = (int64_t)(k + pre); Exact buf;
    bool sep = r.one_in(2); std::vector<double> t((k + pre) * nd, -1.0);
    for (size_t i = 0; i < k; i++) for (int j = 0; j < nd; j++) t[sep ? j * (k + pre) + i + pre : (i + pre) * nd + j] = xs[(at + i) * nd + j];
    buf.assign(t.data(), t.size() * 8);
    for (int j = 0; j < nd; j++) cv.values[j] = (const double*)buf.p + (sep ? j * (k + pre) : j);
    cv.coords_stride = sep ? 1 : nd;
    if (r.one_in(3)) { int rc = GeoArrowBuilderCoordsReserve(b, (int64_t)(k + r.below(9))); REQUIRE(rc == 0, "coords", "reserve rc %d", rc); REQUIRE(GeoArrowBuilderCoordsCheck(b, (int64_t)k), "coords", "no room after reserving"); GeoArrowBuilderCoordsAppendUnsafe(b, &cv, (GeoArrowDimensions)type_dims(type), (int64_t)pre, (int64_t)k); }
    else { int rc = GeoArrowBuilderCoordsAppend(b, &cv, (GeoArrowDimensions)type_dims(type), (int64_t)pre, (int64_t)k); REQUIRE(rc == 0, "coords", "append rc %d", rc); }
    at += k; count("coord_appends");
    REQUIRE(b->view.coords.size_coords == (int64_t)at, "coords", "%lld of %zu coordinates", (long long)b->view.coords.size_coords, at);
  }
}

static int count_rel(const ArrowArray* a) { int n = 1; for (int64_t i = 0; i < a->n_children; i++) n += count_rel(a->children[i]); return n; }

static void build(Rng& r, int type) {
  GeoArrowBuilder b; GeoArrowError e; e.message[0] = 0; memset(&b, 0x5a, sizeof b);
  int rc;
  if (r.one_in(2) || type == GEOARROW_TYPE_WKB_VIEW) rc = GeoArrowBuilderInitFromType(&b, (GeoArrowType)type);
  else { SNode sn = ext_schema(r, type, nullptr); ArrowSchema s; snode_build(sn, &s, nullptr); rc = GeoArrowBuilderInitFromSchema(&b, &s, &e); s.release(&s); }
  REQUIRE(rc == 0, "init", "type %d rc %d %s", type, rc, e.message);
  Ledger led; std::vector<Token*> toks;
  int mech = (int)r.below(is_native(type) ? 5 : 4);  // 0 append 1 reserve+append 2 owned 3 mixed 4 typed appends
  std::vector<int> per; std::vector<ArrowArray> kept; std::vector<std::vector<Buf>> model; std::vector<Features> feats; std::vector<OptStrings> strs; std::vector<int64_t> lens;
  int nb = (int)r.range(1, 3); bool finished_all = true;
  for (int k = 0; k < nb; k++) {
    size_t n = r.one_in(4) ? gen_nfeat(r) : r.below(6);
    Features f; OptStrings s; ArrowArray src; ArrayStyle st; double pn = gen_pnull(r);
    std::vector<std::pair<bool, std::vector<double>>> rows;
    if (is_box(type)) { int nd = ndim(type_dims(type)); for (size_t i = 0; i < n; i++) { std::vector<double> v; for (int j = 0; j < 2 * nd; j++) v.push_back(gen_double(r, NUM_ANY)); rows.push_back({!r.chance(pn), v}); } build_box(type, rows, &src, nullptr, st); }
    else if (is_native(type)) { f = gen_for(r, type, n, pn); build_native(type, f, &src, nullptr, st); }
    else { f = gen_for(r, type, n, pn); for (auto& x : f) { std::string t; if (!x.null) { if (is_wkt(type)) t = "TEXT " + std::to_string(r.next()); else t = wkb_iso(x.g); } s.push_back({!x.null, t}); } build_serialized(type, s, &src, nullptr, st); }
    std::vector<Buf> bufs = flatten(&src); int64_t len = src.length;
    src.release(&src);
    REQUIRE((int64_t)bufs.size() == b.view.n_buffers, "n_buffers", "type %d has %zu buffers, builder says %lld", type, bufs.size(), (long long)b.view.n_buffers);
    distinct(mix64(type * 8 + mech) ^ (is_box(type) ? fnv(bufs[1].bytes) : hash_of(f))); distinct(mix64(type) ^ shape_of(f));
    if (want_sample()) sample(fmt("type %d mechanism %d: %lld rows, %zu buffers", type, mech, (long long)len, bufs.size()));
    crumb("type %d mechanism %d batch %d rows %lld", type, mech, k, (long long)len);
    // in any order
    if (mech == 4) {
      if (bufs[0].present) supply(r, &b, 0, bufs[0], (int)r.below(2), led, toks);
      supply_typed(r, &b, type, bufs);
    } else {
      if (per.empty()) for (size_t i = 0; i < bufs.size(); i++) per.push_back(mech == 3 ? (int)r.below(3) : mech);
      std::vector<size_t> order; for (size_t i = 0; i < bufs.size(); i++) order.push_back(i);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
      for (size_t i : order) if (bufs[i].present) supply(r, &b, (int64_t)i, bufs[i], per[i], led, toks);
    }
    if (r.one_in(12)) {  // given up: everything still comes back
      finished_all = false; break;
    }
    ArrowArray a; a.release = nullptr;
    rc = GeoArrowBuilderFinish(&b, &a, &e);
    REQUIRE(rc == 0, "finish", "type %d mechanism %d: rc %d %s", type, mech, rc, e.message);
    kept.push_back(a); model.push_back(bufs); feats.push_back(f); strs.push_back(s); lens.push_back(len);
    ledger_check(led, false, "finished");
    // an optional column rows check for boxes
    if (is_box(type)) { Decoder d; std::vector<std::pair<bool, std::vector<double>>> got; REQUIRE(decode_box(d, &a, 2 * ndim(type_dims(type)), got), "array-structure", "box: %s", d.why.c_str()); REQUIRE(got.size() == rows.size(), "array-length", "box rows"); for (size_t i = 0; i < rows.size(); i++) { REQUIRE(got[i].first == rows[i].first, "null", "row %zu", i); for (size_t j = 0; j < rows[i].second.size(); j++) REQUIRE(same_bits(got[i].second[j], rows[i].second[j]), "values", "row %zu", i); } }
  }
  bool early = r.one_in(2);
  if (early) GeoArrowBuilderReset(&b);
  for (size_t k = 0; k < kept.size(); k++) {
    ArrowArray* a = &kept[k]; std::string what = fmt("type %d mechanism %d batch %zu", type, mech, k);
    REQUIRE(a->length == lens[k], "array-length", "%s: length %lld of %lld", what.c_str(), (long long)a->length, (long long)lens[k]);
    same_buffers(a, model[k], what);
    Decoder d;
    if (is_native(type)) {
      Features got; REQUIRE(d.native(a, type, got), "array-structure", "%s: %s", what.c_str(), d.why.c_str());
      Features want = feats[k]; norm_empty_points(want); std::string why;
      REQUIRE(equal(got, want, &why), "features", "%s: %s", what.c_str(), why.c_str());
      // the library itself reads it the same way
      Monitor m; GeoArrowArrayReader ar; REQUIRE(GeoArrowArrayReaderInitFromType(&ar, (GeoArrowType)type) == 0, "init", "reader");
      rc = GeoArrowArrayReaderSetArray(&ar, a, &m.err); if (!rc) rc = GeoArrowArrayReaderVisit(&ar, 0, a->length, &m.v);
      GeoArrowArrayReaderReset(&ar); check_noted();
      Features back = m.feats; norm_empty_points(back);
      REQUIRE(rc == 0 && equal(back, want, &why), "read-back", "%s: rc %d %s", what.c_str(), rc, why.c_str());
    } else if (!is_box(type)) {
      OptStrings got; REQUIRE(d.serialized(a, type, got), "array-structure", "%s: %s", what.c_str(), d.why.c_str());
      REQUIRE(got == strs[k], "values", "%s", what.c_str());
    }
    count("arrays");
  }
  if (!early) GeoArrowBuilderReset(&b);
  for (size_t k = kept.size(); k > 0; k--) { ledger_check(led, false, "before release"); kept[k - 1].release(&kept[k - 1]); }
  ledger_check(led, true, finished_all ? "arrays released" : "abandoned");
  if (!finished_all) count("abandoned");
  for (Token* t : toks) delete t;
}

// indices out of range, and appending to a buffer that is owned elsewhere
static void refused(Rng& r) {
  std::vector<int> types = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKT, 990, 1990, 2990, 3990}) types.push_back(t);
  int type = r.pick(types); GeoArrowBuilder b; Ledger led; std::vector<Token*> toks;
  REQUIRE(GeoArrowBuilderInitFromType(&b, (GeoArrowType)type) == 0, "init", "type %d", type);
  int64_t nb = b.view.n_buffers;
  for (int k = 0; k < 4; k++) {
    int64_t i = r.pick({nb, nb + 1, (int64_t)-1, (int64_t)8, (int64_t)9, (int64_t)10, (int64_t)-2, (int64_t)1000, (int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)1 << 32, ((int64_t)1 << 32) + 1});
    if (i >= 0 && i < nb) continue;
    crumb("type %d index %lld", type, (long long)i);
    uint8_t one = 7; GeoArrowBufferView bv; bv.data = &one; bv.size_bytes = r.one_in(3) ? 0 : 1;
    int calls = 0; auto cb = [](uint8_t*, int64_t, void* p) { ++*(int*)p; };
    int rc; const char* what;
    switch (r.below(3)) {
      case 0: what = "SetOwnedBuffer"; rc = GeoArrowBuilderSetOwnedBuffer(&b, i, bv, cb, &calls); break;
      case 1: what = "ReserveBuffer"; rc = GeoArrowBuilderReserveBuffer(&b, i, (int64_t)r.below(100)); break;
      default: what = "AppendBuffer"; rc = GeoArrowBuilderAppendBuffer(&b, i, bv);
    }
    REQUIRE(rc > 0, "index-accepted", "%s of buffer %lld of %lld: rc %d", what, (long long)i, (long long)nb, rc);
    REQUIRE(calls == 0, "owned-freed", "a refused buffer was freed");
    count("refused");
  }
  if (r.one_in(2)) {  // an owned buffer cannot grow, but is still handed back once
    int64_t i = (int64_t)r.below((uint64_t)nb); Buf d{std::string(r.range(1, 40), 'x'), true};
    supply(r, &b, i, d, 2, led, toks);
    uint8_t one = 7; GeoArrowBufferView bv; bv.data = &one; bv.size_bytes = 1;
    int rc = GeoArrowBuilderAppendBuffer(&b, i, bv);
    ledger_check(led, false, "append to an owned buffer");
    REQUIRE(rc != 0, "owned-append", "appending to a full owned buffer succeeded");
    count("owned_append");
  }
  GeoArrowBuilderReset(&b);
  ledger_check(led, true, "reset");
  for (Token* t : toks) delete t;
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static std::vector<int> types;
  if (types.empty()) { types = all_native(); for (int t : {(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_LARGE_WKB, (int)GEOARROW_TYPE_WKT, (int)GEOARROW_TYPE_LARGE_WKT, 990, 1990, 2990, 3990}) types.push_back(t); }
  if (c.idx % 8 == 7) refused(r); else build(r, types[c.idx % types.size()]);
  REQUIRE(alloc::live_blocks() == 0 && !alloc::bad_frees(), "leak", "%s", alloc::describe_live().c_str());
}
