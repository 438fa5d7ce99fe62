// P21: bounding boxes and type summaries equal a direct computation.
#include "kern.h"
#include <set>
using namespace hz;
const char* hz_name = "p21";

struct Box { double v[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY}; };
static void add(Box& b, const Geom& g) {
  int nd = ndim(g.dims);
  for (size_t i = 0; i < g.xs.size(); i += nd) for (int j = 0; j < 2; j++) {
    double x = g.xs[i + j];
    if (std::isnan(x)) continue;
    if (x < b.v[j]) b.v[j] = x;
    if (x > b.v[2 + j]) b.v[2 + j] = x;
  }
  for (auto& k : g.kids) add(b, k);
}
static bool read_coord(const Geom& g, bool nan_points) {  // has a coordinate when read from its encoding
  if (is_seq(g.type)) return !g.xs.empty() || (g.type == T_POINT && nan_points);
  for (auto& k : g.kids) if (read_coord(k, nan_points)) return true;
  return false;
}
static void expect_box(const std::vector<double>& got, const Box& want, const char* how, size_t i) {
  for (int j = 0; j < 4; j++) REQUIRE(got[j] == want.v[j], "box", "%s row %zu value %d: %.17g instead of %.17g", how, i, j, got[j], want.v[j]);
}

void hz_case(Case& c) {
  Rng& r = c.r;
  static std::vector<int> types;
  if (types.empty()) { types = all_native(); for (int t : all_serialized()) for (int i = 0; i < 4; i++) types.push_back(t); types.push_back(990); }
  int type = types[c.idx % types.size()];
  static const char* E[] = {"spherical", "vincenty", "thomas", "andoyer", "karney"};
  std::string meta; bool has_meta = r.one_in(2), planar = !r.one_in(8);
  if (has_meta || !planar) { has_meta = true; meta = planar ? (r.one_in(2) ? "{}" : "{\"crs\":\"EPSG:4326\"}") : fmt("{\"edges\":\"%s\"%s}", E[r.below(5)], r.one_in(2) ? ",\"crs\":\"x\"" : ""); }
  ArrowSchema schema, out; snode_build(ext_schema(r, type, has_meta ? &meta : nullptr), &schema, nullptr);
  size_t nb = r.one_in(8) ? 0 : (size_t)r.range(1, 4);
  std::vector<Features> batches;
  for (size_t b = 0; b < nb; b++) batches.push_back(gen_for(r, type, r.one_in(3) ? gen_nfeat(r) : r.below(6), gen_pnull(r)));
  for (auto& f : batches) { distinct(hash_of(f) ^ type); distinct(shape_of(f)); }
  if (nb) { crumb("type %d %s", type, show(batches[0]).c_str()); if (want_sample()) sample(show(batches[0])); }
  int which = (int)r.below(3);
  static const char* names[] = {"box", "box_agg", "unique_geometry_types_agg"};
  {
    Kernel k(names[which]);
    int rc = k.start(&schema, nullptr, &out);
    if (which < 2 && !planar) {
      REQUIRE(rc != 0, "non-planar", "%s accepted %s", names[which], meta.c_str());
      REQUIRE(out.release == nullptr, "output-set", "%s", names[which]);
      k.release(); schema.release(&schema); count("refused");
      REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
      return;
    }
    REQUIRE(rc == 0, "start", "%s of %d %s: rc %d %s", names[which], type, meta.c_str(), rc, k.err.message);
    out.release(&out);
    Box total; std::set<int> codes;
    for (auto& f : batches) {
      ArrowArray a, o; ReleaseLog log; build_source(r, type, f, &a, &log);
      uint64_t dig = digest(&a);
      rc = k.push(&a, which == 0 ? &o : nullptr);
      REQUIRE(rc == 0, "push", "%s of %d rc %d %s", names[which], type, rc, k.err.message);
      REQUIRE(digest(&a) == dig && a.release, "input-changed", "%s", names[which]);
      a.release(&a);
      for (auto& x : f) if (!x.null) {
        add(total, x.g);
        if (read_coord(x.g, !is_wkt(type))) codes.insert(x.g.type + (x.g.dims - 1) * 1000);
      }
      if (which == 0) {
        Decoder d; std::vector<std::pair<bool, std::vector<double>>> rows;
        bool ok = decode_box(d, &o, 4, rows);
        REQUIRE(ok, "array-structure", "%s", d.why.c_str());
        REQUIRE(rows.size() == f.size(), "length", "%zu of %zu", rows.size(), f.size());
        for (size_t i = 0; i < f.size(); i++) {
          REQUIRE(rows[i].first == !f[i].null, "null", "row %zu of %zu: %s, feature %s", i, f.size(), rows[i].first ? "box" : "null", f[i].null ? "null" : "not null");
          if (f[i].null) { count("null_boxes"); continue; }
          Box b; add(b, f[i].g); expect_box(rows[i].second, b, "box", i);
          count(b.v[0] > b.v[2] ? "empty_boxes" : "boxes");
        }
        o.release(&o);
      }
    }
    int finishes = which ? (int)r.range(1, 2) : 1;
    for (int i = 0; i < finishes; i++) {
      ArrowArray o; rc = k.finish(which ? &o : nullptr);
      REQUIRE(rc == 0, "finish", "%s rc %d %s", names[which], rc, k.err.message);
      if (which == 1) {
        Decoder d; std::vector<std::pair<bool, std::vector<double>>> rows;
        bool ok = decode_box(d, &o, 4, rows); o.release(&o);
        REQUIRE(ok, "array-structure", "%s", d.why.c_str());
        REQUIRE(rows.size() == 1 && rows[0].first, "agg-row", "%zu rows%s", rows.size(), rows.size() && !rows[0].first ? ", null" : "");
        expect_box(rows[0].second, total, "box_agg", 0); count("agg_boxes");
      } else if (which == 2) {
        Decoder d; std::vector<int32_t> got; bool ok = decode_i32(d, &o, got); o.release(&o);
        REQUIRE(ok, "array-structure", "%s", d.why.c_str());
        std::vector<int32_t> want(codes.begin(), codes.end());
        std::string gs, ws; for (int x : got) gs += fmt("%d ", x); for (int x : want) ws += fmt("%d ", x);
        REQUIRE(got == want, "types", "type %d: [ %s] instead of [ %s]", type, gs.c_str(), ws.c_str());
        count("summaries"); distinct(fnv(ws));
      }
    }
    k.release();
  }
  schema.release(&schema);
  REQUIRE(alloc::live_blocks() == 0, "leak", "%s", alloc::describe_live().c_str());
}
