// P33: what one copy of the library does. This file is compiled once for every copy, with
// that copy's headers and everything but the entry points hidden.
#pragma GCC visibility push(default)
#include "rt.h"
#include "p33.h"
#pragma GCC visibility pop
#include "scen.h"
#include "meta.h"
#include "hostile.h"

static void op_meta(Ctx& c) {
  for (int i = 1 + (int)c.r.below(3); i > 0; i--) {
    Meta m = gen_meta(c.r); Exact b(m.crs); GeoArrowMetadataView v = view_of(m, b); std::string js = produce(v); c.mix(fnv(js));
    if (c.r.one_in(2)) for (int k = (int)c.r.range(1, 3); k > 0 && !js.empty(); k--) { size_t at = c.r.below(js.size()); switch (c.r.below(3)) { case 0: js[at] = "{}[]\":,\\ n"[c.r.below(10)]; break; case 1: js.erase(at, 1); break; default: js.resize(at); } }
    Exact jb(js); GeoArrowMetadataView q; GeoArrowError e; int rc = GeoArrowMetadataViewInit(&q, GeoArrowStringView{(char*)jb.p, (int64_t)jb.n}, &e); c.mix((uint64_t)rc);
    if (!rc) { c.mix((uint64_t)q.edge_type); c.mix((uint64_t)q.crs_type); c.mix(fnv(unescape(q.crs))); c.mix(fnv(produce(q))); }
  }
}
static void op_numbers(Ctx& c) {
  for (int i = 1 + (int)c.r.below(12); i > 0; i--) {
    std::string t = spell_number(c.r, gen_double(c.r, NUM_FINITE)); Exact in(t); double d = 0; int rc = GeoArrowFromChars((char*)in.p, (char*)in.p + in.n, &d); c.mix((uint64_t)rc); uint64_t u; memcpy(&u, &d, 8); c.mix(u);
    char out[400]; int64_t k = GeoArrowPrintDouble(gen_double(c.r, NUM_ANY), (uint32_t)c.r.below(17), out); if (k >= 0 && k <= 400) c.mix(fnv(out, (size_t)k));
  }
  c.mix(fnv(GeoArrowVersion())); c.mix((uint64_t)GeoArrowVersionInt());
}
static void op_bad(Ctx& c) {
  GeoArrowWKBReader rd; if (GeoArrowWKBReaderInit(&rd)) { c.err = true; return; }
  std::string s = hostile(c.r); if (s.size() > 20000) s.resize(20000); Exact in(s); GeoArrowBufferView bv{}; bv.data = in.p; bv.size_bytes = (int64_t)in.n; Monitor m; m.check = false; int rc = GeoArrowWKBReaderVisit(&rd, bv, &m.v); c.mix((uint64_t)rc); c.mix(m.trace);
  GeoArrowWKBReaderReset(&rd);
  GeoArrowWKTReader rt; if (GeoArrowWKTReaderInit(&rt)) { c.err = true; return; }
  GenOpts o; o.budget = 60; o.num = NUM_FINITE; s = wkt_random(c.r, gen_any(c.r, o)); if (!s.empty()) s[c.r.below(s.size())] = (char)c.r.next();
  Exact it(s); GeoArrowStringView sv{(const char*)it.p, (int64_t)it.n}; Monitor n; n.check = false; rc = GeoArrowWKTReaderVisit(&rt, sv, &n.v); c.mix((uint64_t)rc); c.mix(n.trace);
  GeoArrowWKTReaderReset(&rt);
}
// every name of a type, both ways
static void op_types(Ctx& c) {
  for (int i = 0; i < 20; i++) {
    int t = c.r.pick(all_types()); const char* n = GeoArrowExtensionNameFromType((GeoArrowType)t); c.mix(n ? fnv(n) : 1);
    GeoArrowSchemaView v; c.mix((uint64_t)GeoArrowSchemaViewInitFromType(&v, (GeoArrowType)t)); c.mix((uint64_t)v.type); c.mix((uint64_t)v.geometry_type); c.mix((uint64_t)v.dimensions); c.mix((uint64_t)v.coord_type);
    c.mix((uint64_t)GeoArrowMakeType((GeoArrowGeometryType)c.r.below(9), (GeoArrowDimensions)c.r.below(5), (GeoArrowCoordType)c.r.below(4)));
    const char* s = GeoArrowGeometryTypeString((GeoArrowGeometryType)c.r.below(9)); c.mix(s ? fnv(s) : 2);
  }
}
// how deep and how long things may be, and in what pieces they come, is each copy's own
static void op_limits(Ctx& c) {
  int depth = (int)(c.r.one_in(2) ? c.r.range(28, 35) : c.r.one_in(2) ? c.r.range(252, 258) : c.r.range(1, 300)), points = (int)(c.r.one_in(2) ? c.r.below(4) : c.r.range(60, 800)); bool poly = c.r.one_in(3);
  std::string wkt, wkb, co, js = "{\"crs\":";
  for (int i = 0; i < depth; i++) { wkt += "GEOMETRYCOLLECTION ("; wkb += std::string("\1\7\0\0\0\1\0\0\0", 9); js += c.r.one_in(2) && i ? "[" : "{\"a\":"; }
  for (int i = 0; i < points; i++) co += (i ? ", " : "(") + std::to_string(i) + " 7";
  co = points ? co + ")" : "EMPTY"; wkt += poly ? "POLYGON (" + co + ")" : "LINESTRING " + co;
  if (poly) wkb += std::string("\1\3\0\0\0\1\0\0\0", 9); else wkb += std::string("\1\2\0\0\0", 5);
  uint32_t n = (uint32_t)points; wkb.append((char*)&n, 4); for (int i = 0; i < points; i++) { double xy[2] = {(double)i, 7}; wkb.append((char*)xy, 16); }
  wkt += std::string((size_t)depth, ')');
  { std::string close; size_t i = 7; js += "\"x\""; for (; i < js.size(); i++) if (js[i] == '[') close = "]" + close; else if (js[i] == '{') close = "}" + close; js += close + "}"; }
  Exact t(wkt), b(wkb), j(js); GeoArrowStringView sv{(const char*)t.p, (int64_t)t.n}; GeoArrowBufferView bv{}; bv.data = b.p; bv.size_bytes = (int64_t)b.n;
  GeoArrowMetadataView mv; GeoArrowError e; int rc = GeoArrowMetadataViewInit(&mv, GeoArrowStringView{(char*)j.p, (int64_t)j.n}, &e); c.mix((uint64_t)rc); if (!rc) c.mix((uint64_t)mv.crs.size_bytes);
  GeoArrowWKTReader rt; if (GeoArrowWKTReaderInit(&rt)) { c.err = true; return; }
  GeoArrowWKBReader rb; if (GeoArrowWKBReaderInit(&rb)) { GeoArrowWKTReaderReset(&rt); c.err = true; return; }
  for (int to = 0; to < 5; to++) for (int from = 0; from < 2; from++) {
    GeoArrowGeometry g; GeoArrowWKBWriter wb; GeoArrowWKTWriter wt; GeoArrowNativeWriter nw; GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); Monitor m; m.check = false; GeoArrowVisitor* u = &v; ArrowArray a; a.release = nullptr; rc = 0;
    switch (to) {
      case 0: rc = GeoArrowGeometryInit(&g); if (!rc) GeoArrowGeometryInitVisitor(&g, &v); break;
      case 1: rc = GeoArrowWKBWriterInit(&wb); if (!rc) GeoArrowWKBWriterInitVisitor(&wb, &v); break;
      case 2: rc = GeoArrowWKTWriterInit(&wt); if (!rc) GeoArrowWKTWriterInitVisitor(&wt, &v); break;
      case 3: rc = GeoArrowNativeWriterInit(&nw, GEOARROW_TYPE_MULTIPOLYGON); if (!rc) rc = GeoArrowNativeWriterInitVisitor(&nw, &v); break;
      default: u = &m.v;
    }
    if (rc) { c.err = true; break; }
    v.error = &e; rc = from ? GeoArrowWKBReaderVisit(&rb, bv, u) : GeoArrowWKTReaderVisit(&rt, sv, u); c.mix((uint64_t)(to * 1000 + rc));
    switch (to) {
      case 0: if (!rc) { c.mix((uint64_t)g.size_nodes); for (int64_t i = 0; i < g.size_nodes; i++) { c.mix(g.root[i].size); c.mix(g.root[i].level); } } GeoArrowGeometryReset(&g); break;
      case 1: if (!rc && !GeoArrowWKBWriterFinish(&wb, &a, &e)) take(c, &a, GEOARROW_TYPE_WKB); GeoArrowWKBWriterReset(&wb); break;
      case 2: if (!rc && !GeoArrowWKTWriterFinish(&wt, &a, &e)) take(c, &a, GEOARROW_TYPE_WKT); GeoArrowWKTWriterReset(&wt); break;
      case 3: if (!rc && !GeoArrowNativeWriterFinish(&nw, &a, &e)) take(c, &a, GEOARROW_TYPE_MULTIPOLYGON); GeoArrowNativeWriterReset(&nw); break;
      default: c.mix(m.trace);
    }
    if (a.release) a.release(&a);
  }
  GeoArrowWKTReaderReset(&rt); GeoArrowWKBReaderReset(&rb);
}
static void (*const OPS[])(Ctx&) = {sc_wkb, sc_wkt, sc_nodes, sc_wkb_writer, sc_wkt_writer, sc_native, sc_array, sc_builder, sc_schema, sc_kernel, sc_udf, op_meta, op_numbers, op_bad, op_types, op_limits};

uint64_t hzns_ops() { return sizeof OPS / sizeof *OPS; }
void hzns_run(uint64_t seed, uint64_t op, uint64_t* digest, int* err) {
  Ctx c{Rng(seed)}; OPS[op](c); *digest = c.h; *err = c.err ? (c.last ? c.last : 1) : 0;
}
// an array with its schema, made by this copy
int hzns_make(uint64_t seed, ArrowSchema* schema, ArrowArray* array) {
  Rng r(seed); int type = r.one_in(3) ? (int)r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}) : r.pick(all_native());
  schema->release = nullptr; array->release = nullptr;
  int rc = GeoArrowSchemaInitExtension(schema, (GeoArrowType)type); if (rc) return rc;
  Meta m = gen_meta(r); m.edge = 0; Exact b(m.crs); GeoArrowMetadataView mv = view_of(m, b); if ((rc = GeoArrowSchemaSetMetadata(schema, &mv))) return rc;
  GeoArrowArrayWriter w; if ((rc = GeoArrowArrayWriterInitFromSchema(&w, schema))) return rc;
  GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowError e; v.error = &e;
  rc = GeoArrowArrayWriterInitVisitor(&w, &v);
  Layout L; L.r = &r;
  for (auto& f : gen_for(r, type, r.below(6), 0.3)) if (!rc) rc = play(&v, f, L);
  if (!rc) rc = GeoArrowArrayWriterFinish(&w, array, &e);
  GeoArrowArrayWriterReset(&w);
  return rc;
}
// what this copy sees in an array that may be another's
int hzns_use(uint64_t seed, ArrowSchema* schema, ArrowArray* array, uint64_t* digest) {
  Rng r(seed); Ctx c{Rng(seed)}; GeoArrowError e; GeoArrowSchemaView sv; int rc = GeoArrowSchemaViewInit(&sv, schema, &e); if (rc) return rc;
  c.mix((uint64_t)sv.type); c.mix(fnv(sv.extension_metadata.data, (size_t)sv.extension_metadata.size_bytes));
  GeoArrowMetadataView mv; rc = GeoArrowMetadataViewInit(&mv, sv.extension_metadata, &e); if (rc) return rc;
  c.mix((uint64_t)mv.crs_type); c.mix(fnv(unescape(mv.crs)));
  GeoArrowArrayReader rd; rc = GeoArrowArrayReaderInitFromSchema(&rd, schema, &e); if (rc) return rc;
  rc = GeoArrowArrayReaderSetArray(&rd, array, &e);
  Monitor m; m.check = false; if (!rc) rc = GeoArrowArrayReaderVisit(&rd, 0, array->length, &m.v);
  GeoArrowArrayReaderReset(&rd);
  c.mix(hash_of(m.feats));
  if (!rc) {
    GeoArrowKernel k; const char* name = r.pick({"box", "format_wkt", "box_agg", "unique_geometry_types_agg"}); bool agg = strstr(name, "_agg"); rc = GeoArrowKernelInit(&k, name, nullptr); if (rc) return rc;
    std::string opt = enc_kv(KV{}); ArrowSchema out; out.release = nullptr; ArrowArray o; o.release = nullptr;
    rc = k.start(&k, schema, opt.data(), &out, &e);
    if (!rc) rc = k.push_batch(&k, array, agg ? nullptr : &o, &e);
    if (!rc && agg) rc = k.finish(&k, &o, &e);
    if (!rc) take(c, &o, strstr(name, "box") ? 990 : agg ? -2 : (int)GEOARROW_TYPE_WKT); else if (o.release) o.release(&o);
    if (out.release) { c.mix(fnv(out.format)); out.release(&out); }
    k.release(&k);
  }
  *digest = c.h;
  return rc;
}
