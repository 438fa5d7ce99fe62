// P22: independent objects on several threads, one shared factory, shared
// read-only inputs. ThreadSanitizer watches; every thread's results are
// compared with the same work done alone. The threads share nothing but relaxed
// counters, so that nothing of the harness orders their accesses.
#define HZ_NEAR  // no arrays in memory that mostly is not there
#include "scen.h"
#include <atomic>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
const char* hz_name = "p22";

static const int N_SC = (int)(sizeof(SC) / sizeof *SC);
enum { S_UDF = 100, S_ARRAY, S_VIEW, S_GEOM, S_SCHEMA, S_NUMBERS };

struct Shared {  // read by every thread, written by none
  GeoArrowScalarUdfFactory factory; int type; ArrowArray array; ReleaseLog log; Features feats; GeoArrowArrayView view; bool has_view = false;
  OwnedView nodes; ArrowSchema schema; std::string meta;
};
struct Step { int what; uint64_t seed; };
struct Out { uint64_t h = 17; std::string bad; std::vector<uint32_t> tickets; };
#define WANT(c, ...) do { if (!(c)) { if (o.bad.empty()) o.bad = fmt(__VA_ARGS__); return; } } while (0)

static std::atomic<uint32_t> g_ticket;
static void pause_a_bit(Rng& r) {
  switch (r.below(6)) { case 0: sched_yield(); break; case 1: usleep((useconds_t)r.below(60)); break; case 2: for (volatile int k = 0; k < 300;) k = k + 1; break; default: break; }
}

static void step(const Step& s, Shared& sh, Out& o) {
  Rng r(s.seed);
  auto mix = [&](uint64_t x) { o.h = mix64(o.h ^ x); };
  if (s.what < N_SC) { Ctx c(r); SC[s.what](c); WANT(!c.err, "%s: rc %d", SN[s.what], c.last); mix(c.h); return; }
  switch (s.what) {
    case S_UDF: {
      GeoArrowScalarUdf u; memset(&u, 0x5a, sizeof u);
      sh.factory.new_scalar_udf_impl(&sh.factory, &u);
      WANT(u.init && u.execute && u.release && u.get_last_error, "udf callbacks");
      int nargs = (int)r.below(3); const ArrowSchema* at[3] = {&sh.schema, &sh.schema, &sh.schema};
      int nb = (int)r.range(1, 3);
      for (int i = 0; i < nb; i++) {
        ArrowSchema out; out.release = nullptr; int rc = u.init(&u, at, nullptr, nargs, &out);
        WANT(rc == 0, "udf init rc %d", rc);
        if (out.release) { mix(fnv(std::string(out.format))); WANT(std::string(out.format) == "n", "void returns nulls, not '%s'", out.format); out.release(&out); }
        pause_a_bit(r);
        int64_t n = r.one_in(4) ? 0 : (int64_t)r.below(100000); ArrowArray* args[3] = {&sh.array, &sh.array, &sh.array}; ArrowArray a; a.release = nullptr;
        rc = u.execute(&u, args, nargs, n, &a);
        WANT(rc == 0 && a.release, "udf execute rc %d", rc);
        WANT(a.length == n, "udf returned %lld rows for a batch of %lld", (long long)a.length, (long long)n);
        Decoder d; WANT(decode_na(d, &a), "udf result: %s", d.why.c_str());
        a.release(&a); mix((uint64_t)n);
      }
      WANT(sh.array.release, "udf released its argument");
      u.release(&u);
      WANT(u.release == nullptr, "udf not marked released");
      break;
    }
    case S_ARRAY: {
      GeoArrowArrayReader rd; WANT(GeoArrowArrayReaderInitFromType(&rd, (GeoArrowType)sh.type) == 0, "reader");
      Monitor m; m.check = false; int rc = GeoArrowArrayReaderSetArray(&rd, &sh.array, &m.err); if (!rc) rc = GeoArrowArrayReaderVisit(&rd, 0, sh.array.length, &m.v);
      GeoArrowArrayReaderReset(&rd);
      WANT(rc == 0 && m.feats.size() == sh.feats.size(), "shared array: rc %d", rc);
      mix(hash_of(m.feats));
      break;
    }
    case S_VIEW: {
      if (!sh.has_view) { mix(1); break; }
      Monitor m; m.check = false; int64_t n = sh.array.length, at = (int64_t)r.below((uint64_t)n + 1), len = (int64_t)r.below((uint64_t)(n - at) + 1);
      WANT(GeoArrowArrayViewVisitNative(&sh.view, at, len, &m.v) == 0, "shared array view");
      mix(hash_of(m.feats));
      break;
    }
    case S_GEOM: {
      Monitor m; m.check = false; WANT(GeoArrowGeometryViewVisit(sh.nodes.view(), &m.v) == 0, "shared geometry"); mix(hash_of(m.feats));
      GeoArrowGeometry g; WANT(GeoArrowGeometryInit(&g) == 0, "geometry");
      int rc = r.one_in(2) ? GeoArrowGeometryDeepCopy(sh.nodes.view(), &g) : GeoArrowGeometryShallowCopy(sh.nodes.view(), &g);
      Monitor m2; m2.check = false; if (!rc) rc = GeoArrowGeometryViewVisit(GeoArrowGeometryAsView(&g), &m2.v);
      GeoArrowGeometryReset(&g); WANT(rc == 0, "copy of the shared geometry rc %d", rc); mix(hash_of(m2.feats));
      GeoArrowWKBWriter w; WANT(GeoArrowWKBWriterInit(&w) == 0, "wkb"); rc = GeoArrowWKBWriterAppend(&w, sh.nodes.view()); ArrowArray a; a.release = nullptr; GeoArrowError e;
      if (!rc) rc = GeoArrowWKBWriterFinish(&w, &a, &e); GeoArrowWKBWriterReset(&w); WANT(rc == 0, "append rc %d", rc);
      Decoder d; OptStrings vs; WANT(d.serialized(&a, GEOARROW_TYPE_WKB, vs) && vs.size() == 1, "%s", d.why.c_str()); mix(fnv(vs[0].second)); a.release(&a);
      break;
    }
    case S_SCHEMA: {
      GeoArrowSchemaView v; GeoArrowError e; WANT(GeoArrowSchemaViewInit(&v, &sh.schema, &e) == 0, "shared schema"); mix((uint64_t)v.type); mix(fnv(v.extension_metadata.data, (size_t)v.extension_metadata.size_bytes));
      GeoArrowMetadataView md; WANT(GeoArrowMetadataViewInit(&md, v.extension_metadata, &e) == 0, "metadata: %s", e.message); mix(md.edge_type); mix(md.crs_type); mix(fnv(md.crs.data, (size_t)md.crs.size_bytes));
      char buf[500]; int64_t n = GeoArrowUnescapeCrs(md.crs, buf, sizeof buf); mix((uint64_t)n); if (n > 0 && n <= (int64_t)sizeof buf) mix(fnv(buf, (size_t)n));
      n = GeoArrowMetadataSerialize(&md, buf, sizeof buf); mix((uint64_t)n); if (n > 0 && n <= (int64_t)sizeof buf) mix(fnv(buf, (size_t)n));
      GeoArrowMetadataView bad; GeoArrowStringView bs{"{\"crs\": [", 9}; GeoArrowError be; be.message[0] = 0; int rc = GeoArrowMetadataViewInit(&bad, bs, &be); mix((uint64_t)rc); mix(fnv(std::string(be.message)));
      ArrowSchema s2; WANT(GeoArrowSchemaInitExtension(&s2, v.type) == 0, "schema"); rc = GeoArrowSchemaSetMetadataFrom(&s2, &sh.schema); SNode sn; bool ok = rc == 0 && snode_read(&s2, sn); s2.release(&s2); WANT(ok, "metadata from the shared schema rc %d", rc); mix(fnv(snode_show(sn)));
      for (int t : all_types()) { const char* x = GeoArrowExtensionNameFromType((GeoArrowType)t); if (x) mix(fnv(std::string(x))); }
      break;
    }
    case S_NUMBERS: {
      GeoArrowWKTWriter w; WANT(GeoArrowWKTWriterInit(&w) == 0, "wkt"); w.precision = (int)r.below(17); GeoArrowVisitor v; GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInitVisitor(&w, &v); GeoArrowError e; v.error = &e;
      GeoArrowWKTReader rd; WANT(GeoArrowWKTReaderInit(&rd) == 0, "wkt reader");
      GenOpts go; go.num = NUM_FINITE; go.budget = 200; go.big = true; Geom g = gen_any(r, go); std::string t = wkt_of(r, g); GeoArrowStringView sv{t.data(), (int64_t)t.size()};
      int rc = GeoArrowWKTReaderVisit(&rd, sv, &v); ArrowArray a; a.release = nullptr; if (!rc) rc = GeoArrowWKTWriterFinish(&w, &a, &e);
      GeoArrowWKTWriterReset(&w); GeoArrowWKTReaderReset(&rd); WANT(rc == 0, "text rc %d", rc);
      Decoder d; OptStrings vs; WANT(d.serialized(&a, GEOARROW_TYPE_WKT, vs) && vs.size() == 1, "%s", d.why.c_str()); mix(fnv(vs[0].second)); a.release(&a);
      break;
    }
  }
}
static void run_all(const std::vector<Step>& ss, Shared& sh, Out& o, uint64_t delays, bool delay) {
  Rng d(delays);
  for (auto& s : ss) {
    if (delay) { pause_a_bit(d); o.tickets.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed)); }
    step(s, sh, o);
    if (delay) o.tickets.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed));
    if (!o.bad.empty()) return;
  }
}

static std::string concurrent(Rng& r, bool cold, uint64_t* order, uint64_t* digest_out) {
  Shared sh; GeoArrowError err; err.message[0] = 0;
  if (GeoArrowScalarUdfFactoryInit(&sh.factory, "void", nullptr, &err)) return "factory";
  std::vector<int> types = all_native(); for (int t : all_serialized()) types.push_back(t);
  sh.type = r.pick(types); sh.feats = gen_for(r, sh.type, r.range(1, 12), 0.2); build_source(r, sh.type, sh.feats, &sh.array, &sh.log);
  if (is_native(sh.type)) { sh.has_view = true; if (GeoArrowArrayViewInitFromType(&sh.view, (GeoArrowType)sh.type) || GeoArrowArrayViewSetArray(&sh.view, &sh.array, &err)) return fmt("array view: %s", err.message); }
  GenOpts go; go.budget = 120; NodeStyle st; st.r = &r; Geom g = gen_any(r, go); sh.nodes = make_view(g, st);
  sh.meta = r.pick({std::string("{}"), std::string("{\"crs\": \"EPSG:\\\"1\\\" \\\\ x\", \"crs_type\": \"authority_code\"}"), std::string("{\"edges\":\"spherical\",\"crs\":{\"a\":[1,2,{\"b\":null}]}}")});
  SNode sn = ext_schema(r, sh.type, &sh.meta); snode_build(sn, &sh.schema, nullptr);
  uint64_t dg = digest(&sh.array);
  int nt = (int)r.pick({2, 2, 3, 4, 8}); std::vector<std::vector<Step>> work(nt); std::vector<Out> outs(nt);
  std::vector<int> menu; for (int k = 0; k < N_SC; k++) menu.push_back(k); for (int k = S_UDF; k <= S_NUMBERS; k++) menu.push_back(k);
  bool same_kind = r.one_in(2); int kind = r.pick(menu);  // often all threads in the same code
  for (auto& w : work) { int n = (int)r.range(1, 4); for (int k = 0; k < n; k++) w.push_back({same_kind && !r.one_in(4) ? kind : r.pick(menu), r.next()}); }
  if (!cold && r.one_in(3)) for (int t = 1; t < nt; t++) work[t] = work[0];  // and sometimes on the same input
  std::atomic<int> waiting{0}; std::vector<std::thread> ts; uint64_t ds = r.next();
  for (int t = 0; t < nt; t++) ts.emplace_back([&, t] {
    waiting.fetch_add(1, std::memory_order_relaxed);
    while (waiting.load(std::memory_order_relaxed) < nt) sched_yield();
    run_all(work[t], sh, outs[t], ds + (uint64_t)t, true);
  });
  for (auto& t : ts) t.join();
  std::string bad;
  uint64_t ord = 3; { std::map<uint32_t, int> by; for (int t = 0; t < nt; t++) for (uint32_t k : outs[t].tickets) by[k] = t; for (auto& x : by) ord = mix64(ord ^ (uint64_t)x.second); for (auto& w : work) for (auto& s : w) ord = mix64(ord ^ (uint64_t)s.what); }
  *order = ord; *digest_out = 0;
  for (int t = 0; t < nt && bad.empty(); t++) {
    if (!outs[t].bad.empty()) { bad = fmt("thread %d: %s", t, outs[t].bad.c_str()); break; }
    Out alone; run_all(work[t], sh, alone, 0, false);
    if (!alone.bad.empty()) bad = "alone: " + alone.bad;
    else if (alone.h != outs[t].h) { std::string ks; for (auto& s : work[t]) ks += s.what < N_SC ? std::string(SN[s.what]) + " " : fmt("%d ", s.what); bad = fmt("thread %d of %d (%s) got another result than the same work alone", t, nt, ks.c_str()); }
    *digest_out = mix64(*digest_out ^ alone.h);
  }
  if (bad.empty() && digest(&sh.array) != dg) bad = "the shared array was modified";
  sh.factory.release(&sh.factory);
  if (bad.empty() && sh.factory.release) bad = "factory not marked released";
  sh.array.release(&sh.array); sh.schema.release(&sh.schema);
  if (bad.empty() && sh.log.released != 1) bad = "shared array released by the library";
  g_ticket = 0;
  return bad;
}

void hz_case(Case& c) {
  Rng& r = c.r; std::string bad; uint64_t order = 0, dg = 0;
  // Code run for the first time in a process is special: lazily filled tables. This
  // process never calls the library itself before these children are done.
  bool cold = c.idx < c.total / 4;
  if (cold) {
    int p[2]; REQUIRE(pipe(p) == 0, "harness", "pipe");
    pid_t pid = fork(); REQUIRE(pid >= 0, "harness", "fork");
    if (pid == 0) {
      close(p[0]); bad = concurrent(r, true, &order, &dg);
      std::string m((const char*)&order, 8); m += bad; (void)!write(p[1], m.data(), m.size()); _exit(bad.empty() && !failed() ? 0 : 3);
    }
    close(p[1]); std::string m; char b[512]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, (size_t)n); close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (m.size() >= 8) { memcpy(&order, m.data(), 8); bad = m.substr(8); }
    REQUIRE(bad.empty(), "result", "first use in a process: %s", bad.c_str());
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "race", "first use in a process: ThreadSanitizer report or crash (status %d), see the log", st);
    count("cold_processes");
  } else {
    bad = concurrent(r, false, &order, &dg); check_noted();
    REQUIRE(bad.empty(), "result", "%s", bad.c_str());
    count("warm_cases");
  }
  count("cases"); distinct(order);
  if (want_sample()) sample(fmt("interleaving %016llx, results %016llx", (unsigned long long)order, (unsigned long long)dg));
}
