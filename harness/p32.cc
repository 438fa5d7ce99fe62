// P32: results are a function of the inputs. Every operation runs in a plain process
// state, then again with other leftovers in fresh memory and on the stack, another errno,
// locale and rounding mode, after unrelated calls, and with calls on other objects inside
// its callbacks. The same code also runs under memcheck, which says when a decision is
// taken on memory nobody wrote to.
#include "scen.h"
#include "hostile.h"
#include "meta.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <unistd.h>
#ifdef HZ_MEMCHECK
#include <valgrind/memcheck.h>
#endif
const char* hz_name = "p32";

// ---- operations besides the scenarios
static void op_bad_wkb(Ctx& c) {
  GeoArrowWKBReader rd; dirty(rd); if (GeoArrowWKBReaderInit(&rd)) { c.err = true; return; }
  int n = 1 + (int)c.r.below(4);
  for (int i = 0; i < n; i++) {
    std::string s = hostile(c.r); if (s.size() > 100000) s.resize(100000); Exact in(s); GeoArrowBufferView bv{}; bv.data = in.p; bv.size_bytes = (int64_t)in.n; GeoArrowError e;
    if (c.r.one_in(2)) { Monitor m; m.check = false; int rc = GeoArrowWKBReaderVisit(&rd, bv, &m.v); c.mix((uint64_t)rc); c.mix(m.trace); c.mix(hash_of(m.feats)); }
    else { GeoArrowGeometryView w; dirty(w); int rc = GeoArrowWKBReaderRead(&rd, bv, &w, &e); c.mix((uint64_t)rc); if (!rc) { Monitor m; m.check = false; c.mix((uint64_t)GeoArrowGeometryViewVisit(w, &m.v)); c.mix(m.trace); c.mix(hash_of(m.feats)); c.mix((uint64_t)w.size_nodes); } else count("refused"); }
  }
  GeoArrowWKBReaderReset(&rd);
}
static void op_bad_wkt(Ctx& c) {
  GeoArrowWKTReader rd; dirty(rd); if (GeoArrowWKTReaderInit(&rd)) { c.err = true; return; }
  static const char* PUT[] = {",", ".", "\xd9\xab", "(", ")", "e", "-", "+", "EMPTY", " ", "inf", "nan", "Z", "M", "0x1p3", "1e999", "1e-999", "\xa0", "\xe2\x80\xaf", "'", "1,5", "1.234,5", "12345678901234567890123456789012345678901234567890", "POINT", "\v", "\f"};
  int n = 1 + (int)c.r.below(4);
  for (int i = 0; i < n; i++) {
    GenOpts o; o.budget = 60; o.num = NUM_FINITE; std::string s = wkt_random(c.r, gen_any(c.r, o));
    for (int k = (int)c.r.below(4); k > 0 && !s.empty(); k--) { size_t at = c.r.below(s.size()); switch (c.r.below(4)) { case 0: s[at] = (char)c.r.next(); break; case 1: s.erase(at, 1 + c.r.below(3)); break; case 2: s.insert(at, PUT[c.r.below(sizeof PUT / sizeof *PUT)]); break; default: s.resize(at); } }
    Exact in(s); GeoArrowStringView sv{(const char*)in.p, (int64_t)in.n}; Monitor m; m.check = false;
    int rc = GeoArrowWKTReaderVisit(&rd, sv, &m.v); c.mix((uint64_t)rc); c.mix(m.trace); c.mix(hash_of(m.feats)); if (rc) count("refused");
  }
  GeoArrowWKTReaderReset(&rd);
}
static void op_numbers(Ctx& c) {
  static const char* ODD[] = {"1,5", "1.5", ".5", "5.", ",5", "1.234,5", "1,234.5", "1\xd9\xab" "5", "1e5", "1e", "1e+", "e5", "", ".", ",", "-", "-.5", "-,5", "0.1", "0.3333333333333333333", "9007199254740993", "1e22", "1e23", "8.5", "2.5e-1", "123456.7890123", "1 ", "1.5.5", "1.5,5", "4.9e-324", "2.2250738585072011e-308", "1.7976931348623157e308", "0.5\xc2\xa0"};
  int n = 1 + (int)c.r.below(12);
  for (int i = 0; i < n; i++) {
    std::string t = c.r.one_in(3) ? std::string(ODD[c.r.below(sizeof ODD / sizeof *ODD)]) : spell_number(c.r, gen_double(c.r, NUM_FINITE));
    if (c.r.one_in(12)) t.insert(c.r.below(t.size() + 1), 1, ",.' "[c.r.below(4)]);
    Exact in(t); double d; dirty(d); int rc = GeoArrowFromChars((char*)in.p, (char*)in.p + in.n, &d); c.mix((uint64_t)rc);
    if (!rc) { uint64_t u; memcpy(&u, &d, 8); c.mix(u); } else count("refused");
    char out[400]; double p = gen_double(c.r, NUM_ANY); int64_t k = GeoArrowPrintDouble(p, (uint32_t)c.r.below(17), out); c.mix((uint64_t)k); if (k >= 0 && k <= 400) c.mix(fnv(out, (size_t)k));
    count("numbers");
  }
}
static uint64_t sv_hash(GeoArrowStringView v) { return v.size_bytes > 0 ? fnv(v.data, (size_t)v.size_bytes) : 3; }
static void op_meta(Ctx& c) {
  for (int i = 1 + (int)c.r.below(3); i > 0; i--) {
    Meta m = gen_meta(c.r); Exact b(m.crs); GeoArrowMetadataView v = view_of(m, b); std::string js = produce(v); c.mix(fnv(js));
    if (c.r.one_in(2)) for (int k = (int)c.r.range(1, 3); k > 0 && !js.empty(); k--) { size_t at = c.r.below(js.size()); switch (c.r.below(3)) { case 0: js[at] = "{}[]\":,\\ n"[c.r.below(10)]; break; case 1: js.erase(at, 1); break; default: js.resize(at); } }
    Exact jb(js); GeoArrowMetadataView q; dirty(q); GeoArrowError e; int rc = GeoArrowMetadataViewInit(&q, GeoArrowStringView{(char*)jb.p, (int64_t)jb.n}, &e); c.mix((uint64_t)rc);
    if (!rc) { c.mix((uint64_t)q.edge_type); c.mix((uint64_t)q.crs_type); c.mix(sv_hash(q.crs)); c.mix(fnv(unescape(q.crs))); c.mix(fnv(produce(q))); } else count("refused");
  }
}
static void op_bad_schema(Ctx& c) {
  int type = c.r.pick(all_types()); std::string meta = "{\"edges\":\"karney\"}"; SNode n = ext_schema(c.r, type, c.r.one_in(2) ? &meta : nullptr);
  if (!c.r.one_in(4)) { SNode* p = &n; while (!p->kids.empty() && c.r.one_in(2)) p = &p->kids[c.r.below(p->kids.size())]; if (c.r.one_in(3)) p->name = c.r.pick({std::string("x"), std::string("zz"), std::string("xyz"), std::string("")}); else if (p->kids.empty() || c.r.one_in(2)) p->format = c.r.pick({std::string("u"), std::string("z"), std::string("g"), std::string("f"), std::string("n"), std::string("i"), std::string("vz")}), p->kids.clear(); else p->kids.pop_back(); }
  ArrowSchema s; snode_build(n, &s, nullptr); GeoArrowSchemaView v; dirty(v); GeoArrowError e; int rc = GeoArrowSchemaViewInit(&v, &s, &e); c.mix((uint64_t)rc);
  if (!rc) { c.mix((uint64_t)v.type); c.mix((uint64_t)v.geometry_type); c.mix((uint64_t)v.dimensions); c.mix((uint64_t)v.coord_type); c.mix(sv_hash(v.extension_name)); c.mix(sv_hash(v.extension_metadata)); } else count("refused");
  GeoArrowArrayReader rd; dirty(rd); rc = GeoArrowArrayReaderInitFromSchema(&rd, &s, &e); c.mix((uint64_t)rc); if (!rc) GeoArrowArrayReaderReset(&rd);
  GeoArrowBuilder bl; dirty(bl); rc = GeoArrowBuilderInitFromSchema(&bl, &s, &e); c.mix((uint64_t)rc); if (!rc) GeoArrowBuilderReset(&bl);
  GeoArrowArrayWriter w; dirty(w); rc = GeoArrowArrayWriterInitFromSchema(&w, &s); c.mix((uint64_t)rc); if (!rc) GeoArrowArrayWriterReset(&w);
  s.release(&s);
}
// wrong kinds, sizes and options into writers and kernels: the refusal is the same each time
static void op_bad_events(Ctx& c) {
  int type = c.r.one_in(3) ? (int)c.r.pick({(int)GEOARROW_TYPE_WKB, (int)GEOARROW_TYPE_WKT}) : c.r.pick(all_native()); GeoArrowArrayWriter w; dirty(w); if (GeoArrowArrayWriterInitFromType(&w, (GeoArrowType)type)) { c.err = true; return; }
  GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; v.error = &e; if (!GeoArrowArrayWriterInitVisitor(&w, &v)) {
    v.error = &e; Layout L; L.r = &c.r; bool bad = false;
    for (int i = (int)c.r.below(5); i > 0 && !bad; i--) { GenOpts o; o.budget = 40; o.num = NUM_ANY; Feature f; f.null = c.r.one_in(6); f.g = c.r.one_in(2) && is_native(type) ? gen_geom(c.r, type_geom(type), type_dims(type), o) : gen_any(c.r, o); int rc = play(&v, f, L); c.mix((uint64_t)rc); bad = rc != 0; }
    ArrowArray a; a.release = nullptr; if (!bad) { int rc = GeoArrowArrayWriterFinish(&w, &a, &e); c.mix((uint64_t)rc); if (!rc) take(c, &a, type); } else count("refused");
  }
  GeoArrowArrayWriterReset(&w);
}
static void op_bad_kernel(Ctx& c) {
  static const char* NAMES[] = {"void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg", "nope", ""};
  GeoArrowKernel kn; dirty(kn); int rc = GeoArrowKernelInit(&kn, NAMES[c.r.below(10)], nullptr); c.mix((uint64_t)rc); if (rc) return;
  KV kv; for (size_t i = c.r.below(3); i > 0; i--) kv.push_back({c.r.pick({std::string("type"), std::string("precision"), std::string("max_element_size_bytes"), std::string("strict")}), c.r.pick({std::string("1"), std::string("100001"), std::string("16"), std::string(" 3"), std::string("1,5"), std::string("x"), std::string(""), std::string("-1"), std::string("20002")})}); std::string opt = enc_kv(kv);
  int type = c.r.pick(all_types()); SNode sn = ext_schema(c.r, type, nullptr); if (c.r.one_in(5)) sn.format = "i", sn.kids.clear(); ArrowSchema s, out; snode_build(sn, &s, nullptr); out.release = nullptr; GeoArrowError e;
  rc = kn.start(&kn, &s, opt.data(), &out, &e); c.mix((uint64_t)rc); if (rc) count("refused"); take_schema(c, &out); kn.release(&kn); s.release(&s);
}
static void op_cpp(Ctx& c) {
  namespace wu = geoarrow::wkb_util; namespace au = geoarrow::array_util;
  std::string s = c.r.one_in(3) ? hostile(c.r) : wkb_iso(gen_any(c.r, opts(c.r, NUM_ANY))); if (s.size() > 5000) s.resize(5000); Exact in(s);
  alignas(wu::WKBParser) unsigned char mem[sizeof(wu::WKBParser)]; dirty(mem); auto* p = new (mem) wu::WKBParser(); wu::WKBGeometry g; const uint8_t* cur = nullptr;
  auto st = p->Parse(in.p, (uint32_t)in.n, &g, &cur); c.mix((uint64_t)st);
  if (st == wu::WKBParser::OK) { g.VisitVertices<au::XYZM<double>>([&](au::XYZM<double> q) { for (double d : q) { uint64_t u; memcpy(&u, &d, 8); if (d != d) u = 1; c.mix(u); } }); c.mix((uint64_t)g.geometry_type); c.mix((uint64_t)g.dimensions); } else count("refused");
  p->~WKBParser();
}
typedef void (*Op)(Ctx&);
static const Op OPS[] = {sc_wkb, sc_wkt, sc_nodes, sc_wkb_writer, sc_wkt_writer, sc_native, sc_array, sc_builder, sc_schema, sc_kernel, sc_udf, op_bad_wkb, op_bad_wkt, op_numbers, op_meta, op_bad_schema, op_bad_events, op_bad_kernel, op_cpp, sc_wkt_writer, sc_kernel, sc_array, op_numbers};
static const char* NAMES[] = {"wkb", "wkt", "nodes", "wkb_writer", "wkt_writer", "native_writer", "array", "builder", "schema", "kernel", "udf", "bad_wkb", "bad_wkt", "numbers", "metadata", "bad_schema", "bad_events", "bad_kernel", "cpp", "wkt_writer", "kernel", "array", "numbers"};
static const size_t N_OPS = sizeof OPS / sizeof *OPS;

#ifdef HZ_MEMCHECK
void hz_case(Case& cs) {
  Rng& r = cs.r; size_t op = cs.idx % N_OPS; Rng seed(r.next());
  crumb("%s under memcheck", NAMES[op]); Ctx c(seed);
  if (r.one_in(2)) { Ctx b(Rng(r.next())); OPS[r.below(N_OPS)](b); }
  OPS[op](c); check_noted();
  // a decision on the digest, made of everything that came out
  if (VALGRIND_CHECK_MEM_IS_DEFINED(&c.h, sizeof c.h)) fail("uninitialised-result", "%s hands out memory nobody wrote to", NAMES[op]);
  count("memcheck_runs"); count(NAMES[op]); distinct(mix64(op) ^ c.h);
  if (want_sample()) sample(fmt("%s under memcheck: digest %llx", NAMES[op], (unsigned long long)c.h));
}
void hz_init() { if (!RUNNING_ON_VALGRIND && getenv("HZ_MEMCHECK_ON")) { fprintf(stderr, "not under valgrind\n"); _exit(4); } }
#else
// ---- the states
static std::vector<std::pair<std::string, locale_t>> g_locales;
static const int ROUND[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
void hz_init() {
  const char* dir = getenv("LOCPATH"); if (!dir) return;
  for (const char* n : {"de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "tr_TR.UTF-8", "ar_SA.UTF-8"}) { locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0); if (l) g_locales.push_back({n, l}); }
}
static uint64_t g_written;
static ssize_t on_write(void*, const char*, size_t n) { g_written += n; return (ssize_t)n; }
static int n_fds() { int n = 0; for (int i = 0; i < 48; i++) n += fcntl(i, F_GETFD) != -1; return n; }
__attribute__((noinline, no_sanitize("address", "undefined"))) static void scribble(int byte) {
  volatile unsigned char b[48 << 10]; for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)byte; asm volatile("" ::"r"(b) : "memory");
}
// calls on other objects inside callbacks, and what the library does to the state meanwhile
static bool g_nested, g_moved; static int g_inside, g_budget; static uint64_t g_nested_n; static Rng* g_nested_r; static locale_t g_loc; static int g_round;
static void inside() {
  if (ambient::on && (uselocale((locale_t)0) != g_loc || fegetround() != g_round)) g_moved = true;
  if (!g_nested || g_inside || g_budget <= 0 || !g_nested_r->one_in(5)) return;
  g_inside = 1; g_budget--; g_nested_n++; int e = errno; Ctx c(Rng(g_nested_r->next())); OPS[g_nested_r->below(N_OPS)](c); errno = e; g_inside = 0;
}
static FILE* sink() { static FILE* f = fopencookie(nullptr, "w", cookie_io_functions_t{nullptr, on_write, nullptr, nullptr}); return f; }

struct Outcome { uint64_t h; bool err; int last; };
void hz_case(Case& cs) {
  Rng& r = cs.r; size_t op = cs.idx % N_OPS; Rng seed(r.next());
  crumb("%s as it is", NAMES[op]); g_dirty = 0; g_nested = false; on_event = nullptr;
  alloc::fill(0, 0); scribble(0); Ctx base(seed); OPS[op](base); check_noted(); Outcome want{base.h, base.err, base.last};
  count(NAMES[op]); count("runs"); distinct(mix64(op) ^ base.h);
  int reps = cs.thorough ? 6 : 3;
  for (int k = 0; k < reps; k++) {
    int fillb = (int)r.pick({0xff, 0x5a, 0x01, 0x80, 0x7f, (int)r.below(256)}), stackb = (int)r.pick({0xff, 0x01, 0xa5, (int)r.below(256)}), err = (int)r.pick({0, ERANGE, EINVAL, ENOMEM, EINTR, 9999});
    size_t loc = g_locales.empty() ? 0 : r.below(g_locales.size() + 1), rnd = r.below(4);
#ifdef HZ_CONFIG_B
    rnd = 0;  // the C library's conversions follow the rounding mode, and may
#endif
    int before = (int)r.below(3);
    std::string how = fmt("fresh memory %02x, stack %02x, errno %d, locale %s, rounding %d, %d calls before", fillb, stackb, err, loc ? g_locales[loc - 1].first.c_str() : "C", (int)rnd, before);
    crumb("%s with %s", NAMES[op], how.c_str());
    Rng nr(r.next()); g_nested_r = &nr; g_nested = r.one_in(2); g_budget = 2; g_moved = false;
    FILE *o = stdout, *e = stderr; int fds = n_fds(); g_written = 0; std::string gl = setlocale(LC_ALL, nullptr);
    g_dirty = (int)r.pick({0xff, 0x01, 0xcb, (int)r.below(256)}); alloc::fill(fillb, err);
    locale_t old = uselocale((locale_t)0); if (loc) uselocale(g_locales[loc - 1].second); fesetround(ROUND[rnd]); g_loc = uselocale((locale_t)0); g_round = fegetround();
    stdout = sink(); stderr = sink(); ambient::on = true; on_event = inside; sink();
    Outcome got{0, false, 0}; bool threw = false;
    try {
      for (int i = 0; i < before; i++) { Ctx b(Rng(r.next())); OPS[r.below(N_OPS)](b); }
      scribble(stackb); errno = err; Ctx c(seed); OPS[op](c); got = Outcome{c.h, c.err, c.last};
    } catch (CaseFail&) { threw = true; }
    locale_t left_loc = uselocale((locale_t)0); int left_round = fegetround();
    on_event = nullptr; ambient::on = false; fflush(sink()); stdout = o; stderr = e; uselocale(old); fesetround(FE_TONEAREST); alloc::fill(-1, 0); g_nested = false; g_inside = 0;
    if (threw) throw CaseFail();
    check_noted();
    REQUIRE(got.h == want.h && got.err == want.err && (!want.err || got.last == want.last), "state-dependent", "%s gives another result (error %d rc %d, first error %d rc %d) with %s", NAMES[op], got.err, got.last, want.err, want.last, how.c_str());
    REQUIRE(left_loc == g_loc && left_round == g_round && !g_moved && gl == setlocale(LC_ALL, nullptr), "state-changed", "%s changes the %s of the caller (%s)", NAMES[op], left_round != g_round ? "rounding mode" : "locale", how.c_str());
    REQUIRE(!g_written, "output", "%s prints %llu bytes", NAMES[op], (unsigned long long)g_written);
    // the sanitizer's own thread has files open for moments
    int now = n_fds(); for (int i = 0; i < 40 && now > fds; i++) { usleep(3000); now = std::min(now, n_fds()); }
    REQUIRE(now <= fds, "files", "%s leaves %d files open where %d were", NAMES[op], now, fds);
    count("compared"); if (loc) count("in_other_locale"); if (rnd) count("in_other_rounding"); if (g_nested_n) { count("nested_calls", g_nested_n); g_nested_n = 0; }
    distinct(mix64(op * 1000003 + (uint64_t)k) ^ base.h ^ mix64((uint64_t)fillb << 20 | (uint64_t)loc << 8 | rnd));
  }
  if (want_sample()) sample(fmt("%s: digest %llx in %d states", NAMES[op], (unsigned long long)want.h, reps + 1));
}
#endif
