// P33: copies of the library in one process. The executable has a plain copy; three shared
// libraries have copies with a GEOARROW_NAMESPACE of their own (one of them made by the
// bundling of CMakeLists.txt). Every function of every copy reports when it is entered, and
// the monitor knows which copy should be at work; results must agree between copies that
// are configured alike, for their own objects and for each other's arrays.
#include "rt.h"
#include "p33.h"
#include "geoarrow/geoarrow.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <unistd.h>
#include <map>
#include <mutex>
using namespace hz;
const char* hz_name = "p33";
#define NOINST __attribute__((no_instrument_function))

extern "C" void __real_free(void*);
enum { PLAIN, ONE, TWO, THREE, N_COPIES };
static const char* COPY[] = {"plain", "one", "two", "three"};
static const char* PREFIX[] = {"", "HzOne", "HzTwo", "HzThree"};
static const char* WHAT[] = {"plain", "namespaced", "namespaced with standard number conversion", "bundled and namespaced with standard number conversion"};
struct Range { uintptr_t lo, hi; };
struct Api { uint64_t (*ops)(); void (*run)(uint64_t, uint64_t, uint64_t*, int*); int (*make)(uint64_t, ArrowSchema*, ArrowArray*); int (*use)(uint64_t, ArrowSchema*, ArrowArray*, uint64_t*); };
static Range g_range[N_COPIES]; static Api g_api[N_COPIES];
static std::vector<std::string> g_symbols[N_COPIES];  // what a copy defines for others to see

// the C++ library's and the compiler's functions are the same for everybody
NOINST static bool shared_name(const std::string& s) {
  if (s.compare(0, 2, "_Z") == 0) {
    int st = 0; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); std::string n = d ? d : s; __real_free(d);
    size_t at = 0; for (const char* p : {"guard variable for ", "typeinfo name for ", "typeinfo for ", "vtable for "}) if (!n.compare(0, strlen(p), p)) at = strlen(p);
    size_t par = n.find('('); size_t sp = par == std::string::npos ? std::string::npos : n.rfind(' ', n.find_first_of("<(", at)); if (sp != std::string::npos && sp > at) at = sp + 1;
    return !n.compare(at, 5, "std::") || !n.compare(at, 11, "__gnu_cxx::") || !n.compare(at, 8, "operator");
  }
  for (const char* p : {"__", "DW.ref.", "_init", "_fini", "_edata", "_end", "_bss", "asan.", "___asan", "___odr"}) if (!s.compare(0, strlen(p), p)) return true;
  return false;
}
static std::map<void*, bool> g_shared;
NOINST static bool shared_fn(void* fn) {
  auto it = g_shared.find(fn); if (it != g_shared.end()) return it->second;
  Dl_info di{}; bool y = dladdr(fn, &di) && di.dli_sname && di.dli_saddr == fn && shared_name(di.dli_sname); g_shared[fn] = y; return y;
}
static unsigned g_allowed; static uint64_t g_entered[N_COPIES]; static void* g_stray; static int g_stray_copy;
extern "C" NOINST __attribute__((visibility("default"))) void __cyg_profile_func_enter(void* fn, void*) {
  for (int i = 0; i < N_COPIES; i++) if ((uintptr_t)fn - g_range[i].lo < g_range[i].hi - g_range[i].lo) {
    g_entered[i]++;
    if (g_allowed && !(g_allowed >> i & 1) && !g_stray && !shared_fn(fn)) g_stray = fn, g_stray_copy = i;
    return;
  }
}
extern "C" NOINST __attribute__((visibility("default"))) void __cyg_profile_func_exit(void*, void*) {}

static std::string lib_path(const char* n) { return std::string(getenv("HZ_NS") ? getenv("HZ_NS") : ".") + "/" + n; }
static void die(const char* what) { fprintf(stderr, "p33: %s: %s\n", what, dlerror()); _exit(4); }
static Range text_of(void* handle_or_null) {
  struct Q { uintptr_t base; std::string name; Range r; } q{0, "", {0, 0}};
  link_map* lm = nullptr; if (handle_or_null) { dlinfo(handle_or_null, RTLD_DI_LINKMAP, &lm); q.base = lm->l_addr; q.name = lm->l_name; }
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* p) {
    Q& q = *(Q*)p; if (q.name != i->dlpi_name) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_X) { q.r.lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; q.r.hi = q.r.lo + i->dlpi_phdr[k].p_memsz; }
    return 1;
  }, &q);
  return q.r;
}
// the names in the symbol table the dynamic linker uses
static std::vector<std::string> exported(void* handle) {
  link_map* lm = nullptr; dlinfo(handle, RTLD_DI_LINKMAP, &lm); const ElfW(Sym)* sym = nullptr; const char* str = nullptr; const uint32_t* hash = nullptr; std::vector<std::string> out;
  for (ElfW(Dyn)* d = lm->l_ld; d->d_tag; d++) { if (d->d_tag == DT_SYMTAB) sym = (const ElfW(Sym)*)d->d_un.d_ptr; if (d->d_tag == DT_STRTAB) str = (const char*)d->d_un.d_ptr; if (d->d_tag == DT_HASH) hash = (const uint32_t*)d->d_un.d_ptr; }
  for (uint32_t i = 1; sym && str && hash && i < hash[1]; i++) { int b = ELF64_ST_BIND(sym[i].st_info); if (sym[i].st_shndx != SHN_UNDEF && (b == STB_GLOBAL || b == STB_WEAK || b == STB_GNU_UNIQUE)) out.push_back(str + sym[i].st_name); }
  return out;
}
void hz_init() {
  g_range[PLAIN] = text_of(nullptr); g_api[PLAIN] = Api{hzns_ops, hzns_run, hzns_make, hzns_use};
  for (int i = ONE; i < N_COPIES; i++) {
    // as two packages that each bring the library: everything visible to everybody
    void* l = dlopen(lib_path(fmt("lib_%s.so", COPY[i]).c_str()).c_str(), RTLD_NOW | RTLD_GLOBAL); if (!l) die("library");
    void* w = dlopen(lib_path(fmt("work_%s.so", COPY[i]).c_str()).c_str(), RTLD_NOW | RTLD_LOCAL); if (!w) die("work");
    g_range[i] = text_of(l); g_symbols[i] = exported(l);
    g_api[i].ops = (decltype(g_api[i].ops))dlsym(w, "hzns_ops"); g_api[i].run = (decltype(g_api[i].run))dlsym(w, "hzns_run"); g_api[i].make = (decltype(g_api[i].make))dlsym(w, "hzns_make"); g_api[i].use = (decltype(g_api[i].use))dlsym(w, "hzns_use");
    if (!g_api[i].ops || !g_api[i].run || !g_api[i].make || !g_api[i].use || g_symbols[i].empty() || g_range[i].hi <= g_range[i].lo) die("entry points");
  }
}

static bool alike(int a, int b) { return (a <= ONE) == (b <= ONE); }
struct Work { int who; Work(int w, unsigned mask) : who(w) { g_stray = nullptr; g_allowed = mask; } ~Work() { g_allowed = 0; } };
static void watch(int who, const char* doing) {
  g_allowed = 0; if (!g_stray) return;
  Dl_info di{}; dladdr(g_stray, &di);
  fail("foreign-code", "the %s copy %s and runs %s of the %s copy", WHAT[who], doing, di.dli_sname ? di.dli_sname : "a function", WHAT[g_stray_copy]);
}
static bool own_name(const std::string& s, int copy) { return s.find(PREFIX[copy]) != std::string::npos || shared_name(s); }
void hz_case(Case& c) {
  Rng& r = c.r; uint64_t n_ops = hzns_ops();
  if (c.idx < N_COPIES - 1) {
    int k = (int)c.idx + 1; crumb("names of %s", COPY[k]);
    for (auto& s : g_symbols[k]) { REQUIRE(own_name(s, k), "bare-name", "the %s copy defines %s for everybody", WHAT[k], s.c_str()); distinct(fnv(s)); count("names"); }
    return;
  }
  if (c.idx % 3) {
    // the same work in every copy
    uint64_t op = r.below(n_ops), seed = r.next(), h[N_COPIES]; int err[N_COPIES], order = (int)r.below(N_COPIES);
    for (int q = 0; q < N_COPIES; q++) {
      int k = (q + order) % N_COPIES; crumb("operation %d in %s", (int)op, COPY[k]);
      uint64_t was = g_entered[k]; { Work w(k, 1u << k); g_api[k].run(seed, op, &h[k], &err[k]); } watch(k, "works"); check_noted();
      if (g_entered[k] == was) count("idle"); else count("functions_entered", g_entered[k] - was);
    }
    for (int k = 1; k < N_COPIES; k++) { int a = alike(k, PLAIN) ? PLAIN : TWO; if (a == k) continue; REQUIRE(h[a] == h[k] && err[a] == err[k], "copies-differ", "operation %d: the %s copy gets another result than the %s copy (first error %d / %d)", (int)op, WHAT[k], WHAT[a], err[k], err[a]); count("compared"); }
    distinct(mix64(op) ^ h[PLAIN]); count("operations");
    if (want_sample()) sample(fmt("operation %d in four copies: digests %llx %llx / %llx %llx", (int)op, (unsigned long long)h[0], (unsigned long long)h[1], (unsigned long long)h[2], (unsigned long long)h[3]));
  } else {
    // an array of one copy, read by all
    int k = (int)r.below(N_COPIES); uint64_t seed = r.next(); ArrowSchema s; ArrowArray a; crumb("array made by %s", COPY[k]); int rc;
    { Work w(k, 1u << k); rc = g_api[k].make(seed, &s, &a); } watch(k, "makes an array"); check_noted();
    REQUIRE(!rc, "make", "the %s copy cannot make an array: %d", WHAT[k], rc);
    uint64_t h[N_COPIES];
    for (int q = 0; q < N_COPIES; q++) {
      crumb("array made by %s and read by %s", COPY[k], COPY[q]);
      { Work w(q, 1u << q); rc = g_api[q].use(seed, &s, &a, &h[q]); } watch(q, "reads another's array"); check_noted();
      REQUIRE(!rc, "use", "the %s copy cannot read an array of the %s copy: %d", WHAT[q], WHAT[k], rc); count("arrays_read"); if (q != k) count("arrays_of_others");
    }
    { Work w(k, 1u << k); a.release(&a); s.release(&s); } watch(k, "releases its array");
    for (int q = 1; q < N_COPIES; q++) { int b = alike(q, PLAIN) ? PLAIN : TWO; if (b != q) REQUIRE(h[b] == h[q], "copies-differ", "an array of the %s copy is read differently by the %s copy and the %s copy", WHAT[k], WHAT[q], WHAT[b]); }
    distinct(h[0]);
  }
  REQUIRE(!alloc::live_blocks(), "leak", "%s", alloc::describe_live().c_str());
}
