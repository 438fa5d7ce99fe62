#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include <map>
#include <mutex>
#include <unordered_map>
#include <unordered_set>

extern "C" {
#ifndef HZ_NO_WRAP
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
#else
static void* __real_malloc(size_t n) { return malloc(n); }
static void* __real_realloc(void* p, size_t n) { return realloc(p, n); }
static void __real_free(void* p) { free(p); }
#endif
}

__attribute__((weak)) uint64_t hz_cases(bool, uint64_t dflt) { return dflt; }
__attribute__((weak)) void hz_init() {}

namespace hz {

struct Crumb { volatile uint64_t idx; volatile uint64_t active; char text[496]; };
static Crumb local_crumb;
static Crumb* g_crumb = &local_crumb;

static std::recursive_mutex g_mu;
static bool g_failed = false;
static std::string g_fail_key, g_fail_detail;
static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static uint64_t g_case_idx;

namespace ambient {
thread_local bool on = false;
static locale_t plain() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); return l; }
void leave(void* s[2]) { s[0] = (void*)uselocale(plain()); s[1] = (void*)(intptr_t)fegetround(); fesetround(FE_TONEAREST); }
void enter(void* const s[2]) { uselocale((locale_t)s[0]); fesetround((int)(intptr_t)s[1]); }
}
static std::string vfmt(const char* f, va_list ap) {
  Neutral n;
  char buf[4096];
  vsnprintf(buf, sizeof(buf), f, ap);
  return buf;
}
std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
void note_fail(const char* key, const char* f, ...) {
  std::lock_guard<std::recursive_mutex> l(g_mu);
  if (g_failed) return;
  va_list ap; va_start(ap, f);
  g_failed = true; g_fail_key = key; g_fail_detail = vfmt(f, ap);
  va_end(ap);
}
void fail(const char* key, const char* f, ...) {
  {
    std::lock_guard<std::recursive_mutex> l(g_mu);
    if (!g_failed) {
      va_list ap; va_start(ap, f);
      g_failed = true; g_fail_key = key; g_fail_detail = vfmt(f, ap);
      va_end(ap);
    }
  }
  throw CaseFail();
}
bool failed() { return g_failed; }
void count(const char* name, uint64_t n) {
  std::lock_guard<std::recursive_mutex> l(g_mu);
  g_counts[name] += n;
}
void distinct(uint64_t h) {
  std::lock_guard<std::recursive_mutex> l(g_mu);
  if (g_distinct.size() < 400000) g_distinct.insert(h);
}
bool want_sample() { return g_samples.size() < 3; }
void sample(const std::string& s) {
  if (g_samples.size() < 3) g_samples.push_back(s.substr(0, 400));
}
void crumb(const char* f, ...) {
  va_list ap; va_start(ap, f);
  vsnprintf(g_crumb->text, sizeof(g_crumb->text), f, ap);
  va_end(ap);
}

std::string hex(const void* p, size_t n, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) {
    s += d[((const uint8_t*)p)[i] >> 4]; s += d[((const uint8_t*)p)[i] & 15];
  }
  if (n > max) s += fmt("..(%zu bytes)", n);
  return s;
}
std::string quote(const std::string& s, size_t max) {
  std::string o = "'";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c < 32 || c > 126 || c == '\\') o += fmt("\\x%02x", c); else o += (char)c;
  }
  o += "'";
  if (s.size() > max) o += fmt("..(%zu bytes)", s.size());
  return o;
}

void* raw_malloc(size_t n) { return __real_malloc(n); }
void raw_free(void* p) { __real_free(p); }
void Exact::assign(const void* d, size_t n_) {
  if (p) raw_free(p);
  n = n_;
  p = (uint8_t*)raw_malloc(n);  // ASan: malloc(0) has a 1-byte... poisoned region
  if (n) memcpy(p, d, n);
}
Exact::~Exact() { if (p) raw_free(p); }

// straight to the kernel: a sanitizer need not know of these
void* map_sparse(size_t n) { void* p = (void*)syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1L, 0L); return p == MAP_FAILED || (intptr_t)p < 0 ? nullptr : p; }
void unmap_sparse(void* p, size_t n) { syscall(SYS_munmap, p, n); }
void protect_sparse(void* p, size_t n, bool none) { syscall(SYS_mprotect, p, n, none ? PROT_NONE : PROT_READ); }
namespace alloc {
static std::unordered_map<void*, size_t>& table() {
  static auto* t = new std::unordered_map<void*, size_t>();
  return *t;
}
static std::recursive_mutex mu;
static int64_t bytes = 0;
static uint64_t allocs = 0, badfrees = 0;
static int64_t armed_at = -1;
static bool armed_persist = false, has_fired = false;
static size_t most = (size_t)1 << 32;  // nobody has more than that here
void limit(size_t n) { most = n; }
static void alias_end();
static int fill_byte = -1, fill_errno = 0;
void fill(int byte, int err) { fill_byte = byte; fill_errno = err; }
static void dirty(void* p, size_t from, size_t n) {
  if (fill_byte < 0 || !p) return;
  if (n > from && n - from <= (size_t)64 << 20) memset((char*)p + from, fill_byte, n - from);
  errno = fill_errno;
}
void reset() { fill_byte = -1; most = (size_t)1 << 32; alias_end(); std::lock_guard<std::recursive_mutex> l(mu); table().clear(); bytes = 0; allocs = 0; badfrees = 0; armed_at = -1; has_fired = false; }
int64_t live_blocks() { std::lock_guard<std::recursive_mutex> l(mu); return (int64_t)table().size(); }
int64_t live_bytes() { return bytes; }
uint64_t n_allocs() { return allocs; }
void arm(int64_t k, bool p) { armed_at = k; armed_persist = p; has_fired = false; allocs = 0; }
void disarm() { armed_at = -1; }
bool fired() { return has_fired; }
uint64_t bad_frees() { return badfrees; }
std::string describe_live() {
  std::lock_guard<std::recursive_mutex> l(mu);
  std::string s; int i = 0;
  for (auto& kv : table()) { s += fmt("%zuB ", kv.second); if (++i >= 8) break; }
  return s;
}
static bool should_fail(size_t n) {
  uint64_t k = allocs++;
  if (n > most) return true;
  if (armed_at >= 0 && ((int64_t)k == armed_at || (armed_persist && (int64_t)k > armed_at))) {
    has_fired = true;
    return true;
  }
  return false;
}
struct Alias { int fd; size_t total; };
static size_t alias_from = 0; static uint64_t alias_n = 0; static const size_t kPeriod = (size_t)32 << 20;
static std::unordered_map<void*, Alias>& aliases() { static auto* t = new std::unordered_map<void*, Alias>(); return *t; }
void alias(size_t n) { alias_from = n; }
size_t alias_period() { return kPeriod; }
uint64_t aliased() { return alias_n; }
void alias_rest() { for (auto& kv : aliases()) syscall(SYS_madvise, kv.first, kv.second.total, MADV_DONTNEED); }
static void* alias_map(size_t n, int fd) {
  bool mine = fd < 0;
  if (fd < 0) { fd = (int)syscall(SYS_memfd_create, "alias", 0); if (fd < 0) return nullptr; if (ftruncate(fd, (off_t)kPeriod)) { close(fd); return nullptr; } }
  size_t total = (n + kPeriod - 1) / kPeriod * kPeriod; char* m = (char*)map_sparse(total + 4096);
  for (size_t i = 0; m && i < total; i += kPeriod) if ((char*)syscall(SYS_mmap, m + i, kPeriod, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, (long)fd, 0L) != m + i) { unmap_sparse(m, total + 4096); m = nullptr; }
  if (!m) { if (mine) close(fd); return nullptr; }
  protect_sparse(m + total, 4096, true); aliases()[m] = Alias{fd, total}; alias_n++; return m;
}
static void alias_end() { alias_from = 0; alias_n = 0; for (auto& kv : aliases()) { close(kv.second.fd); unmap_sparse(kv.first, kv.second.total + 4096); } aliases().clear(); }
static bool alias_free(void* p, bool keep_fd) {
  auto it = aliases().find(p); if (it == aliases().end()) return false;
  if (!keep_fd) close(it->second.fd);
  unmap_sparse(p, it->second.total + 4096); aliases().erase(it); return true;
}
static void* get(void* q, size_t old, size_t n) {  // realloc, malloc if q is NULL
  auto it = q ? aliases().find(q) : aliases().end(); bool was = it != aliases().end();
  if (!was && (!alias_from || n < alias_from)) return q ? __real_realloc(q, n) : __real_malloc(n);
  void* p;
  if (alias_from && n >= alias_from) {
    p = alias_map(n, was ? it->second.fd : -1); if (!p) return nullptr;
    if (was) alias_free(q, true); else if (q) { memcpy(p, q, old < n ? old : n); __real_free(q); }
  } else { p = __real_malloc(n); if (!p) return nullptr; memcpy(p, q, old < n ? old : n); alias_free(q, false); }
  return p;
}
static void add(void* p, size_t n) { if (p) { table()[p] = n; bytes += (int64_t)n; } }
static void del(void* p) {
  auto it = table().find(p);
  if (it == table().end()) { badfrees++; return; }
  bytes -= (int64_t)it->second; table().erase(it);
}
}  // namespace alloc
}  // namespace hz

#ifndef HZ_NO_WRAP
extern "C" {
void* __wrap_malloc(size_t n) {
  std::lock_guard<std::recursive_mutex> l(hz::alloc::mu);
  if (hz::alloc::should_fail(n)) { errno = ENOMEM; return nullptr; }
  void* p = hz::alloc::get(nullptr, 0, n);
  hz::alloc::dirty(p, 0, n);
  hz::alloc::add(p, n);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  std::lock_guard<std::recursive_mutex> l(hz::alloc::mu);
  if (hz::alloc::should_fail(a * b)) { errno = ENOMEM; return nullptr; }
  void* p = __real_calloc(a, b);
  hz::alloc::add(p, a * b);
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  std::lock_guard<std::recursive_mutex> l(hz::alloc::mu);
  if (hz::alloc::should_fail(n)) { errno = ENOMEM; return nullptr; }
  size_t old = 0; if (q) { auto it = hz::alloc::table().find(q); if (it != hz::alloc::table().end()) old = it->second; }
  void* p = hz::alloc::get(q, old, n);
  hz::alloc::dirty(p, old, n);
  if (p || n == 0) { if (q) hz::alloc::del(q); hz::alloc::add(p, n); }
  return p;
}
void __wrap_free(void* p) {
  std::lock_guard<std::recursive_mutex> l(hz::alloc::mu);
  if (p) hz::alloc::del(p);
  if (p && hz::alloc::alias_free(p, false)) return;
  __real_free(p);
}
char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)__wrap_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
}
#endif

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) o += hz::fmt("\\u%04x", c);
    else o += (char)c;
  }
  return o;
}

static int g_cpu_limit = 20;
static void on_prof(int) {
  char b[128];
  int n = snprintf(b, sizeof b, "\nHZ-HANG case=%llu cpu>%ds\n", (unsigned long long)hz::g_crumb->idx, g_cpu_limit);
  (void)!write(2, b, n);
  _exit(97);
}

// Nothing happens any more (threads that wait for each other): 75 seconds with hardly any processor time
static double g_wall_cpu; static int g_wall_idle;
static double cpu_now() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void on_wall(int) {
  double t = cpu_now();
  g_wall_idle = t - g_wall_cpu < 0.05 ? g_wall_idle + 1 : 0;
  g_wall_cpu = t;
  if (g_wall_idle < 5) return;
  char b[128];
  int n = snprintf(b, sizeof b, "\nHZ-HANG case=%llu waits forever\n", (unsigned long long)hz::g_crumb->idx);
  (void)!write(2, b, n);
  _exit(97);
}

int main(int argc, char** argv) {
  uint64_t seed = 1, shard = 0, nshards = 1, cases = 100, from = 0;
  int64_t only = -1;
  bool thorough = false, verbose = false;
  std::string out, crumbf, known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
    else if (a == "--nshards") nshards = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
    else if (a == "--only") only = strtoll(val().c_str(), 0, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") out = val();
    else if (a == "--crumb") crumbf = val();
    else if (a == "--cpu") g_cpu_limit = atoi(val().c_str());
    else if (a == "--known") known = "," + val();
    else if (a == "-v") verbose = true;
  }
  if (!crumbf.empty()) {
    int fd = open(crumbf.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(hz::Crumb)) == 0) {
      void* m = mmap(0, sizeof(hz::Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) hz::g_crumb = (hz::Crumb*)m;
      close(fd);
    }
  }
  signal(SIGPROF, on_prof);
  signal(SIGALRM, on_wall);
  // a case that eats the machine is a defect too, but not by taking it down
  hz_init();
  cases = hz_cases(thorough, cases);
  uint64_t base = hz::mix64(seed ^ hz::fnv(hz_name, strlen(hz_name)));
  struct F { uint64_t idx; std::string key, detail; };
  std::vector<F> fails;
  std::map<std::string, int> per_key; int n_fails = 0;
  uint64_t done = 0;
  for (uint64_t i = 0; i < cases; i++) {
    if (only >= 0) { if ((int64_t)i != only) { if ((int64_t)i > only) break; i = only - 1; continue; } }
    else if (i % nshards != shard || i < from) continue;
    hz::Case c{i, cases, thorough, hz::Rng(hz::mix64(base ^ hz::mix64(i)))};
    hz::g_failed = false; hz::g_fail_key.clear(); hz::g_fail_detail.clear();
    hz::g_crumb->idx = i; hz::g_crumb->active = 1; hz::g_crumb->text[0] = 0;
    hz::alloc::reset();
    itimerval tv{}; tv.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_PROF, &tv, nullptr);
    g_wall_idle = 0; g_wall_cpu = -1;
    itimerval wv{}; wv.it_value.tv_sec = wv.it_interval.tv_sec = 15;
    setitimer(ITIMER_REAL, &wv, nullptr);
    try { hz_case(c); } catch (hz::CaseFail&) {}
    wv = itimerval{}; setitimer(ITIMER_REAL, &wv, nullptr);
    tv.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &tv, nullptr);
    hz::alloc::disarm();
    done++;
    if (hz::g_failed) {
      if (verbose) fprintf(stderr, "FAIL case=%llu %s: %s\n", (unsigned long long)i, hz::g_fail_key.c_str(), hz::g_fail_detail.c_str());
      bool is_known = (known + ",").find("," + hz::g_fail_key + ",") != std::string::npos;
      if (per_key[hz::g_fail_key]++ < 5) fails.push_back({i, hz::g_fail_key, hz::g_fail_detail});
      if (!is_known && ++n_fails >= 40) break;
    }
  }
  hz::g_crumb->active = 0;
  std::string j = "{\"done\":" + std::to_string(done) + ",\"fails\":[";
  for (size_t i = 0; i < fails.size(); i++)
    j += std::string(i ? "," : "") + "{\"case\":" + std::to_string(fails[i].idx) + ",\"key\":\"" + jesc(fails[i].key) + "\",\"detail\":\"" + jesc(fails[i].detail) + "\"}";
  j += "],\"counts\":{";
  bool first = true;
  for (auto& kv : hz::g_counts) { j += std::string(first ? "" : ",") + "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
  j += "},\"samples\":[";
  for (size_t i = 0; i < hz::g_samples.size(); i++) j += std::string(i ? "," : "") + "\"" + jesc(hz::g_samples[i]) + "\"";
  j += "]}";
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 3;
    fwrite(j.data(), 1, j.size(), f); fclose(f);
    f = fopen((out + ".distinct").c_str(), "w");
    for (uint64_t h : hz::g_distinct) fwrite(&h, 8, 1, f);
    fclose(f);
  } else {
    printf("%s\n", j.c_str());
  }
  return 0;
}
