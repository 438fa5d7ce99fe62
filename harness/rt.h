// Runtime of the monitoring harnesses: deterministic case loop, oracle
// failures, counters for the evidence file, allocation accounting and fault
// injection. Every check defines hz_name and hz_case().
#ifndef HZ_RT_H
#define HZ_RT_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace hz {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  // inclusive
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  bool one_in(uint64_t n) { return below(n) == 0; }
  template <class T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T>
  const T& pick(const std::vector<T>& l) { return l[below(l.size())]; }
};

struct Case {
  uint64_t idx;
  uint64_t total;  // number of cases of the whole run (for enumerations)
  bool thorough;
  Rng r;
};

struct CaseFail {};

// Records a violation of this case (the first one is kept) and continues.
void note_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Records a violation and leaves the case (never across C frames).
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();
// Leaves the case if a violation was noted inside a callback
inline void check_noted() { if (failed()) throw CaseFail(); }

#define REQUIRE(cond, key, ...) do { if (!(cond)) ::hz::fail(key, __VA_ARGS__); } while (0)

// evidence
void count(const char* name, uint64_t n = 1);
void distinct(uint64_t hash);               // one non-trivial case/state observed
void sample(const std::string& s);          // a case written out (few are kept)
bool want_sample();
void crumb(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return fnv(s.data(), s.size(), h);
}

// what the process may happen to be like while the library is called; the harness's own
// arithmetic and formatting go on as if nothing were the matter
namespace ambient {
extern thread_local bool on;
void leave(void* state[2]); void enter(void* const state[2]);
}
struct Neutral {
  void* was[2]; bool did;
  Neutral() : did(ambient::on) { if (did) { ambient::on = false; ambient::leave(was); } }
  ~Neutral() { if (did) { ambient::enter(was); ambient::on = true; } }
  Neutral(const Neutral&) = delete;
};

// ---- allocation accounting (only library allocations pass here) ----------
namespace alloc {
void reset();                // forget everything live
int64_t live_blocks();
int64_t live_bytes();
uint64_t n_allocs();         // allocation requests since reset/arm
// fail request number k (0-based, counted from now); if persistent also all later ones
void arm(int64_t k, bool persistent);
void disarm();
void limit(size_t n);        // requests for more than that are refused, until the next case
// until the next case, blocks of at least n bytes (0: none) are one stretch of memory
// shown again and again: any size can be had and written to, and what comes back is what
// was put there as long as it repeats every alias_period() bytes
void alias(size_t n);
size_t alias_period();
void alias_rest();           // what has been touched so far needs no memory (nor page tables) any more
uint64_t aliased();          // how many blocks there were
// until the next case: fresh memory holds that byte, and having it leaves that errno
void fill(int byte, int err);  // -1: neither
bool fired();
uint64_t bad_frees();        // frees of pointers the library does not own
std::string describe_live();
}  // namespace alloc

// exact-size heap copy that ASan guards on both sides. n == 0 gives a valid
// 1-past pointer region of size zero.
struct Exact {
  uint8_t* p = nullptr; size_t n = 0;
  Exact() {}
  Exact(const void* d, size_t n_) { assign(d, n_); }
  explicit Exact(const std::string& s) { assign(s.data(), s.size()); }
  Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
  Exact(Exact&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  Exact& operator=(Exact&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); return *this; }
  void assign(const void* d, size_t n_);
  ~Exact();
};
// memory of any size of which only the touched pages exist; nullptr if there is none
void* map_sparse(size_t n);
void unmap_sparse(void* p, size_t n);
void protect_sparse(void* p, size_t n, bool none);
void* raw_malloc(size_t n);  // not accounted
void raw_free(void* p);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n, size_t max = 96);
std::string quote(const std::string& s, size_t max = 200);

}  // namespace hz

extern const char* hz_name;
void hz_case(hz::Case& c);
// optional overrides (weak): a fixed number of cases for enumerations
uint64_t hz_cases(bool thorough, uint64_t dflt);
void hz_init();
#endif
