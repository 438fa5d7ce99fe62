// P05: an allocation failure is reported, never a crash or a leak. Every
// scenario runs once to count its allocation requests and record its result,
// then again with request k failing (alone, or with every later one).
#include "scen.h"
const char* hz_name = "p05";

void hz_case(Case& cs) {
  Rng& r = cs.r; static const int W[] = {0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 9, 10};
  int sc = W[cs.idx % (sizeof W / sizeof *W)]; Rng seed(r.next());
  crumb("%s clean", SN[sc]);
  alloc::arm(-1, false);
  Ctx clean(seed); SC[sc](clean); check_noted();
  uint64_t n = alloc::n_allocs();
  REQUIRE(!clean.err, "clean-run", "%s fails without any fault (rc %d)", SN[sc], clean.last);
  REQUIRE(alloc::live_blocks() == 0 && !alloc::bad_frees(), "leak", "%s without any fault: %s", SN[sc], alloc::describe_live().c_str());
  if (want_sample()) sample(fmt("%s: %llu allocation requests, result %llx", SN[sc], (unsigned long long)n, (unsigned long long)clean.h));
  count("scenarios"); count("requests", n); distinct(mix64(sc) ^ clean.h);
  std::vector<uint64_t> ks;
  uint64_t lim = cs.thorough ? 200 : 40;
  if (n <= lim) for (uint64_t k = 0; k < n; k++) ks.push_back(k);
  else { for (uint64_t k = 0; k < 12; k++) ks.push_back(k); for (uint64_t k = 0; k < lim - 12; k++) ks.push_back(r.below(n)); }
  for (uint64_t k : ks) for (int mode = 0; mode < 3; mode++) {
    // 0: request k only; 1: k and all later; 2: request k only, errors ignored by the caller
    if (mode && !cs.thorough && r.one_in(2)) continue;
    Ctx c(seed); c.cont = mode == 2;
    crumb("%s k=%llu mode %d", SN[sc], (unsigned long long)k, mode);
    alloc::arm((int64_t)k, mode == 1);
    SC[sc](c);
    bool fired = alloc::fired(); alloc::disarm();
    check_noted();
    REQUIRE(fired || mode, "nondeterministic", "%s: request %llu of %llu was not made", SN[sc], (unsigned long long)k, (unsigned long long)n);
    REQUIRE(!alloc::bad_frees(), "bad-free", "%s with request %llu failing (mode %d)", SN[sc], (unsigned long long)k, mode);
    REQUIRE(alloc::live_blocks() == 0, "leak", "%s with request %llu failing (mode %d) leaks: %s", SN[sc], (unsigned long long)k, mode, alloc::describe_live().c_str());
    REQUIRE(!c.neg, "error-code", "negative error code %d", c.last);
    if (!c.err) { REQUIRE(c.h == clean.h, "wrong-result", "%s with request %llu failing (mode %d) reports success with another result", SN[sc], (unsigned long long)k, mode); count("survived"); }
    else count("reported");
    count("faults"); count(SN[sc]);
    distinct(mix64(sc * 100003 + k) ^ mix64(mode) ^ clean.h);
  }
}
