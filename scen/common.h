#pragma once
#include "../sim/sim.h"
#include <algorithm>
#include <string>
#include <vector>
#include <sstream>
#include <errno.h>

// ---- things every scenario uses (harness side)
struct Bytes {  // deterministic pseudo-random content
  static inline void fill(uint8_t *p, size_t n, uint64_t id) {
    uint64_t x = sim::hash64(id, 0xB17E5);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; uint64_t v = x ^ (x >> 29); memcpy(p + i, &v, 8); }
    for (; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; p[i] = (uint8_t)(x >> 56); }
  }
  static inline std::string str(size_t n, uint64_t id) { std::string s(n, '\0'); fill((uint8_t *)&s[0], n, id); return s; }
};
// split n bytes into pieces; plan-driven
static inline std::vector<size_t> split(size_t n, uint32_t maxpieces) {
  std::vector<size_t> v; uint32_t k = sim::choose(sim::S_PLAN, maxpieces);
  while (k-- && n > 0) { size_t a = sim::log_uniform(sim::S_PLAN, (uint32_t)n); v.push_back(a); n -= a; }
  v.push_back(n); return v;
}
static inline uint32_t plan(uint32_t n) { return sim::choose(sim::S_PLAN, n); }
static inline bool plan_chance(uint32_t a, uint32_t b) { return sim::chance(sim::S_PLAN, a, b); }

// errno as earlier calls of the program may have left it; correct code looks at it only after a failure
static inline void stale_errno(uint32_t mode, uint64_t k) { static const int e[] = {4, 11, 9, 0, 32, 28, 34}; if (mode) errno = mode == 1 ? 4 : mode == 2 ? 11 : e[sim::hash64(k, mode) % 7]; }

static inline const char *describe(sim::Proc *p, std::string &tmp) {
  std::ostringstream o; o << p->cfg.name << ": ";
  switch (p->state) { case sim::P_RUNNING: o << "still running"; break; case sim::P_DONE: o << "finished"; break; case sim::P_EXITED: o << "exit(" << p->status << ")"; break; case sim::P_KILLED: o << "killed by signal " << p->status; break; }
  if (!p->note.empty()) o << " [" << p->note << "]";
  tmp = o.str(); return tmp.c_str();
}
// the run must have ended with every process returning from main normally
static inline void expect_all_done(sim::RunResult r, std::vector<sim::Proc *> ps, const char *ctx) {
  using namespace sim;
  std::string a, all;
  for (auto *p : ps) { all += describe(p, a); all += "; "; }
  if (r == R_BUDGET) fail("no-progress", "%s: after %llu steps, half of them under a fair scheduler, the program has not finished (%s) blocked: %s", ctx, (unsigned long long)steps(), all.c_str(), blocked_report().c_str());
  if (r == R_DEADLOCK) fail("deadlock", "%s: no party can make progress (%s) blocked: %s", ctx, all.c_str(), blocked_report().c_str());
  for (auto *p : ps) if (p->state != P_DONE) fail("unexpected-exit", "%s: a party terminates although nothing failed (%s)", ctx, all.c_str());
}
