#include "sim.h"
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <signal.h>
#include <new>
#include <algorithm>

extern "C" void simtsan_proc(int);
namespace sim {
uint64_t hash64(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  h = hash64(h, n);
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = hash64(h, v); b += 8; n -= 8; }
  if (n) { uint64_t v = 0; memcpy(&v, b, n); h = hash64(h, v); }
  return h;
}

// ------------------------------------------------------------------- result
Shared *sh = nullptr;
static Rng rng[S_N];
static size_t cursor[S_N];
static size_t replay_len[S_N];
static bool replay_mode = false;
static bool trace_on = false;
bool tracing() { return trace_on; }

void begin_run(uint64_t seed, uint64_t poison, bool replay, bool tracef) {
  replay_mode = replay; trace_on = tracef;
  for (int i = 0; i < S_N; i++) {
    rng[i].reseed(hash64(seed, 0xABC0 + i)); cursor[i] = 0;
    replay_len[i] = replay ? sh->nlog[i] : 0;
    if (!replay) sh->nlog[i] = 0;
  }
  sh->cls[0] = 0; sh->msg[0] = 0; sh->thash = 0x51; sh->shash = 0x52; sh->outcome = O_NONE; sh->nprobe = 0; sh->tlen = 0;
  sh->sample[0] = 0; sh->nontrivial = 0; sh->steps = 0; sh->vtime = 0; sh->switches = 0; sh->overflow = 0;
  for (int i = 0; i < S_N; i++) sh->used[i] = 0;
  alloc_cfg.poison = poison;
}
// While a replayed prefix lasts, the log is the decision; after it, the RNG (search) or 0 (replay).
static uint32_t put(Stream s, uint32_t v) {
  size_t i = cursor[s]++;
  if (i >= LOGCAP) { sh->overflow = 1; finish_skip("choice log full"); }
  sh->log[s][i] = v;
  if (sh->nlog[s] < cursor[s]) sh->nlog[s] = cursor[s];
  if (sh->used[s] < cursor[s]) sh->used[s] = cursor[s];
  return v;
}
static bool from_log(Stream s, uint32_t n, uint32_t &v) {
  size_t lim = replay_mode ? std::max<size_t>(replay_len[s], sh->used[s]) : sh->nlog[s];
  if (cursor[s] < lim) { v = sh->log[s][cursor[s]]; if (v >= n) v %= n; return true; }
  if (replay_mode) { v = 0; return true; }
  return false;
}
uint32_t choose(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (!from_log(s, n, v)) v = rng[s].below(n);
  return put(s, v);
}
uint32_t draw(Stream s, uint32_t n, const std::function<uint32_t(Rng &)> &f) {
  if (n <= 1) return 0;
  uint32_t v;
  if (!from_log(s, n, v)) { v = f(rng[s]); if (v >= n) v %= n; }
  return put(s, v);
}
bool chance(Stream s, uint32_t num, uint32_t den) {
  if (num == 0 || den == 0) return false;
  uint32_t v;
  if (!from_log(s, 2, v)) v = rng[s].below(den) < num;
  return put(s, v);
}
uint32_t log_uniform(Stream s, uint32_t max) {
  if (max == 0) return 0;
  return draw(s, max + 1, [&](Rng &r) -> uint32_t {
    int bits = 32 - __builtin_clz(max);
    int b = r.below(bits + 1);
    if (b == 0) return 0;
    uint64_t lo = 1ULL << (b - 1), hi = std::min<uint64_t>((1ULL << b) - 1, max);
    return (uint32_t)(lo + r.below((uint32_t)(hi - lo + 1)));
  });
}
StreamMark mark_streams() { StreamMark m; for (int i = 0; i < S_N; i++) m.pos[i] = cursor[i]; return m; }
void rewind_streams(const StreamMark &m) { for (int i = 0; i < S_N; i++) cursor[i] = m.pos[i]; }

static void die_now() { syscall_exit(0); }
void syscall_exit(int code) { __real_syscall(SYS_exit_group, code); __builtin_unreachable(); }

static void finalize_shared() { sh->steps += steps(); sh->vtime += now(); }
void fail(const char *cls, const char *fmt, ...) {
  if (sh->outcome == O_NONE) {
    sh->outcome = O_FAIL;
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
    finalize_shared();
  }
  die_now(); __builtin_unreachable();
}
void finish_ok() { if (sh->outcome == O_NONE) { sh->outcome = O_OK; finalize_shared(); } die_now(); __builtin_unreachable(); }
void finish_skip(const char *why) {
  if (sh->outcome == O_NONE) { sh->outcome = O_SKIP; snprintf(sh->msg, sizeof sh->msg, "%s", why); finalize_shared(); }
  die_now(); __builtin_unreachable();
}
void probe(const char *name, uint64_t n) {
  for (uint32_t i = 0; i < sh->nprobe; i++)
    if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].n += n; return; }
  if (sh->nprobe < MAXPROBE) { snprintf(sh->probes[sh->nprobe].name, sizeof sh->probes[0].name, "%s", name); sh->probes[sh->nprobe++].n = n; }
}
void trace_hash(uint64_t v) { sh->thash = hash64(sh->thash, v); }
void set_nontrivial(bool b) { sh->nontrivial = b; }
void trace(const char *fmt, ...) {
  if (!trace_on) return;
  char buf[512]; va_list ap; va_start(ap, fmt); int k = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (k >= (int)sizeof buf) k = sizeof buf - 1;
  char pre[96]; int q = snprintf(pre, sizeof pre, "%10.3fms #%llu %s: ", now() / 1e6, (unsigned long long)steps(), cur() && cur()->proc ? cur()->proc->cfg.name.c_str() : "-");
  if (sh->tlen + q + k + 2 < TRACECAP) {
    memcpy(sh->trace + sh->tlen, pre, q); sh->tlen += q; memcpy(sh->trace + sh->tlen, buf, k); sh->tlen += k; sh->trace[sh->tlen++] = '\n';
  }
}
void sample(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(sh->sample, sizeof sh->sample, fmt, ap); va_end(ap); }

// ---------------------------------------------------------------- scheduler
Knobs knobs;
void (*on_proc_switch)(Proc *, Proc *) = nullptr;
uint64_t g_bb = 0;
bool g_mem_preempt = false;
static uint64_t g_gap = 0;

static std::vector<Task *> tasks;
static std::vector<Proc *> procs;
static Task *g_cur = nullptr, *g_root = nullptr;
static uint64_t g_now = 0, g_steps = 0, g_seq = 0;
struct Ev { uint64_t t, seq; Fn f; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev> evq;
static std::vector<Ev> stepq;
static bool world_over = false; static RunResult world_result;
static int next_task_id = 0, next_proc_id = 0;
static std::vector<uint64_t> pct_points;
static int starve_id = -1;

Task *cur() { return g_cur; }
Proc *cur_proc() { return g_cur ? g_cur->proc : nullptr; }
uint64_t now() { return g_now; }
uint64_t steps() { return g_steps; }
std::vector<Proc *> &all_procs() { return procs; }

static int futex_w(int *a, int v) { return __real_syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static int futex_wake1(int *a) { return __real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void wait_token(Task *t) {
  while (__atomic_load_n(&t->run, __ATOMIC_ACQUIRE) == 0) futex_w(&t->run, 0);
  __atomic_store_n(&t->run, 0, __ATOMIC_RELAXED);
}
static void pass_token(Task *t) { __atomic_store_n(&t->run, 1, __ATOMIC_RELEASE); futex_wake1(&t->run); }

void at(uint64_t when, Fn f) { evq.push_back(Ev{when < g_now ? g_now : when, g_seq++, std::move(f)}); std::push_heap(evq.begin(), evq.end(), EvCmp()); }
void at_step(uint64_t step, Fn f) { stepq.push_back(Ev{step, g_seq++, std::move(f)}); std::push_heap(stepq.begin(), stepq.end(), EvCmp()); }

static void fire_due() {
  while (!stepq.empty() && stepq.front().t <= g_steps) {
    std::pop_heap(stepq.begin(), stepq.end(), EvCmp()); Fn f = std::move(stepq.back().f); stepq.pop_back(); f();
  }
  while (!evq.empty() && evq.front().t <= g_now) {
    std::pop_heap(evq.begin(), evq.end(), EvCmp()); Ev e = std::move(evq.back()); evq.pop_back(); trace_hash(e.seq); e.f();
  }
}

static Task *pick_next(Task *me) {
  static std::vector<Task *> R;
  for (;;) {
    fire_due();
    if (!world_over && g_steps > knobs.step_budget) { world_over = true; world_result = R_BUDGET; return g_root; }
    R.clear();
    bool live = false;
    if (me && me->st == T_READY && me != g_root && me->proc->alive()) R.push_back(me);
    for (Task *t : tasks) {
      if (t == g_root || t->st == T_DEAD || !t->proc->alive()) continue;
      live = true;
      if (t == me && t->st == T_READY) continue;
      if (t->st == T_READY) { R.push_back(t); continue; }
      if (t->pred && t->pred()) { R.push_back(t); continue; }
      if (t->deadline && t->deadline <= g_now) R.push_back(t);
    }
    if (!live) {
      // run out remaining network/disk events so that the world reaches rest
      if (!evq.empty()) { g_now = std::max(g_now, evq.front().t); continue; }
      world_over = true; world_result = R_DONE; return g_root;
    }
    if (R.empty()) {
      uint64_t nt = ~0ULL;
      if (!evq.empty()) nt = evq.front().t;
      for (Task *t : tasks) if (t != g_root && t->st == T_BLOCKED && t->proc->alive() && t->deadline && t->deadline < nt) nt = t->deadline;
      if (nt == ~0ULL) { world_over = true; world_result = R_DEADLOCK; return g_root; }
      g_now = std::max(g_now, nt);
      continue;
    }
    break;
  }
  Task *t = R[0];
  // Second half of the step budget (or of the choice log): strictly fair round robin, so that
  // a run that exhausts its budget makes no progress under a fair scheduler either.
  if (R.size() > 1 && (g_steps > knobs.step_budget / 2 || sh->used[S_SCHED] > LOGCAP / 4 * 3)) {
    for (Task *x : R) if (x->last_run < t->last_run) t = x;
    trace_hash(0x5C4ED + t->id);
  } else if (R.size() > 1) {
    bool me_first = (me && R[0] == me);
    uint32_t i = draw(S_SCHED, R.size(), [&](Rng &r) -> uint32_t {
      switch (knobs.policy) {
        case 0: return 0;                                  // run to block
        case 1: return r.below(R.size());                  // uniform
        case 2: return (me_first && r.below(16)) ? 0 : r.below(R.size());
        case 3: {                                          // PCT
          for (size_t k = 0; k < pct_points.size(); k++)
            if (pct_points[k] == g_steps && me) me->prio = -(int)k - 1;
          size_t b = 0; for (size_t k = 1; k < R.size(); k++) if (R[k]->prio > R[b]->prio) b = k;
          return b;
        }
        case 4: {                                          // starve one task
          std::vector<uint32_t> c; for (size_t k = 0; k < R.size(); k++) if (R[k]->id != starve_id || !r.below(200)) c.push_back(k);
          return c.empty() ? 0 : c[r.below(c.size())];
        }
        case 5: return (me_first && r.below(200)) ? 0 : r.below(R.size());
      }
      return 0;
    });
    t = R[i];
    sh->shash = hash64(sh->shash, t->id); trace_hash(0x5C4ED + t->id);
  }
  t->last_run = g_steps;
  return t;
}

static void resume_as(Task *t) {  // t gets the token next
  if (t->st == T_BLOCKED) { t->timed_out = !(t->pred && t->pred()); t->st = T_READY; t->pred = nullptr; t->deadline = 0; }
}
static void switch_from(Task *me, bool parked) {
  me->harness_depth++;
  Task *t = pick_next(me);
  if (t == me) { resume_as(t); g_bb = 0; me->harness_depth--; return; }
  sh->switches++;
  trace_hash(t->id);
  if (on_proc_switch && (me ? me->proc : nullptr) != t->proc) on_proc_switch(me ? me->proc : nullptr, t->proc);
  resume_as(t);
  g_cur = t; g_bb = 0;
  if (parked) {
    pass_token(t);
    int never = 0; for (;;) futex_w(&never, 0);
  }
  pass_token(t);
  wait_token(me);
  me->harness_depth--;
}

void point(const char *what, uint64_t cost) {
  Task *me = g_cur; if (!me || me == g_root) { g_bb = 0; return; }
  g_steps++; g_now += cost; me->what = what;
  if (!me->proc->alive()) { me->st = T_DEAD; switch_from(me, true); }
  switch_from(me, false);
}
bool block_until(const char *what, std::function<bool()> pred, uint64_t deadline) {
  Task *me = g_cur;
  if (me == g_root) { fail("harness", "root blocked in %s", what); }
  g_steps++; me->what = what;
  me->st = T_BLOCKED; me->pred = std::move(pred); me->deadline = deadline; me->timed_out = false;
  switch_from(me, false);
  return !me->timed_out;
}
void sleep_ns(uint64_t ns) { block_until("sleep", [] { return false; }, g_now + (ns ? ns : 1)); }
void park_self() { Task *me = g_cur; me->st = T_DEAD; switch_from(me, true); __builtin_unreachable(); }

void mem_point() {
  if (g_gap) { g_gap--; return; }
  Task *me = g_cur; if (!me || me == g_root) return;
  // gap to the next preemption opportunity: logged
  g_gap = draw(S_SCHED, 1 << 14, [&](Rng &r) -> uint32_t {
    switch (r.below(4)) { case 0: return r.below(4); case 1: return r.below(32); case 2: return r.below(512); default: return r.below(1 << 13); } });
  g_steps++; g_now += 10;
  uint64_t sbb = g_bb; switch_from(me, false); (void)sbb;
}

static void *tmain(void *p) {
  Task *t = (Task *)p;
  wait_token(t);
  sig_install_thread();
  t->fn();
  t->finished = true; t->st = T_DEAD;
  bool any = false; for (Task *o : t->proc->tasks) if (o->st != T_DEAD) any = true;
  if (!any && t->proc->alive()) { t->proc->state = P_DONE; t->proc->ended_step = g_steps; proc_teardown(t->proc, false); }
  switch_from(t, true);
  return nullptr;
}
Task *spawn_task(Proc *p, Fn fn) {
  Task *t = new Task(); t->id = next_task_id++; t->proc = p; t->fn = std::move(fn);
  t->prio = 1000 + (int)(hash64(sh->shash, t->id) % 1000);
  tasks.push_back(t); p->tasks.push_back(t);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  pthread_t th;
  if (__real_pthread_create(&th, &a, tmain, t) != 0) fail("harness", "pthread_create failed");
  t->pth = (unsigned long)th;
  pthread_attr_destroy(&a);
  return t;
}
Proc *spawn_proc(const ProcCfg &c, Fn main) {
  Proc *p = new Proc(); p->id = next_proc_id++; p->cfg = c; procs.push_back(p);
  Task *t0 = spawn_task(p, [p, main] {
    main();
    // returning from main() is exit(0): flush streams and end every thread of the process
    if (p->alive()) exit_self(0, 0, nullptr);
  });
  simtsan_proc(t0->id);
  return p;
}
void kill_proc(Proc *p, int sig) {
  if (!p->alive()) return;
  trace("kill %s signal %d", p->cfg.name.c_str(), sig);
  p->state = P_KILLED; p->status = sig; p->ended_step = g_steps;
  proc_teardown(p, true);
}
void exit_self(int code, int sig, const char *why) {
  Proc *p = g_cur->proc;
  if (g_cur == g_root) fail("harness", "exit in root");
  if (why && p->note.empty()) p->note = why;
  if (!p->alive()) park_self();
  if (sig == 0) {
    if (p->exiting) park_self();
    p->exiting = true;
    flush_streams(p);
    if (!p->alive()) park_self();
    p->state = code == 0 && !why ? P_DONE : P_EXITED; p->status = code;
  } else { p->state = P_KILLED; p->status = sig; }
  p->ended_step = g_steps;
  trace("process %s ends: exit=%d sig=%d %s", p->cfg.name.c_str(), code, sig, why ? why : "");
  trace_hash(hash64(code, sig));
  proc_teardown(p, sig != 0);
  park_self();
}

static Proc *root_proc;
void make_root() {
  root_proc = new Proc(); root_proc->id = -1; root_proc->cfg.name = "root";
  g_root = new Task(); g_root->id = -1; g_root->proc = root_proc; g_cur = g_root;
}
RunResult run_world() {
  world_over = false; world_result = R_DONE;
  Task *t = pick_next(nullptr);
  if (t == g_root) { return world_result; }
  resume_as(t); g_cur = t; g_bb = 0;
  if (on_proc_switch) on_proc_switch(nullptr, t->proc);
  pass_token(t); wait_token(g_root);
  if (on_proc_switch) on_proc_switch(nullptr, nullptr);
  g_cur = g_root;
  return world_result;
}
std::string blocked_report() {
  std::string s;
  for (Task *t : tasks) if (t != g_root && t->st != T_DEAD && t->proc->alive()) { s += t->proc->cfg.name + "/" + std::to_string(t->id) + ":" + t->what + " "; }
  return s;
}
void reset_world() {
  for (Task *t : tasks) if (t->st != T_DEAD) t->st = T_DEAD;
  sh->steps += g_steps; sh->vtime += g_now;
  tasks.clear(); procs.clear(); evq.clear(); stepq.clear(); g_now = 0; g_steps = 0; world_over = false; next_task_id = 0; next_proc_id = 0; g_gap = 0; g_seq = 0;
  io_reset(); sync_reset();
}
void pick_policy() {
  knobs.policy = choose(S_PLAN, 6);
  pct_points.clear(); starve_id = -1;
  if (knobs.policy == 3) { uint32_t d = choose(S_PLAN, 4); for (uint32_t i = 0; i < d; i++) pct_points.push_back(log_uniform(S_PLAN, 4000)); }
  if (knobs.policy == 4) starve_id = choose(S_PLAN, 4);
}

// --------------------------------------------------------------- allocation
AllocCfg alloc_cfg;
Harness::Harness() { if (g_cur) g_cur->harness_depth++; }
Harness::~Harness() { if (g_cur) g_cur->harness_depth--; }
static inline void poison_fill(void *p, size_t n) {
  if (n > (64u << 20)) n = 64u << 20;   // a runaway request must not cost real memory
  uint64_t x = hash64(alloc_cfg.poison, alloc_cfg.count);
  size_t i = 0; uint8_t *b = (uint8_t *)p;
  for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; uint64_t v = x | 0x0101010101010101ULL * (alloc_cfg.poison & 1); memcpy(b + i, &v, 8); }
  for (; i < n; i++) b[i] = (uint8_t)(x >> ((i & 7) * 8));
}
static bool alloc_should_fail() {
  Task *t = g_cur;
  if (!alloc_cfg.fail_armed || !t || t == g_root || t->harness_depth) return false;
  if (alloc_cfg.fail_task >= 0 && t->id != alloc_cfg.fail_task) return false;
  if (alloc_cfg.fail_after-- == 0) { alloc_cfg.failed++; probe("fault:alloc-failure"); trace("allocation failure injected"); return true; }
  return false;
}
void *sim_new(size_t n, bool nothrow, size_t al) {
  if (alloc_should_fail()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (sh && g_cur) { alloc_cfg.count++; if (g_cur != g_root) poison_fill(p, n); }
  return p;
}
}  // namespace sim

// the C++ runtime is linked statically, so the address sanitizer does not see its throws: tell it that frames are abandoned
extern "C" void __asan_handle_no_return() __attribute__((weak));
extern "C" void __real___cxa_throw(void *, void *, void (*)(void *)) __attribute__((noreturn));
extern "C" void __real___cxa_rethrow() __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap___cxa_throw(void *a, void *b, void (*c)(void *)) { if (__asan_handle_no_return) __asan_handle_no_return(); __real___cxa_throw(a, b, c); }
extern "C" __attribute__((noreturn)) void __wrap___cxa_rethrow() { if (__asan_handle_no_return) __asan_handle_no_return(); __real___cxa_rethrow(); }

void *operator new(size_t n) { return sim::sim_new(n, false, 0); }
void *operator new[](size_t n) { return sim::sim_new(n, false, 0); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::sim_new(n, true, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::sim_new(n, true, 0); }
void *operator new(size_t n, std::align_val_t a) { return sim::sim_new(n, false, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return sim::sim_new(n, false, (size_t)a); }
void operator delete(void *p) noexcept { sim::on_free(p); free(p); }
void operator delete[](void *p) noexcept { sim::on_free(p); free(p); }
void operator delete(void *p, size_t) noexcept { sim::on_free(p); free(p); }
void operator delete[](void *p, size_t) noexcept { sim::on_free(p); free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::on_free(p); free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::on_free(p); free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::on_free(p); free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::on_free(p); free(p); }

// coverage of the code under test (tools/coverage.py), off unless asked for
namespace sim { uint8_t *g_cov = nullptr; size_t g_cov_len = 0; }
extern "C" char __executable_start;
extern "C" void __sanitizer_cov_trace_pc() {
  if (__builtin_expect(sim::g_cov != nullptr, 0)) { size_t a = (char *)__builtin_return_address(0) - &__executable_start; if (a < sim::g_cov_len) sim::g_cov[a] = 1; }
  if (__builtin_expect(++sim::g_bb > sim::knobs.bb_budget, 0)) {
    if (sim::g_cur_is_task()) {
      sim::g_bb = 0;
      sim::fail("spin", "process %s executes without bound between system calls (last: %s); it neither progresses nor terminates",
                sim::cur()->proc->cfg.name.c_str(), sim::cur()->what);
    }
    sim::g_bb = 0;
  }
}
namespace sim { bool g_cur_is_task() { return g_cur && g_cur != g_root; } }
