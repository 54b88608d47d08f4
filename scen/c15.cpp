// C15: the thread pool runs each task exactly once and always drains.
#include "common.h"
#include "emp-tool/utils/ThreadPool.h"
#include <thread>
#include <future>
#include <system_error>
using namespace sim;
const char *scenario_property = "C15";
namespace {
enum Kind { VALUE, VOID_, STRING, THROW, THROW_INT, NEST, BARRIER, SLEEP, FNPTR, MEMBER };
struct TI { Kind k; int pool, submitter, parent = -1, group = -1; uint64_t val; uint32_t points; bool alloc = false; int64_t alloc_at = 0; std::vector<int> kids;
  int ran = 0, by = -1; bool accepted = false, rejected = false, got = false; bool get_early = false; bool fin = false; };
std::vector<TI> T; std::vector<uint64_t> *IN, *OUT; int npool; int nworkers[2]; std::set<int> workers[2]; ThreadPool *P[2]; int live_tok = 0; std::map<int, int> grp_in, grp_size; bool destroyed[2], stopping[2]; Task *destroyer[2];
struct Tok { Tok() { Harness h; live_tok++; } Tok(const Tok &) { Harness h; live_tok++; } ~Tok() { Harness h; live_tok--; } };
struct Futs { std::map<int, std::future<uint64_t>> v; std::map<int, std::future<void>> n; std::map<int, std::future<std::string>> s; };
Futs *F; std::string S;
void submit(int i);
uint64_t body(int i, uint64_t arg) {
  { Harness h; TI &t = T[i]; t.ran++; t.by = cur()->id; if (t.ran > 1) fail("ran-twice", "task %d runs a second time", i); if (destroyed[t.pool]) fail("ran-late", "task %d runs after the pool was destroyed", i); if (!workers[t.pool].count(t.by)) fail("not-on-worker", "task %d runs on a thread that is not a worker of its pool", i); if (!t.accepted && t.rejected) fail("rejected-ran", "task %d runs although its submission failed", i); if (arg != t.val) fail("wrong-argument", "task %d receives another argument", i); }
  uint64_t x = (*IN)[i];                          // written by the submitter before submission
  uint32_t np; Kind k; { Harness h; np = T[i].points; k = T[i].k; }
  for (uint32_t n = 0; n < np; n++) point("task body");
  if (k == SLEEP) sleep_ns(1000 + (arg % 100000));
  if (k == NEST) { std::vector<int> kids; { Harness h; kids = T[i].kids; } for (int c : kids) submit(c); }
  if (k == BARRIER) { Harness h; int g = T[i].group; grp_in[g]++; block_until("tasks of the pool wait for each other", [g] { return grp_in[g] >= grp_size[g]; }); }
  (*OUT)[i] = x * 3 + arg;                        // read by whoever gets the future
  { Harness h; T[i].fin = true; }
  if (k == THROW) throw std::runtime_error("task " + std::to_string(i)); if (k == THROW_INT) throw (int)i;
  return x ^ arg;
}
uint64_t fnptr(int i, uint64_t a) { return body(i, a); }
struct Mem { Tok t; int i; uint64_t call(uint64_t a) { return body(i, a); } };
void submit(int i) {
  bool late = false; Kind k; uint64_t v; int pl; bool al; int64_t aat; { Harness h; k = T[i].k; v = T[i].val; pl = T[i].pool; al = T[i].alloc; aat = T[i].alloc_at; if (destroyer[pl] && destroyer[pl]->st == T_BLOCKED && !strcmp(destroyer[pl]->what, "pthread_join")) late = true; }
  (*IN)[i] = v * 7 + 1; ThreadPool &pool = *P[pl]; bool bad_alloc_ok = false;
  auto arm = [&] { Harness h; if (al && !alloc_cfg.fail_armed) { alloc_cfg.fail_armed = true; alloc_cfg.fail_after = aat; alloc_cfg.fail_task = cur()->id; } };
  auto disarm = [&] { Harness h; if (alloc_cfg.fail_task == cur()->id) { bad_alloc_ok = alloc_cfg.fail_armed && alloc_cfg.fail_after < 0; alloc_cfg.fail_armed = false; alloc_cfg.fail_task = -1; } };
  try {
    Tok tok; uint64_t arg = v; std::future<uint64_t> fv; std::future<void> fn; std::future<std::string> fs;
    switch (k) {
      case VOID_: case SLEEP: { auto f = [i, tok](uint64_t a) { body(i, a); }; arm(); fn = pool.enqueue(f, arg); break; }
      case STRING: { std::string s = "result " + std::to_string(v); auto f = [i, tok, s](uint64_t a, std::string add) { body(i, a); return s + add; }; arm(); fs = pool.enqueue(f, arg, std::string("!")); break; }
      case FNPTR: { arm(); fv = pool.enqueue(fnptr, i, arg); break; }
      case MEMBER: { auto m = std::make_shared<Mem>(); m->i = i; arm(); fv = pool.enqueue(&Mem::call, m, arg); break; }
      default: { arm(); fv = pool.enqueue([i, tok](uint64_t a) { return body(i, a); }, arg); }
    }
    disarm(); arg = 0xDEAD;      // arguments were taken by value
    Harness h; if (late) fail("accepted-while-stopping", "a pool whose destructor already waits for its workers accepts a new task"); T[i].accepted = true; if (fv.valid()) F->v[i] = std::move(fv); else if (fn.valid()) F->n[i] = std::move(fn); else if (fs.valid()) F->s[i] = std::move(fs); else fail("no-future", "an accepted task has no future");
  } catch (const std::bad_alloc &) { disarm(); Harness h; T[i].rejected = true; if (!bad_alloc_ok) fail("spurious-rejection", "submission reports lack of memory that did not occur"); if (T[i].ran) fail("rejected-ran", "task %d ran although its submission failed", i);
  } catch (const std::runtime_error &) { disarm(); Harness h; T[i].rejected = true; probe("case:rejected-while-stopping"); if (!stopping[pl]) fail("spurious-rejection", "a pool that is not stopping refuses a task"); if (T[i].ran) fail("rejected-ran", "task %d ran although its submission failed", i); }
}
void collect(int i) {
  uint64_t x = 0; int mode = 0; Kind k; uint64_t v; { Harness h; if (!T[i].accepted || T[i].got) return; T[i].got = true; k = T[i].k; v = T[i].val; mode = F->v.count(i) ? 1 : F->n.count(i) ? 2 : 3; }
  uint64_t in = v * 7 + 1; bool threw = false;
  std::future<uint64_t> fv; std::future<void> fn; std::future<std::string> fs; { Harness h; if (mode == 1) fv = std::move(F->v[i]); else if (mode == 2) fn = std::move(F->n[i]); else fs = std::move(F->s[i]); bool dest = destroyed[T[i].pool]; (void)dest; }
  bool dest; { Harness h; dest = destroyed[T[i].pool]; }
  if (dest) { bool ready = mode == 1 ? fv.wait_for(std::chrono::seconds(0)) == std::future_status::ready : mode == 2 ? fn.wait_for(std::chrono::seconds(0)) == std::future_status::ready : fs.wait_for(std::chrono::seconds(0)) == std::future_status::ready; Harness h; if (!ready) fail("not-drained", "the pool was destroyed but accepted task %d has no result", i); }
  try { if (mode == 1) { x = fv.get(); if (x != (in ^ v)) { Harness h; fail("wrong-result", "the future of task %d delivers another value", i); } } else if (mode == 2) fn.get(); else { std::string s = fs.get(); Harness h; if (s != "result " + std::to_string(v) + "!") fail("wrong-result", "the future of task %d delivers another string", i); } }
  catch (const std::future_error &) { Harness h; fail("broken-promise", "task %d was accepted but dropped", i); }
  catch (const std::runtime_error &e) { threw = true; Harness h; if (k != THROW || std::string(e.what()) != "task " + std::to_string(i)) fail("wrong-exception", "the future of task %d delivers another exception", i); }
  catch (int e) { threw = true; Harness h; if (k != THROW_INT || e != i) fail("wrong-exception", "the future of task %d delivers another exception", i); }
  { Harness h; if ((k == THROW || k == THROW_INT) && !threw) fail("lost-exception", "the exception of task %d is not delivered", i); if (T[i].ran != 1) fail("not-run", "the future of task %d is ready but the task ran %d times", i, T[i].ran); }
  uint64_t o = (*OUT)[i]; if (o != in * 3 + v) { Harness h; fail("wrong-result", "effects of task %d are not visible to the owner of its future", i); }
}
}
void scenario_main() {
  npool = 1 + (plan(6) == 0); for (int p = 0; p < npool; p++) nworkers[p] = 1 + (plan(3) ? plan(4) : plan(7)); uint32_t nsub = plan(4), nt = 1 + log_uniform(S_PLAN, 24); bool allocs = plan(4) == 0; int ngrp = 0; bool burst = plan(25) == 0; if (burst) nt = plan(6) ? 30 + plan(80) : 250 + plan(100);
  for (uint32_t i = 0; i < nt; i++) { TI t; t.k = (Kind)plan(10); t.pool = plan(npool); t.submitter = plan(nsub + 1); t.val = hash64(i, plan(1000)) >> 8; t.points = plan(4); t.get_early = plan(3) == 0 && !burst; t.alloc = allocs && plan(3) == 0; t.alloc_at = plan(6); if (t.k == BARRIER) t.k = VALUE;
    if (t.k == NEST) { uint32_t kk = plan(3); T.push_back(t); int me = (int)T.size() - 1; for (uint32_t j = 0; j < kk; j++) { TI c; c.k = VALUE; if (plan(3) == 0) c.k = THROW; c.pool = t.pool; c.submitter = -1; c.parent = me; c.val = hash64(j, me); c.points = plan(3); T[me].kids.push_back((int)T.size()); T.push_back(c); } } else T.push_back(t); }
  // barrier groups: tasks that need each other to run at the same time
  std::vector<std::pair<int, std::vector<int>>> groups; if (plan(2)) { int p = plan(npool); int k = 1 + plan(nworkers[p]); if (plan(2)) k = nworkers[p]; std::vector<int> ids; for (int j = 0; j < k; j++) { TI t; t.k = BARRIER; t.pool = p; t.submitter = -2; t.val = j; t.points = plan(2); t.group = ngrp; ids.push_back((int)T.size()); T.push_back(t); } grp_size[ngrp] = k; ngrp++; groups.push_back({p, ids}); }
  bool group_first = plan(2), group_join = plan(2); uint32_t spur = plan(3) == 0 ? 2 + plan(6) : 0; set_spurious(spur); int destroy_order = plan(2); int stillborn = plan(6) == 0 ? 1 + plan(2) : 0; uint64_t stillborn_seed = plan(1 << 16);
  std::vector<uint64_t> in(T.size()), out(T.size()); IN = &in; OUT = &out; F = new Futs(); pick_policy(); g_mem_preempt = plan(4) != 0; knobs.bb_budget = 50000000; knobs.step_budget = 400000;
  sample("pools=%d workers=%d submitters=%u tasks=%zu groups=%d spurious=%u allocation-failures=%d policy=%d", npool, nworkers[0], nsub + 1, T.size(), ngrp, spur, (int)allocs, knobs.policy); set_nontrivial(true);
  ProcCfg c; c.name = "program";
  Proc *pr = spawn_proc(c, [&] {
    std::vector<std::unique_ptr<ThreadPool>> pools;
    for (int k = 0; k < stillborn; k++) {   // a pool whose workers cannot all be started
      size_t before; bool threw = false, mem = hash64(k, stillborn_seed) % 3 == 0; int n = 1 + (int)(hash64(k, stillborn_seed + 1) % 5), at = (int)(hash64(k, stillborn_seed + 2) % n);
      { Harness h; before = cur_proc()->tasks.size(); if (mem) { alloc_cfg.fail_armed = true; alloc_cfg.fail_after = 1 + (int)(hash64(k, stillborn_seed + 3) % (2 * n)); alloc_cfg.fail_task = cur()->id; } else set_thread_fail(at); }
      bool hit = !mem;
      try { ThreadPool pool(n); { Harness h; if (mem) { hit = alloc_cfg.fail_after < 0; alloc_cfg.fail_armed = false; alloc_cfg.fail_task = -1; } } } catch (const std::bad_alloc &) { threw = true; } catch (const std::system_error &) { threw = true; }
      Harness h; if (mem) { if (threw) hit = true; alloc_cfg.fail_armed = false; alloc_cfg.fail_task = -1; } set_thread_fail(-1);
      if (hit && !threw) fail("silent-construction", "a pool of %d workers is constructed although worker %d could not be started", n, at);
      for (size_t i = before; i < cur_proc()->tasks.size(); i++) if (!cur_proc()->tasks[i]->finished) fail("worker-left", "construction of a pool failed but one of its workers still runs");
      if (threw) probe("case:construction-fails");
    }
    for (int p = 0; p < npool; p++) { size_t before; { Harness h; before = cur_proc()->tasks.size(); } pools.emplace_back(new ThreadPool(nworkers[p])); P[p] = pools.back().get(); { Harness h; auto &ts = cur_proc()->tasks; for (size_t k = before; k < ts.size(); k++) workers[p].insert(ts[k]->id); if ((int)workers[p].size() != nworkers[p]) fail("worker-count", "a pool of %d workers starts %zu threads", nworkers[p], workers[p].size()); if (P[p]->size() != nworkers[p]) fail("worker-count", "size() of a pool of %d workers is %d", nworkers[p], P[p]->size()); } }
    auto do_groups = [&] { for (auto &g : groups) for (int i : g.second) submit(i); };
    auto get_groups = [&] { for (auto &g : groups) for (int i : g.second) collect(i); };
    std::vector<std::thread> subs;
    for (uint32_t s = 1; s <= nsub; s++) subs.emplace_back([s] { for (size_t i = 0;; i++) { bool mine, early; { Harness h; if (i >= T.size()) break; mine = T[i].submitter == (int)s; early = T[i].get_early; } if (!mine) continue; submit((int)i); if (early) collect((int)i); } });
    if (group_first) { do_groups(); if (group_join) get_groups(); }
    for (size_t i = 0; i < T.size(); i++) if (T[i].submitter == 0) { submit((int)i); if (T[i].get_early) collect((int)i); }
    if (!group_first) { do_groups(); if (group_join) get_groups(); }
    for (auto &t : subs) t.join();
    for (int q = 0; q < npool; q++) {
      int p = destroy_order ? npool - 1 - q : q;
      { Harness h; stopping[p] = true; destroyer[p] = cur(); }
      pools[p].reset();
      Harness h; destroyed[p] = true; destroyer[p] = nullptr;
      for (auto *t : cur_proc()->tasks) if (workers[p].count(t->id) && !t->finished) fail("worker-left", "the pool was destroyed but one of its workers still runs");
      for (size_t i = 0; i < T.size(); i++) if (T[i].pool == p && T[i].accepted && !T[i].fin) fail("not-drained", "the pool was destroyed before accepted task %zu %s", i, T[i].ran ? "finished" : "ran");
    }
    for (size_t i = 0; i < T.size(); i++) collect((int)i);
    Harness h; delete F; F = nullptr; if (live_tok) fail("leak", "%d copies of task closures survive the pool", live_tok);
  });
  RunResult r = run_world(); expect_all_done(r, {pr}, "thread pool");
  size_t acc = 0; for (size_t i = 0; i < T.size(); i++) { acc += T[i].accepted; if (T[i].accepted && T[i].ran != 1) fail("not-run", "accepted task %zu ran %d times", i, T[i].ran); if (T[i].rejected && T[i].ran) fail("rejected-ran", "rejected task %zu ran", i); }
  probe("case:tasks-accepted", acc);
}
