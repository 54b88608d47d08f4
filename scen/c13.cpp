// C13: every unseeded generator is keyed by at least 128 bits of fresh entropy of its own.
#include "common.h"
#include "emp-tool/utils/prg.h"
#include <pthread.h>
#include <thread>
using namespace sim; using namespace emp;
const char *scenario_property = "C13";
#ifdef ENABLE_RDSEED
static const bool RD = true;
#else
static const bool RD = false;
#endif
namespace {
struct Obj { int id_arg; int how; std::string out; bool built = false; int task = -1; size_t e0 = 0, e1 = 0; std::vector<uint64_t> pos; };
struct Actor { int proc; std::vector<Obj> o; bool threw = false; };
std::vector<Actor> A; bool faulty; uint32_t nproc; bool threads;
std::string output(PRG &g) { block b[3]; g.random_block(b, 3); return std::string((char *)b, 48); }
void act(Actor &a) {
  for (auto &o : a.o) {
    int me = cur()->id; std::vector<uint64_t> mine; size_t e0 = entropy.owner.size();
    auto collect = [&] { Harness h; for (size_t i = e0; i < entropy.owner.size(); i++) if (entropy.owner[i] == me) o.pos.push_back(i); };
    switch (o.how) {
      case 0: { PRG g; collect(); o.out = output(g); break; }
      case 1: { std::unique_ptr<PRG> g(new PRG(nullptr, o.id_arg)); collect(); o.out = output(*g); break; }
      case 2: { PRG g(nullptr, o.id_arg); collect(); g.random_block((block *)&(std::vector<block>(3)[0]), 3); uint64_t v[6]; for (auto &x : v) x = g(); o.out.assign((char *)v, 48); break; }
      default: { PRG g; collect(); char b[49]; g.random_data_unaligned(b, 48); o.out.assign(b, 48); }
    }
    o.built = true; o.task = me;
  }
}
RunResult go(std::vector<Proc *> &ps) {
  for (auto &a : A) { a.threw = false; for (auto &o : a.o) { o.out.clear(); o.built = false; o.pos.clear(); } }
  entropy.pos = 0; entropy.log.clear(); entropy.owner.clear();
  for (uint32_t p = 0; p < nproc; p++) { ProcCfg c; c.name = "process" + std::to_string(p);
    ps.push_back(spawn_proc(c, [p] {
      std::vector<std::thread> th; for (auto &a : A) if (a.proc == (int)p) { Actor *q = &a; auto body = [q] { if (!faulty) { act(*q); return; } try { act(*q); } catch (const std::exception &) { q->threw = true; } }; if (threads) th.emplace_back(body); else body(); }
      for (auto &t : th) t.join(); })); }
  return run_world();
}
}
void scenario_main() {
  nproc = 1 + plan(3); threads = plan(2); uint32_t na = 1 + plan(4); size_t n = 0; faulty = plan(2);
  for (uint32_t i = 0; i < na; i++) { A.push_back({}); A.back().proc = plan(nproc); uint32_t k = 1 + plan(4); for (uint32_t j = 0; j < k; j++) { Obj o; o.how = plan(4); o.id_arg = plan(3) ? 0 : (int)plan(1000); A.back().o.push_back(o); n++; } }
  knobs.bb_budget = 50000000; const char *fm = "none";
  if (faulty) switch (plan(RD ? 4 : 5)) {
    case 0: entropy.fail_mode = 1; fm = "source unavailable"; entropy.fail_at = RD ? 8 * plan(12) : 0; break;
    case 1: entropy.fail_mode = 2; entropy.fail_at = plan(16 * (uint32_t)n + 1); if (RD) entropy.fail_at = entropy.fail_at / 8 * 8; fm = RD ? "stuck at ones" : "read error"; break;
    case 2: entropy.fail_mode = 3; entropy.fail_at = plan(16 * (uint32_t)n + 1); if (RD) entropy.fail_at = entropy.fail_at / 8 * 8; fm = RD ? "stuck at zero" : "end of file"; break;
    case 3: entropy.eintr = 2 + plan(4); fm = "transient failures"; break;
    case 4: entropy.short_rd = 2; entropy.eintr = plan(2) ? 3 : 0; fm = "short reads"; break;
  }
  pick_policy(); StreamMark mk = mark_streams(); std::vector<Proc *> ps;
  RunResult r = go(ps); std::string d, all; for (auto *p : ps) { all += describe(p, d); all += "; "; }
  sample("%zu generators in %u actors, %u processes, %s, entropy fault: %s", n, na, nproc, threads ? "threads" : "sequential", fm);
  if (r != R_DONE) fail("hang", "construction does not end (%s)", all.c_str());
  bool source_fails = entropy.fail_mode != 0; bool any_fail = false; for (auto *p : ps) any_fail |= p->failed(); for (auto &a : A) any_fail |= a.threw;
  if (!faulty) for (auto *p : ps) if (p->state != P_DONE) fail("unexpected-exit", "construction fails although the entropy source works (%s)", all.c_str());
  size_t built = 0; std::vector<std::pair<std::string, const Obj *>> outs;
  for (auto &a : A) for (auto &o : a.o) if (o.built) {
    built++;
    if (o.pos.size() < 16) fail("weak-seed", "a generator was created from %zu fresh entropy bytes (entropy fault: %s)", o.pos.size(), fm);
    for (auto &x : outs) for (int k = 0; k < 48; k += 16) for (int l = 0; l < 48; l += 16) if (!memcmp(x.first.data() + k, o.out.data() + l, 16)) fail("shared-stream", "two unseeded generators produce a common output block");
    outs.push_back({o.out, &o});
  }
  if (source_fails && built < n && !any_fail && entropy.pos >= entropy.fail_at) fail("hidden-failure", "the entropy source failed but nobody noticed (%s)", all.c_str());
  set_nontrivial(built > 0 || faulty);
  if (!faulty && built) {     // flip one bit of the entropy: exactly the generator it was read for changes
    std::vector<std::string> base; std::vector<Obj *> obj; for (auto &a : A) for (auto &o : a.o) { base.push_back(o.out); obj.push_back(&o); }
    uint32_t t = plan((uint32_t)obj.size()); std::vector<uint64_t> pos = obj[t]->pos; uint32_t flips = 2 + plan(3); 
    std::vector<std::pair<uint64_t, uint8_t>> fl; for (uint32_t i = 0; i < flips; i++) fl.push_back({pos[plan((uint32_t)pos.size())], (uint8_t)(1u << plan(8))});
    bool surplus = pos.size() > 16; size_t dep = 0;    // an implementation may draw more than it needs (a buffered read): then 128 of the bits have to matter, not all
    if (surplus) { fl.clear(); probe("case:surplus-entropy"); for (size_t i = 0; i < pos.size(); i++) if (i < 64 || i + 64 >= pos.size()) fl.push_back({pos[i], (uint8_t)0xff}); }
    for (auto &f : fl) {
      reset_world(); StreamMark here = mark_streams(); rewind_streams(mk); entropy.flip_byte = (int64_t)f.first; entropy.flip_mask = f.second; std::vector<Proc *> q; RunResult r2 = go(q); rewind_streams(here); probe("fault:entropy-bit-flip");
      if (r2 != R_DONE) fail("hang", "construction does not end");
      for (size_t k = 0; k < obj.size(); k++) {
        if (k == t && obj[k]->out != base[k]) dep++;
        if (!surplus && k == t && obj[k]->out == base[k]) fail("entropy-ignored", "the generator's output does not depend on bit %d of byte %zu of the entropy read for it", __builtin_ctz(f.second), (size_t)(std::find(pos.begin(), pos.end(), f.first) - pos.begin()));
        if (k != t && obj[k]->out != base[k]) fail("shared-entropy", "changing the entropy of one generator changes another one");
      }
    }
    if (surplus && pos.size() <= 128 && dep < 16) fail("entropy-ignored", "the generator's output depends on only %zu of the %zu entropy bytes read for it", dep, pos.size());
  }
}
