// C19: a computation interrupted by any failure reveals right values or fails; never a wrong one.
#include "gc.h"
using namespace sim; using namespace emp; using namespace gc;
const char *scenario_property = "C19";
namespace {
struct Sess { Prog p; bool pf; int garbler; bool auth; Ideal id; std::vector<std::string> out[2]; };
std::vector<std::unique_ptr<Sess>> S; int chan, server, fault, victim; bool oneway, connected[2], fired; uint32_t reset_sel; size_t quit_after, ops_done[2]; Proc *P[2]; std::shared_ptr<FlushMem> mem; bool finished[2];
const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO", "FileIO"}; const char *fn[] = {"nothing", "party killed", "connection reset", "party exits early", "disk full", "disk error while writing", "disk error while reading", "tape cut", "allocation failure", "evaluator dies and starts again"};
void check_out(size_t i, int q) {   // called after every operation: what has been revealed is right
  Sess &s = *S[i]; auto &o = s.out[q]; if (o.empty()) return; size_t k = o.size() - 1; if (k >= s.p.out.size()) fail("extra-output", "more values are revealed than the program has");
  if (oneway && q == 0) return;
  if (o[k] != "-" && o[k] != s.p.out[k]) fail("wrong-result", "%s, %s: session %zu: the %s is revealed %s instead of %s (reveal %zu of %zu)", cn[chan], fn[fault], i, q ? "evaluator" : "garbler", o[k].c_str(), s.p.out[k].c_str(), k, s.p.out.size());
}
template <typename IO> std::unique_ptr<CircuitExecution> make(bool pf, bool g, IO *io, block &d) {
  if (pf) { if (g) { auto *x = new PrivacyFreeGen<IO>(io); d = x->delta; return std::unique_ptr<CircuitExecution>(x); } return std::unique_ptr<CircuitExecution>(new PrivacyFreeEva<IO>(io)); }
  if (g) { auto *x = new HalfGateGen<IO>(io); d = x->delta; return std::unique_ptr<CircuitExecution>(x); } return std::unique_ptr<CircuitExecution>(new HalfGateEva<IO>(io));
}
// oblivious transfers of stored sessions come from the ideal functionality: if the garbler died before providing them, the evaluator cannot go on
template <typename IO> struct Prot : StubProt<IO> { using StubProt<IO>::StubProt;
  void feed(block *l, int party, const bool *b, int n) override { if (!this->garbler && party == BOB && this->oneway && this->id->ot.size() < (size_t)n) exit(4); StubProt<IO>::feed(l, party, b, n); } };
template <typename IO> void party(IO &io, int me) {
  connected[me] = true;
  for (size_t i = 0; i < S.size(); i++) {
    Sess &s = *S[i]; bool g = me == s.garbler; int q = g ? 0 : 1; block delta = zero_block; auto ce = make(s.pf, g, &io, delta); if (g) { s.id.delta = delta; s.id.have_delta = true; }
    Prot<IO> pr(&io, g, s.pf, oneway, 1, s.auth, delta, &s.id); CircuitExecution::circ_exec = ce.get(); ProtocolExecution::prot_exec = &pr; size_t seen = 0;
    Hooks hk; hk.flush = [&] { io.flush(); };
    hk.after = [&](int, const Op &) { Harness h; if (s.out[q].size() > seen) { seen = s.out[q].size(); check_out(i, q); } ops_done[me]++; if (fault == 3 && me == victim && ops_done[me] > quit_after) { fired = true; probe("fault:party-exits"); exit(3); } };
    execute(s.p, g ? ALICE : BOB, s.out[q], hk);
    CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
  }
  finished[me] = true;
}
void check_complete(int i) { for (size_t k = 0; k < S.size(); k++) { int q = i == S[k]->garbler ? 0 : 1; if (S[k]->out[q].size() != S[k]->p.out.size()) fail("missing-output", "%s, %s: %s ends successfully with %zu of %zu outputs", cn[chan], fn[fault], P[i]->cfg.name.c_str(), S[k]->out[q].size(), S[k]->p.out.size()); } }
void do_fault() {
  if (!oneway && (!connected[0] || !connected[1])) { if ((P[0] && P[0]->failed()) || (P[1] && P[1]->failed())) return; at_step(steps() + 3, do_fault); return; }
  if (fault == 1) { if (P[victim] && P[victim]->alive()) { fired = true; probe("fault:party-killed"); kill_proc(P[victim], 9); } return; }
  if (!P[0]->alive() && !P[1]->alive()) return;
  size_t i = 0; for (auto &c : conns()) if (c->established[1] && !(c->closed[0] && c->closed[1])) { if (reset_sel == 2 || i == reset_sel % 2 || chan == 0) { fired = true; probe("fault:connection-reset"); reset_conn(c.get()); } i++; }
}
}
void scenario_main() {
  chan = plan(6); chan = chan < 2 ? 0 : chan < 4 ? 1 : chan - 2; oneway = chan >= 2; server = plan(2); on_proc_switch = swap_statics; uint32_t ns = 1 + (plan(3) == 0); size_t ands = 0, nops = 0, revs = 0;
  for (uint32_t i = 0; i < ns; i++) {
    S.emplace_back(new Sess()); Sess &s = *S.back(); GenCfg g; g.oneway = oneway; g.max_and = plan(8) ? 600 : 6000; g.floats = plan(8) == 0; g.circuits = plan(40) == 0; g.wide = plan(12) == 0; if (plan(3) == 0) g.only_bits = true; s.pf = plan(3) == 0; 
    Gen gen(s.p, g, i + 1); gen.run(1 + log_uniform(S_PLAN, 25)); s.garbler = oneway ? 0 : plan(2); s.auth = s.pf || plan(2); s.id.seed = hash64(i, plan(1 << 16)); ands += s.p.approx_and; nops += s.p.ops.size(); revs += s.p.reveals;
  }
  pick_policy(); pick_net(ands * 32 + 20000); if (net_cfg.capacity < 4096) net_cfg.capacity = 4096; disk.cfg.short_rd = plan(2) ? 3 : 0; disk.cfg.short_wr = plan(2) ? 3 : 0; bool ign[2] = {plan(2) == 1, plan(2) == 1};
  victim = plan(2); reset_sel = plan(3); quit_after = plan((uint32_t)nops + 1);
  if (!oneway) { fault = 1 + plan(3); } else if (chan == 2) { fault = (int[]){1, 3, 8}[plan(3)]; victim = 0; } else { fault = (int[]){1, 3, 4, 5, 6, 7, 9, 9}[plan(8)]; victim = fault == 9; }
  uint64_t when = 1 + log_uniform(S_FAULT, plan(2) ? 300 : 5000); knobs.bb_budget = 2000000000; if (fault == 1 || fault == 2) at_step(when, do_fault);
  sample("%s, %s, sessions=%u operations=%zu ANDs<=%zu reveals=%zu", cn[chan], fn[fault], ns, nops, ands, revs);
  RunResult r = R_DONE; std::string a, b; int64_t cap = 1 + plan(500);
  uint32_t attempts = fault == 9 ? 1 + plan(3) : 0, &left = attempts; std::vector<Ideal> saved; std::string tape;
  for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002; c.sigpipe_ignored = ign[i];
    if (oneway && i == 0) { if (fault == 4) disk.cfg.capacity = log_uniform(S_FAULT, 60000); if (fault == 5) { disk.cfg.fail_after = log_uniform(S_FAULT, 30); disk.cfg.fail_mask = 2 | 4 | 8; disk.cfg.fail_errno = 5; disk.cfg.sticky = plan(2); } }
    if (oneway && i == 1) {
      disk.cfg.capacity = ~0ULL; disk.cfg.fail_after = -1; fired |= disk.faults > 0; auto it = disk.files.find("/sim/tape");
      if (fault == 6) { disk.cfg.fail_after = log_uniform(S_FAULT, 30); disk.cfg.fail_mask = 1; disk.cfg.fail_errno = 5; disk.cfg.sticky = plan(2); }
      if (fault == 7 && it != disk.files.end()) { size_t n = it->second->data.size(), cut = n ? plan((uint32_t)n) : 0; if (cut < n) { it->second->data.resize(cut); fired = true; probe("fault:tape-cut"); } }
    }
    if (fault == 9 && i == 1 && attempts > 0) { if (plan(3) == 0) { disk.cfg.fail_after = log_uniform(S_FAULT, 30); disk.cfg.fail_mask = 1; disk.cfg.fail_errno = 5; } else at_step(steps() + 1 + log_uniform(S_FAULT, 300), [attempts, &left] { if (left == attempts && P[1] && P[1]->alive()) { probe("fault:party-killed"); kill_proc(P[1], 9); } }); }
    P[i] = spawn_proc(c, [i, cap] { const char *ad = i == server ? nullptr : "10.0.0.1";
      if (chan == 0) { NetIO io(ad, 12345, true); party(io, i); } else if (chan == 1) { HighSpeedNetIO io(ad, 12345, 12346, true); party(io, i); } else if (chan == 3) { FileIO io("/sim/tape", i == 1); party(io, i); }
      else { if (!i) { Harness h; mem = std::make_shared<FlushMem>(cap); }
        if (i == 0 && fault == 8) { { Harness h; alloc_cfg.fail_armed = true; alloc_cfg.fail_after = log_uniform(S_FAULT, 3000); alloc_cfg.fail_task = cur()->id; } uint64_t before = alloc_cfg.failed; bool threw = false; try { party(*mem, i); } catch (const std::bad_alloc &) { threw = true; } Harness h; alloc_cfg.fail_armed = false; alloc_cfg.fail_task = -1; CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; if (alloc_cfg.failed > before) { fired = true; probe("fault:allocation-failure"); } if (threw) exit(5); }
        else party(*mem, i); } });
    if (oneway) { r = run_world(); if (r != R_DONE) break; }
    if (fault == 9 && i == 0) { for (auto &s : S) saved.push_back(s->id); tape = disk.files["/sim/tape"]->data; }
    if (fault == 9 && i == 1) {
      if (disk.files["/sim/tape"]->data != tape) fail("tape-changed", "evaluating a stored session changes it");
      if (P[1]->failed()) { fired = true; probe("fault:evaluator-restarted"); }
      if (attempts-- > 0) { if (!P[1]->failed()) check_complete(1); finished[1] = false; for (size_t k = 0; k < S.size(); k++) { S[k]->id = saved[k]; S[k]->out[1].clear(); } i = 0; }   // start the evaluator again
    }
  }
  if (!oneway) r = run_world();
  describe(P[0], a); if (P[1]) describe(P[1], b); if (fault == 6) fired = disk.faults > 0;
  set_nontrivial(fired && ands > 0);
  if (r == R_BUDGET) fail("no-progress", "%s, %s: a party keeps making system calls without end (%s; %s)", cn[chan], fn[fault], a.c_str(), b.c_str());
  if (r == R_DEADLOCK) fail("hang", "%s, %s: a party waits for ever (%s; %s) blocked: %s", cn[chan], fn[fault], a.c_str(), b.c_str(), blocked_report().c_str());
  for (int i = 0; i < 2; i++) if (P[i]) {
    if (P[i]->state == P_KILLED && (P[i]->status == 11 || P[i]->status == 7)) fail("crash", "%s, %s: %s crashes", cn[chan], fn[fault], P[i]->cfg.name.c_str());
    if (!fired && P[i]->state != P_DONE) fail("unexpected-exit", "%s: a party fails although nothing happened (%s; %s)", cn[chan], a.c_str(), b.c_str());
    if (P[i]->state == P_DONE && P[i]->write_errors) fail("write-error-ignored", "%s, %s: %s ends successfully although a write failed", cn[chan], fn[fault], P[i]->cfg.name.c_str());
    if (P[i]->state == P_DONE) check_complete(i);
    if (fault == 9 && P[i]->state != P_DONE) fail("no-recovery", "%s: the stored session is intact but the restarted evaluator fails (%s; %s)", cn[chan], a.c_str(), b.c_str());
    if (P[i]->state == P_EXITED && P[i]->status == 0) fail("silent-failure", "%s, %s: %s ends with status 0 in the middle of the computation", cn[chan], fn[fault], P[i]->cfg.name.c_str());
  }
}
