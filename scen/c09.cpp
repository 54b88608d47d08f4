// C09 / C10: garbled execution of random programs equals their value in the clear.
#include "gc.h"
using namespace sim; using namespace emp; using namespace gc;
#ifdef PRIVFREE
const char *scenario_property = "C10";
template <class IO> using Gen_ = PrivacyFreeGen<IO>; template <class IO> using Eva_ = PrivacyFreeEva<IO>; static const bool PF = true;
#else
const char *scenario_property = "C09";
template <class IO> using Gen_ = HalfGateGen<IO>; template <class IO> using Eva_ = HalfGateEva<IO>; static const bool PF = false;
#endif
namespace {
struct Sess { Prog p; int garbler; int otmode; bool auth; uint64_t ff = 0; bool rekey = false; Ideal id; std::vector<std::string> out[2]; };
std::vector<std::unique_ptr<Sess>> S; int chan, server; bool oneway; std::shared_ptr<FlushMem> shared_mem;
template <typename IO> void party(IO &io, int me) {
  for (auto &sp : S) {
    Sess &s = *sp; bool g = me == s.garbler; int who = g ? ALICE : BOB; Hooks hk; hk.flush = [&] { io.flush(); };
    std::unique_ptr<CircuitExecution> ce; block delta = zero_block;
    if (g) { auto *x = new Gen_<IO>(&io); if (s.rekey) x->set_delta(makeBlock(hash64(s.id.seed, 77), hash64(s.id.seed, 78))); delta = x->delta; s.id.delta = delta; s.id.have_delta = true; if (s.ff) forward_to(x, PF ? s.ff : 2 * s.ff, 0); ce.reset(x); } else { auto *x = new Eva_<IO>(&io); if (s.rekey) x->set_delta(); if (s.ff) forward_to(x, PF ? s.ff : 2 * s.ff, 0); ce.reset(x); }
    StubProt<IO> pr(&io, g, PF, oneway, s.otmode, s.auth, delta, &s.id);
    CircuitExecution::circ_exec = ce.get(); ProtocolExecution::prot_exec = &pr;
    execute(s.p, who, s.out[g ? 0 : 1], hk);
    CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
  }
}
}
void scenario_main() {
  chan = plan(8); chan = chan < 4 ? 0 : chan < 6 ? 1 : chan - 4; oneway = chan >= 2; server = plan(2); on_proc_switch = swap_statics;
  uint32_t ns = 1 + (plan(4) == 0 ? plan(3) : 0); size_t ands = 0, nops = 0, ins = 0, revs = 0; bool nonv = false;
  bool big = plan(10) == 0;
  for (uint32_t i = 0; i < ns; i++) {
    S.emplace_back(new Sess()); Sess &s = *S.back(); GenCfg g; g.oneway = oneway; g.max_and = big ? 40000 : 4000; g.floats = plan(3) == 0; g.circuits = plan(12) == 0; g.mid_reveal = true; g.wide = plan(6) == 0; if (plan(5) == 0) { g.only_bits = true; }
    Gen gen(s.p, g, i + 1); if (i == 0 && plan(200) == 0) { gen.g.keccak = true; gen.circuit(); gen.g.keccak = false; } gen.run(1 + log_uniform(S_PLAN, big ? 80 : 30));
    s.garbler = oneway ? 0 : plan(2); s.otmode = plan(2); s.auth = PF || plan(2); s.id.seed = hash64(i, plan(1 << 16)); if (plan(6) == 0) { s.ff = pick_ff(PF); probe("case:long-session"); } s.rekey = plan(8) == 0; if (s.rekey) probe("case:offset-set");
    ands += s.p.approx_and; nops += s.p.ops.size(); ins += s.p.inputs; revs += s.p.reveals; if (s.p.approx_and && s.p.reveals) nonv = true;
    { Harness h; std::vector<std::string> o; PlainScope ps; execute(s.p, 0, o, Hooks()); if (o != s.p.out) { size_t k = 0; while (k < o.size() && o[k] == s.p.out[k]) k++; fail("plaintext-value", "the plaintext back end reveals %s instead of %s (reveal %zu)", o[k].c_str(), s.p.out[k].c_str(), k); } }
  }
  pick_policy(); pick_net(ands * (PF ? 16 : 32) + 20000); if (net_cfg.capacity < 4096) net_cfg.capacity = 4096; disk.cfg.short_rd = plan(2) ? 3 : 0; disk.cfg.short_wr = plan(2) ? 3 : 0;
  static const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO", "FileIO"};
  sample("channel=%s sessions=%u operations=%zu inputs=%zu ANDs<=%zu reveals=%zu", cn[chan], ns, nops, ins, ands, revs); set_nontrivial(nonv);
  knobs.bb_budget = 2000000000; std::vector<Proc *> ps; RunResult r;
  if (!oneway) {
    for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002;
      ps.push_back(spawn_proc(c, [i] { const char *a = i == server ? nullptr : "10.0.0.1"; if (chan == 0) { NetIO io(a, 12345, true); party(io, i); } else { HighSpeedNetIO io(a, 12345, 12346, true); party(io, i); } })); }
    r = run_world();
  } else {
    // one way: the garbler's messages are stored and consumed later by the evaluator
    int64_t cap = 1 + plan(5000);
    for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; ps.push_back(spawn_proc(c, [i, cap] { if (chan == 2) { if (!i) shared_mem = std::make_shared<FlushMem>(cap); party(*shared_mem, i); } else { FileIO io("/sim/tape", i == 1); party(io, i); } })); r = run_world(); if (ps[i]->state != P_DONE) break; }
  }
  expect_all_done(r, ps, "garbled execution");
  for (size_t i = 0; i < S.size(); i++) {
    Sess &s = *S[i];
    for (int q = 0; q < 2; q++) {
      if (oneway && q == 0) continue;
      if (s.out[q].size() != s.p.out.size()) fail("missing-output", "%zu of %zu outputs", s.out[q].size(), s.p.out.size());
      for (size_t k = 0; k < s.out[q].size(); k++) if (s.out[q][k] != "-" && s.out[q][k] != s.p.out[k]) fail("wrong-result", "session %zu: the %s is revealed %s instead of %s (reveal %zu of %zu)", i, q ? "evaluator" : "garbler", s.out[q][k].c_str(), s.p.out[k].c_str(), k, s.p.out.size());
    }
    if (s.id.rev_gen.size() != s.id.rev_eva.size()) fail("missing-output", "parties revealed different numbers of wires");
    for (size_t k = 0; k < s.id.rev_gen.size(); k++) { block x = s.id.rev_gen[k] ^ s.id.rev_eva[k], y = x ^ s.id.delta; if (!_mm_testz_si128(x, x) && !_mm_testz_si128(y, y)) fail("invalid-label", "session %zu: the evaluator's label of revealed wire %zu is neither of the garbler's two labels", i, k); }
  }
}
