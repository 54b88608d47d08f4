// C11: traffic depends on the program only, and costs exactly the published amount.
#include "gcx.h"
using namespace sim; using namespace emp; using namespace gc;
const char *scenario_property = "C11";
namespace {
struct Side { std::vector<std::pair<bool, size_t>> log; uint64_t ands = 0, sent = 0, rcvd = 0; std::vector<uint64_t> and_at_op; };
struct Sess { Prog p[2]; bool pf; int garbler; int otmode; bool auth; uint64_t seed; };
std::vector<std::unique_ptr<Sess>> S; int chan, server, twin; bool oneway; std::shared_ptr<FlushMem> mem; std::vector<std::vector<Side>> R[2];  // [twin][session][side]
std::vector<std::unique_ptr<Ideal>> ideals;
template <typename T> void party(T &raw, int me) {
  for (size_t i = 0; i < S.size(); i++) {
    Sess &s = *S[i]; bool g = me == s.garbler; Side &sd = R[twin][i][g ? 0 : 1]; RecIO<T> io(&raw); io.keep = false; block delta = zero_block;
    auto ce = Roles<RecIO<T>>::make(s.pf, g, &io, delta); SpyExec spy(ce.get()); const uint64_t per = s.pf ? 16 : 32; bool pf = s.pf; uint64_t gs = 0, gr = 0;
    uint64_t s0 = io.nsent, r0 = io.nrcvd; bool inside = false; (void)inside;
    spy.traffic = [&](std::pair<uint64_t, uint64_t> &t) { s0 = io.nsent; r0 = io.nrcvd; t = {s0, r0}; };
    spy.after = [&, g, pf, per](SpyExec &x, int kind) {
      gs += io.nsent - s0; gr += io.nrcvd - r0;
      if (x.num_and() != x.ands) fail("and-count", "%s: the %s reports %lld AND gates after %lld", pf ? "privacy-free" : "half-gates", g ? "generator" : "evaluator", (long long)x.num_and(), (long long)x.ands);
    };
    if (ce->num_and() != 0) fail("and-count", "a new session reports %lld AND gates", (long long)ce->num_and());
    StubProt<RecIO<T>> pr(&io, g, s.pf, oneway, s.otmode, s.auth, delta, ideals[i].get());
    CircuitExecution::circ_exec = &spy; ProtocolExecution::prot_exec = &pr; Hooks hk; hk.flush = [&] { io.flush(); };
    hk.after = [&](int, const Op &) { sd.and_at_op.push_back(spy.in->num_and()); };
    std::vector<std::string> out; execute(s.p[twin], g ? ALICE : BOB, out, hk);
    if (g && (gs != per * spy.ands || gr != 0)) fail("gate-traffic", "%s: the generator sent %llu and received %llu bytes for %llu AND, %llu XOR and %llu NOT gates", pf ? "privacy-free" : "half-gates", (unsigned long long)gs, (unsigned long long)gr, (unsigned long long)spy.ands, (unsigned long long)spy.xors, (unsigned long long)spy.nots);
    if (!g && (gr != per * spy.ands || gs != 0)) fail("gate-traffic", "%s: the evaluator sent %llu and received %llu bytes for %llu AND gates", pf ? "privacy-free" : "half-gates", (unsigned long long)gs, (unsigned long long)gr, (unsigned long long)spy.ands);
    if (spy.in->num_and() != spy.ands) fail("and-count", "%s: %lld AND gates reported, %lld executed", pf ? "privacy-free" : "half-gates", (long long)spy.in->num_and(), (long long)spy.ands);
    sd.ands = spy.ands; sd.sent = io.nsent; sd.rcvd = io.nrcvd; for (auto &x : io.log) sd.log.push_back({x.out, x.n});
    CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
  }
}
std::vector<uint64_t> wire(size_t vol) {
  pick_policy(); pick_net(vol); if (net_cfg.capacity < 4096) net_cfg.capacity = 4096; R[twin].assign(S.size(), std::vector<Side>(2)); ideals.clear(); for (auto &s : S) { ideals.emplace_back(new Ideal()); ideals.back()->seed = s->seed + (twin ? 77 : 0); }
  std::vector<Proc *> ps; RunResult r;
  for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002;
    ps.push_back(spawn_proc(c, [i] { const char *a = i == server ? nullptr : "10.0.0.1"; if (chan == 0) { NetIO io(a, 12345, true); party(io, i); } else if (chan == 1) { HighSpeedNetIO io(a, 12345, 12346, true); party(io, i); } else { if (!i) mem = std::make_shared<FlushMem>(100); party(*mem, i); } }));
    if (oneway) r = run_world(); }
  if (!oneway) r = run_world();
  expect_all_done(r, ps, "garbled execution"); std::vector<uint64_t> w; std::vector<std::pair<int, uint64_t>> v;
  for (auto &c : conns()) { if (!c->established[1]) continue; for (int k = 0; k < 2; k++) v.push_back({c->sport * 2 + k, c->p[k].written}); } std::sort(v.begin(), v.end()); for (auto &x : v) w.push_back(x.second);
  return w;
}
}
void scenario_main() {
  chan = plan(5); chan = chan < 2 ? 0 : chan < 4 ? 1 : 2; oneway = chan == 2; server = plan(2); on_proc_switch = swap_statics;
  uint32_t ns = 1 + (plan(3) == 0 ? plan(3) : 0); size_t ands = 0, nops = 0, ins = 0; bool big = plan(12) == 0;
  for (uint32_t i = 0; i < ns; i++) {
    S.emplace_back(new Sess()); Sess &s = *S.back(); GenCfg g; g.oneway = oneway; g.max_and = big ? 20000 : 3000; g.floats = plan(4) == 0; g.only_bits = plan(3) == 0; g.wide = !g.only_bits && plan(5) == 0; s.pf = plan(2); s.garbler = oneway ? 0 : plan(2); s.otmode = plan(2); s.auth = s.pf || plan(2); s.seed = plan(1 << 16);
    Gen gen(s.p[0], g, i + 1); gen.run(1 + log_uniform(S_PLAN, 30)); s.p[1] = s.p[0]; uint64_t salt = plan(1 << 16);
    for (auto &o : s.p[1].ops) if (o.k == WIN && o.party != PUBLIC) { uint64_t c = ++salt; o.s = wide::rnd(o.w, hash64(c, 4) % 9, c); } else if ((o.k == BIN || o.k == IIN || o.k == FIN) && o.party != PUBLIC) { uint64_t c = ++salt; o.v = o.k == BIN ? hash64(c, 1) & 1 : o.k == FIN ? (U)(uint32_t)hash64(c, 2) : value_of(hash64(c, 3) % 9, c, o.w); }
    ands += s.p[0].approx_and; nops += s.p[0].ops.size(); ins += s.p[0].inputs;
  }
  static const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO"};
  knobs.bb_budget = 2000000000; set_nontrivial(ands > 0);
  twin = 0; auto w0 = wire(ands * 32 + 20000); mem.reset(); reset_world(); twin = 1; auto w1 = wire(ands * 32 + 20000);
  uint64_t tot = 0; for (auto &x : R[0]) tot += x[0].ands;
  sample("channel=%s sessions=%u operations=%zu inputs=%zu AND gates=%llu", cn[chan], ns, nops, ins, (unsigned long long)tot); probe("case:and-gates", tot);
  for (size_t i = 0; i < S.size(); i++) {
    for (int t = 0; t < 2; t++) if (R[t][i][0].ands != R[t][i][1].ands || R[t][i][0].and_at_op != R[t][i][1].and_at_op) fail("and-count", "generator and evaluator report different AND-gate counts in session %zu", i);
    for (int q = 0; q < 2; q++) {
      auto &a = R[0][i][q], &b = R[1][i][q];
      if (a.log != b.log) { size_t k = 0; while (k < a.log.size() && k < b.log.size() && a.log[k] == b.log[k]) k++; fail("input-dependent-traffic", "session %zu: the %s's transfers depend on input values (transfer %zu of %zu/%zu)", i, q ? "evaluator" : "generator", k, a.log.size(), b.log.size()); }
      if (a.and_at_op != b.and_at_op) fail("input-dependent-gates", "session %zu: the number of AND gates depends on input values", i);
    }
  }
  if (w0 != w1) fail("input-dependent-traffic", "bytes on the wire differ between two executions with different inputs (%llu/%llu)", (unsigned long long)(w0.empty() ? 0 : w0[0]), (unsigned long long)(w1.empty() ? 0 : w1[0]));
}
