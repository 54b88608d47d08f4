// C05: fail-stop when the peer dies, closes early or the connection is reset.
#include "conv.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C05";
namespace {
int server, fault, victim; bool hs; bool connected[2]; bool fired; Proc *P[2]; uint32_t reset_sel;
template <typename IO> void party(int me, IO &io) { connected[me] = true; conv::run_party(io, me, true); if (fault == 4 && me == victim) exit(3); }
void do_fault() {
  if (!connected[0] || !connected[1]) { at_step(steps() + 3, do_fault); return; }
  if (!P[0]->alive() && !P[1]->alive()) return;
  fired = true;
  if (fault == 0) { if (P[victim]->alive()) { probe("fault:peer-killed"); kill_proc(P[victim], 9); } }
  else if (fault == 1) { size_t i = 0; for (auto &c : conns()) if (c->established[1] && !(c->closed[0] && c->closed[1])) { if (reset_sel == 2 || i == reset_sel % 2 || !hs) { probe("fault:connection-reset"); trace("network resets connection %d", c->id); reset_conn(c.get()); } i++; } }
}
}
void scenario_main() {
  pick_policy(); hs = plan(2); conv::GenCfg g; g.max_calls = 8192; g.highspeed = hs; g.allow_pipeline = !hs; g.max_vol = 2000000; g.allow_oob = false; conv::generate(g);
  server = plan(2); fault = plan(5); victim = plan(2); reset_sel = plan(3); bool ign[2] = {plan(2) == 1, plan(2) == 1};
  bool last_only = false;
  if (plan(NETWORK_BUFFER_SIZE > 100000 ? 24 : 4) == 0) {   // the survivor's last message is larger than the stream's buffer: it fails inside a write, not in a flush
    conv::Msg m; m.kind = 0; m.dir = 1 - victim; m.id = 4711; m.flush = m.oob = false; m.len = plan(2) ? NETWORK_BUFFER_SIZE * (1 + plan(NETWORK_BUFFER_SIZE > 100000 ? 3 : 30)) : NETWORK_BUFFER_SIZE + plan((NETWORK_BUFFER_SIZE > 100000 ? 2 : 20) * NETWORK_BUFFER_SIZE); m.ssplit = split(m.len, 4); m.rsplit = split(m.len, 4);
    int k = (int)conv::S.msgs.size(); conv::S.msgs.push_back(m); conv::S.got.push_back(0); conv::S.got_bytes.push_back(0); conv::S.vol[m.dir] += m.len; conv::S.volume += m.len; conv::S.prog[m.dir].push_back({conv::Op::SEND, k}); conv::S.prog[victim].push_back({conv::Op::RECV, k}); if (!hs && conv::S.mode != 2 && plan(2)) net_cfg.capacity = std::min<size_t>(net_cfg.capacity, 4096 + plan(8192)); probe("case:large-last-message"); if (!hs && plan(2)) { fault = 2; ign[1 - victim] = true; last_only = plan(2); } }
  knobs.bb_budget = 6000000; fired = false; connected[0] = connected[1] = false;
  uint64_t when = 1 + log_uniform(S_FAULT, plan(2) ? 400 : 6000);
  if (fault == 2 && hs) fault = 4;       // an orderly close of the dual-socket channel is a flush, which must be mirrored
  if (fault == 2 || fault == 4) { auto &pr = conv::S.prog[victim]; size_t k = last_only ? pr.size() - 1 : plan(pr.size() + 1); if (k < pr.size()) { probe(fault == 2 ? "fault:peer-closes-early" : "fault:peer-exits"); fired = true; } pr.resize(k); }
  if (fault == 3) { net_cfg.eintr = 2 + plan(20); }
  if (fault < 2) at_step(when, do_fault);
  for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = (i == server) ? 0x0a000001 : 0x0a000002; c.sigpipe_ignored = ign[i];
    P[i] = spawn_proc(c, [i] { const char *a = i == server ? nullptr : "10.0.0.1";
      if (hs) { HighSpeedNetIO io(a, 12345, 12346, true); party(i, io); } else { NetIO io(a, 12345, true); party(i, io); } });
  }
  RunResult r = run_world();
  std::string a, b; describe(P[0], a); describe(P[1], b);
  static const char *fn[] = {"peer killed", "connection reset", "peer closes early", "interrupted reads", "peer exits"};
  sample("%s, %s at step %llu, victim %d, messages=%zu bytes=%zu outcome: %s / %s", hs ? "HighSpeedNetIO" : "NetIO", fn[fault], (unsigned long long)when, victim, conv::S.msgs.size(), conv::S.volume, a.c_str(), b.c_str());
  set_nontrivial(fired || fault == 3);
  if (r == R_BUDGET) fail("no-progress", "%s after %s: a party keeps making system calls without end (%s; %s)", hs ? "HighSpeedNetIO" : "NetIO", fn[fault], a.c_str(), b.c_str());
  if (r == R_DEADLOCK) fail("hang", "%s after %s: a party waits for ever (%s; %s) blocked: %s", hs ? "HighSpeedNetIO" : "NetIO", fn[fault], a.c_str(), b.c_str(), blocked_report().c_str());
  for (int i = 0; i < 2; i++) {
    if (P[i]->state == P_DONE && P[i]->write_errors) fail("write-error-ignored", "%s: %s ends successfully although a write failed and its data was never delivered", hs ? "HighSpeedNetIO" : "NetIO", P[i]->cfg.name.c_str());
    if (P[i]->state == P_KILLED && (P[i]->status == 11 || P[i]->status == 7)) fail("crash", "%s crashes after %s", P[i]->cfg.name.c_str(), fn[fault]);
  }
  if (!fired && fault != 3 && fault != 4) { for (int i = 0; i < 2; i++) if (P[i]->state != P_DONE) fail("unexpected-exit", "a party fails although nothing happened (%s; %s)", a.c_str(), b.c_str()); conv::check_all_received(); }
  // a party that ends successfully has received every message its program awaits
  for (int i = 0; i < 2; i++) if (P[i]->state == P_DONE) for (auto &o : conv::S.prog[i]) if (o.k == conv::Op::RECV && !conv::S.got[o.m]) fail("skipped", "party ends successfully without message %d", o.m);
}
