// C04: connection establishment and clean-up.
#include "conv.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C04";
namespace {
struct Ch { bool hs; int port[2]; int server; };     // one logical channel between process 0 and 1
struct Round { std::vector<Ch> ch; bool threaded; };
std::vector<Round> rounds; int nsync; uint32_t decoy_rate;
struct Decoy { int fd; uint64_t seq; };
std::vector<Decoy> decoys[4];
std::map<uint64_t, int> sync_in[2];
void maybe_decoy(Proc *p) { if (decoy_rate && plan(4) < decoy_rate) { Harness h; int fd = open_decoy(p); decoys[p->id].push_back({fd, fd_seq(p, fd)}); } }
// unrelated code of the process that keeps opening descriptors while channels come and go
void churn(Proc *p, uint32_t n) { while (n--) { usleep(100 + 300 * (n % 5)); Harness h; int fd = open_decoy(p); decoys[p->id].push_back({fd, fd_seq(p, fd)}); } }
template <typename IO> void talk(IO &io, int me, uint64_t id) {
  uint64_t tok = hash64(id, me), want = hash64(id, 1 - me), got = 0;
  io.counter = 0;
  for (int k = 0; k < 2; k++) {
    if ((me ^ k) == 0) { io.send_data(&tok, 8); if (std::is_same<IO, HighSpeedNetIO>::value) {} }
    else { io.recv_data(&got, 8); if (got != want) fail("wrong-peer", "channel %llu is connected to the wrong endpoint", (unsigned long long)id); }
  }
  if (std::is_same<IO, NetIO>::value) for (int k = 0; k < nsync; k++) {
    sync_in[me][id]++; int mine = sync_in[me][id]; io.sync();
    if (sync_in[1 - me][id] < mine) fail("sync-no-barrier", "sync returned although the peer has not entered it");
  }
}
void one(const Ch &c, int me, uint64_t id) {
  const char *addr = me == c.server ? nullptr : "10.0.0.1";
  if (c.hs) { HighSpeedNetIO io(addr, c.port[0], c.port[1], true); talk(io, me, id); maybe_decoy(cur_proc()); }
  else { NetIO io(addr, c.port[0], true); talk(io, me, id); maybe_decoy(cur_proc()); }
}
void party(int me, uint64_t delay_us, uint32_t nchurn) {
  if (delay_us) usleep(delay_us);
  Proc *p = cur_proc(); Task *ct = nullptr;
  if (nchurn) ct = spawn_task(p, [p, nchurn] { churn(p, nchurn); });
  uint64_t id = 1;
  for (auto &r : rounds) {
    maybe_decoy(p);
    if (!r.threaded) for (auto &c : r.ch) one(c, me, id++);
    else {
      std::vector<Task *> ts; for (auto &c : r.ch) { uint64_t i = id++; const Ch *cp = &c; ts.push_back(spawn_task(p, [cp, me, i] { one(*cp, me, i); })); }
      block_until("join", [ts] { for (auto *t : ts) if (!t->finished) return false; return true; });
    }
  }
  if (ct) block_until("join", [ct] { return ct->finished; });
  // every socket the channels opened must be closed now
  Harness h; size_t left = open_fd_count(p);
  if (left) fail("descriptor-leak", "%zu sockets are still open after all channels were destroyed", left);
}
void normal() {
  uint32_t nr = 1 + plan(3); int port = plan(3) == 0 ? 65535 : plan(2) ? 1 : 20000; bool reuse_port = plan(2); size_t nch = 0;
  int nextp = 30000;
  for (uint32_t i = 0; i < nr; i++) {
    Round r; r.threaded = plan(2); uint32_t k = 1 + plan(3);
    for (uint32_t j = 0; j < k; j++) {
      Ch c; c.hs = plan(2); c.server = 0; for (int q = 0; q < 2; q++) c.port[q] = (reuse_port && j == 0 && q == 0) ? port : nextp++; r.ch.push_back(c); nch++; }
    rounds.push_back(r);
  }
  nsync = plan(3); decoy_rate = plan(3);
  uint64_t delay[2] = {0, 0}; switch (plan(4)) { case 0: break; case 1: delay[0] = 1 + plan(20000); break; case 2: delay[1] = 1 + plan(20000); break; case 3: delay[0] = log_uniform(S_PLAN, 300000); delay[1] = log_uniform(S_PLAN, 300000); break; }
  if (plan(60) == 0) delay[0] = 1000000 + log_uniform(S_PLAN, 30000000);   // the server comes up much later
  uint32_t nch0 = plan(12), nch1 = plan(12);
  pick_net(4096); net_cfg.connect_fail = plan(3) == 0 ? 2 + plan(6) : 0; net_cfg.accept_fail = plan(3) == 0 ? 2 + plan(4) : 0;
  net_cfg.stall_max = 50000000;
  if (net_cfg.latency > 10000000 && net_cfg.connect_fail == 2) net_cfg.connect_fail = 4;
  uint32_t sockfail = plan(4) == 0 ? 2 + plan(5) : 0;
  sample("rounds=%u channels=%zu sync=%d start delays=%llu/%lluus decoys=%u churn=%u/%u reuse-port=%d(%d) connect-fail=%u accept-fail=%u socket-fail=%u", nr, nch, nsync, (unsigned long long)delay[0], (unsigned long long)delay[1], decoy_rate, nch0, nch1, (int)reuse_port, port, net_cfg.connect_fail, net_cfg.accept_fail, sockfail);
  set_nontrivial(true);
  std::vector<Proc *> ps;
  for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "client" : "server"; c.ip = i ? 0x0a000002 : 0x0a000001; if (i) c.socket_fail = sockfail; c.no_stdin = plan(6) == 0; uint64_t d = delay[i]; uint32_t ch = i ? nch1 : nch0;
    ps.push_back(spawn_proc(c, [i, d, ch] { party(i, d, ch); }));
  }
  RunResult r = run_world();
  expect_all_done(r, ps, "opening and closing channels");
  for (auto *p : ps) {
    if (p->bad_closes) fail("double-close", "%s: %s", p->cfg.name.c_str(), p->bad_close_note.c_str());
    if (p->foreign_closes) fail("foreign-close", "%s: %s", p->cfg.name.c_str(), p->bad_close_note.c_str());
  }
}
void bad_ports() {
  static const int bad[] = {-1, 65536, -2147483647 - 1, 2147483647, 70000, -65535, 131072, 65537};
  int which = plan(3), v = bad[plan(8)], ok = 1 + plan(65534); bool server = plan(2); static bool threw = false; threw = false;
  sample("out-of-range port %d as argument %d of %s", v, which, which == 0 ? "NetIO" : "HighSpeedNetIO"); set_nontrivial(true); probe("case:bad-port");
  ProcCfg c; c.name = "party"; c.ip = 0x0a000001; const char *a = server ? nullptr : "10.0.0.1";
  pick_net(100);
  Proc *p = spawn_proc(c, [=] {
    try { if (which == 0) NetIO io(a, v, true); else if (which == 1) HighSpeedNetIO io(a, v, ok, true); else HighSpeedNetIO io(a, ok, v, true); }
    catch (const std::exception &) { threw = true; }
    if (!threw) fail("bad-port-accepted", "port %d is accepted", v);
    if (g_socket_calls) fail("bad-port-socket", "a socket is used although the port %d is out of range", v);
  });
  at(50000000ULL, [p] { if (p->alive()) { kill_proc(p, 9); } });
  RunResult r = run_world();
  if (!threw) fail("bad-port-accepted", "the channel does not reject port %d with an exception", v);
  expect_all_done(r, {p}, "constructor with a bad port");
}
void acquire_fails() {
  bool hs = plan(2); int kind = plan(4); int second = plan(2); set_nontrivial(true);
  sample("%s server: %s", hs ? "HighSpeedNetIO" : "NetIO", kind == 0 ? "bind fails" : kind == 1 ? "listen fails" : kind == 2 ? "accept fails for good" : "port already taken");
  pick_net(100);
  net_cfg.accept_fail = kind == 0 ? 999001 : kind == 1 ? 999002 : kind == 2 ? 999003 : 0;
  static bool constructed; constructed = false;
  ProcCfg o; o.name = "other"; o.ip = 0x0a000001; Proc *other = nullptr;
  if (kind == 3) { probe("fault:port-taken"); other = spawn_proc(o, [=] { NetIO io(nullptr, hs && second ? 4001 : 4000, true); }); at(300000000ULL, [other] { kill_proc(other, 9); }); }
  ProcCfg c; c.name = "server"; c.ip = 0x0a000001;
  Proc *p = spawn_proc(c, [=] {
    if (kind == 3) usleep(10000);
    try { if (hs) { HighSpeedNetIO io(nullptr, 4000, 4001, true); constructed = true; } else { NetIO io(nullptr, 4000, true); constructed = true; } }
    catch (const std::exception &) { exit(1); } });
  ProcCfg k; k.name = "client"; k.ip = 0x0a000002;
  Proc *cl = spawn_proc(k, [=] { if (kind == 3) usleep(20000); 
    if (kind == 3) { if (hs && second) { NetIO io("10.0.0.1", 4000, true); sleep(1); } return; }    // never reaches the other owner of the port
    if (hs) { HighSpeedNetIO io("10.0.0.1", 4000, 4001, true); } else NetIO io("10.0.0.1", 4000, true); });
  at(200000000ULL, [cl] { kill_proc(cl, 9); });
  at(250000000ULL, [p] { if (p->alive()) { fail("acquire-failure-hang", "the server neither connects nor terminates after its port could not be acquired"); } });
  RunResult r = run_world(); (void)r;
  std::string d; describe(p, d);
  if (constructed) fail("continues-without-connection", "server continues although its port or connection could not be acquired");
  if (!p->failed()) fail("acquire-failure-ignored", "server does not end with a failure status (%s)", d.c_str());
  if (p->state == P_KILLED && p->status == 11) fail("acquire-failure-crash", "server crashes (%s)", d.c_str());
}
// descriptors or memory run out between establishing the connection and setting up its streams
void stream_fails() {
  bool hs = plan(2); int who = plan(2), nth = plan(hs ? 2 : 3); set_nontrivial(true); pick_net(4096); static bool through[2]; through[0] = through[1] = false; nsync = 0;
  sample("%s: stream set-up step %d of the %s fails", hs ? "HighSpeedNetIO" : "NetIO", nth, who ? "client" : "server");
  std::vector<Proc *> ps;
  for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "client" : "server"; c.ip = i ? 0x0a000002 : 0x0a000001; if (i == who) c.stream_fail = nth;
    ps.push_back(spawn_proc(c, [=] { const char *a = i ? "10.0.0.1" : nullptr; try { if (hs) { HighSpeedNetIO io(a, 4000, 4001, true); talk(io, i, 1); } else { NetIO io(a, 4000, true); talk(io, i, 1); } through[i] = true; } catch (const std::exception &) { exit(1); } })); }
  RunResult r = run_world(); std::string all, d; for (auto *p : ps) { all += describe(p, d); all += "; "; }
  if (!g_stream_failed) { expect_all_done(r, ps, "opening a channel"); return; }
  if (r != R_DONE) fail("stream-failure-hang", "a party whose streams cannot be set up, or its peer, does not end (%s)", all.c_str());
  if (ps[who]->state == P_KILLED && ps[who]->status != 6) fail("stream-failure-crash", "the %s crashes when its streams cannot be set up (%s)", who ? "client" : "server", all.c_str());
  if (!ps[who]->failed() && !through[0] && !through[1]) fail("stream-failure-ignored", "the %s ends successfully without a working channel (%s)", who ? "client" : "server", all.c_str());
}
}
void scenario_main() {
  pick_policy(); knobs.bb_budget = 50000000; decoy_rate = 0;
  switch (plan(9)) { case 8: stream_fails(); break; case 6: bad_ports(); break; case 7: acquire_fails(); break; default: normal(); }
}
