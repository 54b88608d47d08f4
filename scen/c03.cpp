// C03: typed messages decode to what was sent.
#define C03_IMPL bmi
#include "c03_party.h"
using namespace sim;
const char *scenario_property = "C03";
namespace c03 { Shared G; void party_a(int me) { bmi::party(me); } void local_party() { bmi::local(); } }
void scenario_main() {
  using namespace c03;
  pick_policy();
  G.chan = plan(5); G.server = plan(2); int build[2] = {(int)plan(2), (int)plan(2)};
  bool net = G.chan < 2;
  uint32_t n = 1 + plan(10); size_t vol = 0; bool large = plan(150) == 0;
  for (uint32_t i = 0; i < n; i++) {
    Msg m; m.dir = net ? plan(2) : 0; m.id = hash64(i, plan(1 << 16)); m.align_s = plan(16); m.align_r = plan(16); m.pre = 0;
    switch (plan(12)) {
      case 0: case 1: case 2: m.kind = BOOLS; m.n = plan(3) ? plan(80) : log_uniform(S_PLAN, 3000); break;
      case 3: case 4: m.kind = BOOLS; m.n = plan(20); break;
      case 5: m.kind = BOOLS_ALIGNED; m.n = plan(3) ? plan(80) : log_uniform(S_PLAN, 3000); break;
      case 6: case 7: m.kind = BLOCKS; m.n = plan(2) ? plan(20) : log_uniform(S_PLAN, 20000); break;
      case 8: m.kind = POINTS; m.n = plan(5); break;
      case 9: m.kind = net ? KEX : POINTS; m.n = 1; break;
      default: m.kind = RAW; m.n = log_uniform(S_PLAN, 5000); break;
    }
    if (large && i == n / 2) { uint32_t z = plan(6); if (z < 2) { m.kind = plan(2) ? BOOLS : BOOLS_ALIGNED; m.n = (z ? 65536 : 524288) - 20 + plan(60); } else if (z < 4) { m.kind = BLOCKS; m.n = 65536 - 2 + plan(6); } else { m.kind = POINTS; m.n = 254 + plan(6); } }
    uint32_t left = m.n; uint32_t parts = plan(4); while (parts-- && left) { uint32_t k = plan(left + 1); m.parts.push_back(k); left -= k; } m.parts.push_back(left);
    vol += (m.kind == BLOCKS ? 16 : 1) * m.n + 100; G.msgs.push_back(m);
  }
  pick_net(vol + (G.chan == 1 ? n * 32768 : 0));
  disk.cfg.short_rd = plan(2) ? 2 : 0; disk.cfg.short_wr = plan(2) ? 2 : 0;
  set_nontrivial(vol > n * 100);
  static const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO", "FileIO+rewind", "FileIO+reopen"};
  sample("channel=%s messages=%u builds=%s/%s bytes~%zu", cn[G.chan], n, build[0] ? "noBMI2" : "BMI2", build[1] ? "noBMI2" : "BMI2", vol);
  knobs.bb_budget = 100000000;
  std::vector<Proc *> ps;
  if (net) for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = (i == G.server) ? 0x0a000001 : 0x0a000002; int b = build[i];
    ps.push_back(spawn_proc(c, [i, b] { if (b) party_b(i); else party_a(i); }));
  } else { ProcCfg c; c.name = "alice"; ps.push_back(spawn_proc(c, [] { local_party(); })); }
  RunResult r = run_world();
  expect_all_done(r, ps, "typed conversation");
  for (uint32_t i = 0; i < n; i++) if (!G.got[i]) fail("lost", "message %u never received", i);
  std::set<std::string> keys;
  for (uint32_t i = 0; i < n; i++) if (G.msgs[i].kind == KEX) {
    if (G.kpt[0][i] != G.kpt[1][i]) fail("kex-points-differ", "the parties derive different shared points in exchange %u", i);
    if (G.kdf[0][i] != G.kdf[1][i]) fail("kex-keys-differ", "the parties derive different keys from the same point in exchange %u", i);
    if (!keys.insert(G.kdf[0][i].substr(0, 16)).second || !keys.insert(G.kdf[0][i].substr(16)).second) fail("kex-keys-repeat", "different points or ids derive the same key");
  }
}
