// C01: NetIO is an exact ordered byte stream.
#include "conv.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C01";
void scenario_main() {
  pick_policy();
  conv::GenCfg g; conv::generate(g);
  int server = plan(2); bool quiet = plan(2) == 0; bool delay[2] = {plan(2) == 1, plan(2) == 1};
  knobs.bb_budget = 50000000;
  std::vector<Proc *> ps(2);
  for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = (i == server) ? 0x0a000001 : 0x0a000002; bool d = delay[i];
    ps[i] = spawn_proc(c, [i, server, quiet, d] { if (d) usleep(5000); NetIO io(i == server ? nullptr : "10.0.0.1", 12345, quiet); conv::run_party(io, i, false); });
  }
  RunResult r = run_world();
  expect_all_done(r, ps, "conversation over the TCP channel");
  conv::check_all_received();
}
