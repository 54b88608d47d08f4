// C16: objects used by different threads never interfere.
// Every job is first executed alone; then all jobs run concurrently in one process
// and must produce the same results, without data races.
#include "jobs.h"
const char *scenario_property = "C16";
void scenario_main() {
  uint32_t n = 2 + plan(4); bool same = plan(3) == 0; uint32_t k0 = plan(J_N); bool have_plain = false;
  for (uint32_t i = 0; i < n; i++) {
    U_.emplace_back(new Unit()); Unit &u = *U_.back(); u.idx = i; u.port = 20000 + 10 * i + plan(4); u.k = (JK)(same ? k0 : plan(J_N));
    if (!MT) { if (u.k == J_SESSION) u.k = J_PLAIN; if (u.k == J_PLAIN) { if (have_plain) u.k = (JK)plan(J_PLAIN); have_plain = true; } }
    plan_unit(u, i, 600, 40);
  }
  std::string d; for (auto &u : U_) { d += job_name[u->k]; d += " "; } sample("jobs: %s%s", d.c_str(), MT ? "(multi-threaded build)" : ""); set_nontrivial(true);
  for (auto &u : U_) probe((std::string("job:") + job_name[u->k]).c_str());
  bool mem = plan(5) != 0; pick_policy(); pick_net(20000); if (net_cfg.capacity < 65536) net_cfg.capacity = 65536; net_cfg.connect_fail = 0; knobs.bb_budget = 2000000000; knobs.step_budget = 3000000; disk.cfg.short_rd = plan(3) == 0 ? 4 : 0; disk.cfg.short_wr = plan(3) == 0 ? 4 : 0;
  std::vector<Proc *> ps; g_mem_preempt = false; on_proc_switch = swap_statics;
  for (auto &up : U_) {      // each job alone
    Unit &u = *up; ProcCfg c; c.name = "alone"; Proc *p = spawn_proc(c, [&u] { std::vector<std::thread> ts; start(ts, u); for (auto &t : ts) t.join(); }); RunResult r = run_world(); expect_all_done(r, {p}, "a job running alone");
    for (int s = 0; s < 2; s++) { u.want[s] = u.res[s]; u.res[s].clear(); }
    if (u.k == J_PLAIN || u.k == J_SESSION) for (int q = 0; q < sides(u); q++) { for (size_t k = 0; k < u.out[q].size(); k++) if (u.out[q][k] != "-" && u.out[q][k] != u.p.out[k]) fail("wrong-result", "a program running alone reveals %s instead of %s", u.out[q][k].c_str(), u.p.out[k].c_str()); u.out[q].clear(); }
    if (u.k == J_PLAIN) { u.want[1] = u.rec; u.rec.clear(); } u.id[0].rev_gen.clear(); u.id[0].rev_eva.clear(); u.id[1].rev_gen.clear(); u.id[1].rev_eva.clear();
  }
  g_mem_preempt = mem; knobs.step_budget += steps();
  ProcCfg c; c.name = "program"; Proc *p = spawn_proc(c, [&] { std::vector<std::thread> ts; for (auto &u : U_) start(ts, *u); for (auto &t : ts) t.join(); });
  RunResult r = run_world(); expect_all_done(r, {p}, "several threads, each with its own objects");
  for (auto &u : U_) { if (u->k == J_PLAIN) u->res[1] = u->rec; for (int s = 0; s < 2; s++) if (u->res[s] != u->want[s]) fail("interference", "job %d (%s) gives another result when other threads run their own jobs", u->idx, job_name[u->k]); }
}
