// C08: MemIO is an exact FIFO.
#include "common.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C08";
namespace {
std::string model; size_t rp; uint64_t sent; int opn; bool expect_fail; uint32_t nops, allocs, loads, clears; bool returned;
template <typename F> bool guarded(bool inject, F f) {   // returns false if the call threw bad_alloc
  if (!inject) { f(); return true; }
  alloc_cfg.fail_armed = true; alloc_cfg.fail_after = plan(3) == 0 ? 1 : 0; uint64_t before = alloc_cfg.failed; bool thrown = false;
  try { f(); } catch (const std::bad_alloc &) { thrown = true; }
  alloc_cfg.fail_armed = false;
  if (alloc_cfg.failed > before && !thrown) fail("alloc-failure-hidden", "an allocation failed inside the channel but the call reports success");
  if (alloc_cfg.failed > before) allocs++;
  return !thrown;
}
void body(uint32_t ops, int64_t cap0, bool dflt) {
  std::unique_ptr<MemIO> iop(dflt ? new MemIO() : new MemIO(cap0)); MemIO &io = *iop;
  for (uint32_t i = 0; i < ops; i++) {
    nops++;
    switch (plan(10)) {
      case 0: case 1: case 2: case 3: {
        size_t n = plan(4) == 0 ? log_uniform(S_PLAN, 60000) : plan(3) ? log_uniform(S_PLAN, 300) : (size_t)std::max<int64_t>(0, cap0 - (int64_t)model.size() + (int64_t)plan(5) - 2);
        if (n > 200000) n = 200000;
        std::string s = Bytes::str(n, ++opn); bool inj = plan(6) == 0;
        if (guarded(inj, [&] { io.send_data(s.data(), n); })) { model += s; sent += n; if (io.counter != sent) fail("counter", "byte counter %llu after %llu bytes", (unsigned long long)io.counter, (unsigned long long)sent); } else sent = io.counter;
        break; }
      case 4: case 5: case 6: {
        size_t av = model.size() - rp, n = plan(3) ? (av ? plan((uint32_t)av + 1) : 0) : av; std::string s(n + 48, '\x22');
        io.recv_data(&s[0], n); for (size_t q = n; q < s.size(); q++) if (s[q] != '\x22') fail("overrun", "reading %zu bytes writes beyond the caller's buffer", n); if (s.compare(0, n, model, rp, n)) { size_t k = 0; while (s[k] == model[rp + k]) k++; fail("wrong-data", "byte %zu read differs from what was written (operation %u)", rp + k, i); } rp += n; break; }
      case 7: io.clear(); model.clear(); rp = 0; clears++; break;
      case 8: {
        size_t n = log_uniform(S_PLAN, 40000); std::string c = Bytes::str(n + plan(50), ++opn); size_t skip = 0;
        { FileIO w("/sim/src", false); w.send_data(c.data(), c.size()); }
        FileIO r("/sim/src", true); if (plan(2) && c.size() > n) { skip = c.size() - n; std::string x(skip, 0); r.recv_data(&x[0], skip); }
        bool inj = plan(5) == 0;
        if (guarded(inj, [&] { io.load_from_file(&r, n); })) { model = c.substr(skip, n); rp = 0; loads++; }
        break; }
      case 9: if (plan(4) == 0) {
        size_t n = model.size() - rp + 1 + log_uniform(S_PLAN, 3000); std::string s(n, '\x33'); expect_fail = true; probe("case:over-read");
        io.recv_data(&s[0], n);
        fail("over-read", "reading %zu bytes with %zu available reports success", n, model.size() - rp); }
        break;
    }
  }
  returned = true;
}
}
void scenario_main() {
  uint32_t ops = 1 + plan(20); int64_t cap0; bool dflt = plan(6) == 0; switch (plan(4)) { case 0: cap0 = plan(3); break; case 1: cap0 = log_uniform(S_PLAN, 64); break; default: cap0 = log_uniform(S_PLAN, 20000); } if (dflt) cap0 = 1024 * 1024;
  disk.cfg.short_rd = plan(2) ? 2 : 0; disk.cfg.short_wr = plan(2) ? 3 : 0; knobs.bb_budget = 8000000;
  model.clear(); rp = 0; sent = 0; opn = 0; expect_fail = returned = false; nops = allocs = loads = clears = 0;
  ProcCfg c; c.name = "party"; Proc *p = spawn_proc(c, [=] { try { body(ops, cap0, dflt); } catch (const std::exception &e) { if (expect_fail) exit(1); throw; } });
  RunResult r = run_world(); std::string d; describe(p, d);
  sample("operations=%u initial capacity=%lld loads=%u clears=%u allocation failures=%u %s", nops, (long long)cap0, loads, clears, allocs, d.c_str());
  set_nontrivial(opn > 0);
  if (r != R_DONE) fail("hang", "no progress");
  if (expect_fail && !p->failed()) fail("over-read", "program ends successfully after reading more than available (%s)", d.c_str());
  if (!expect_fail && p->state != P_DONE) fail("unexpected-exit", "program fails although nothing went wrong (%s)", d.c_str());
}
