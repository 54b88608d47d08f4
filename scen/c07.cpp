// C07: FileIO stores and returns exactly what was written, or fails loudly.
#include "common.h"
#include "emp-tool/io/file_io_channel.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C07";
namespace {
std::string model; bool exists; size_t pos; // what the file must contain, where the channel stands
std::string durable;                         // content promised by the last flush/close
bool writing_phase; int opn; bool expect_fail; bool any_overwrite; std::string doing;
void check_disk(const char *when) {
  auto it = disk.files.find("/sim/data"); if (it == disk.files.end()) fail("not-durable", "after %s the file does not exist", when);
  if (it->second->data != model) { size_t k = 0; auto &d = it->second->data; while (k < d.size() && k < model.size() && d[k] == model[k]) k++; fail("not-durable", "after %s the system holds %zu bytes instead of %zu (first difference at %zu)", when, d.size(), model.size(), k); }
  durable = model;
}
void do_write(FileIO &io, size_t n) {
  std::string s = Bytes::str(n, opn++); if (pos < model.size()) any_overwrite = true;
  doing = "write"; io.send_data(s.data(), n); if (s != Bytes::str(n, opn - 1)) fail("source-changed", "writing modified the caller's buffer");
  if (model.size() < pos + n) model.resize(pos + n); memcpy(&model[pos], s.data(), n); pos += n;
}
void do_read(FileIO &io, size_t n) {
  std::string s(n + 48, '\x11'); bool over = pos + n > model.size(); doing = "read";
  if (over) { expect_fail = true; probe("case:read-past-end"); }
  io.recv_data(&s[0], n);
  if (over) fail("over-read", "reading %zu bytes at offset %zu of a %zu-byte file reports success", n, pos, model.size());
  for (size_t i = n; i < s.size(); i++) if (s[i] != '\x11') fail("overrun", "reading %zu bytes writes beyond the caller's buffer", n);
  if (s.compare(0, n, model, pos, n)) { size_t k = 0; while (s[k] == model[pos + k]) k++; fail("wrong-data", "byte %zu read back differs from what was written", pos + k); }
  pos += n;
}
size_t sz() { switch (plan(5)) { case 0: return plan(20); case 1: return log_uniform(S_PLAN, 2000); case 2: return FILE_BUFFER_SIZE - 3 + plan(7); case 3: return log_uniform(S_PLAN, 100000); default: return FILE_BUFFER_SIZE * (1 + plan(3)) - 1 + plan(3); } }
bool over_ok;
void session(bool read_mode) {
  if (read_mode && !exists) { expect_fail = true; probe("case:missing-file"); }
  doing = "open"; FileIO io("/sim/data", read_mode);
  if (read_mode && !exists) { fail("missing-file", "opening a missing file for reading reports success"); }
  if (!read_mode) { model.clear(); } exists = true; pos = 0;
  bool w = !read_mode; uint32_t n = plan(7); size_t total0 = io.counter;
  if (!read_mode && plan(4) == 0) check_disk("re-creating the file");
  for (uint32_t i = 0; i < n; i++) {
    switch (plan(7)) {
      case 0: case 1: case 2: if (w) do_write(io, sz()); else { size_t k = model.size() - std::min(pos, model.size()); size_t r = plan(3) ? (k ? plan(k + 1) : 0) : k; do_read(io, r); } break;
      case 3: if (w) { doing = "flush"; io.flush(); check_disk("flush"); } break;
      case 4: case 5: { doing = "reset"; io.reset(); pos = 0; w = (plan(4) == 0); break; }
      case 6: if (!w && over_ok && plan(2)) do_read(io, model.size() - std::min(pos, model.size()) + 1 + plan(40)); break;
    }
  }
  doing = "close";
}
}
void scenario_main() {
  uint32_t ns = 1 + plan(4); std::vector<bool> modes; for (uint32_t i = 0; i < ns; i++) modes.push_back(plan(3) != 0 && (i || plan(8) == 0));
  over_ok = plan(3) == 0; any_overwrite = false; opn = 1; exists = false; pos = 0; expect_fail = false; model.clear(); durable.clear();
  int f = plan(8); disk.cfg.short_rd = plan(3) == 1 ? 2 : 0; disk.cfg.short_wr = plan(3) == 1 ? 2 : 0;
  if (plan(3) == 0) { auto in = std::make_shared<Inode>(); in->path = "/sim/data"; in->data = Bytes::str(log_uniform(S_PLAN, 60000), 999); disk.files["/sim/data"] = in; disk.used = in->data.size(); exists = true; model = in->data; durable = model; }
  if (f == 1 || f == 2) disk.cfg.capacity = disk.used + log_uniform(S_FAULT, 120000);
  if (f == 3 || f == 4) { disk.cfg.fail_after = log_uniform(S_FAULT, 12); static const uint32_t masks[] = {1, 2, 4, 8, 16, 31}; disk.cfg.fail_mask = masks[plan(6)]; static const int es[] = {EIO, ENOSPC, EDQUOT}; disk.cfg.fail_errno = es[plan(3)]; disk.cfg.sticky = plan(2); }
  bool kill = f == 5; uint64_t when = 1 + log_uniform(S_FAULT, 120);
  knobs.bb_budget = 4000000;
  ProcCfg c; c.name = "writer";
  Proc *p = spawn_proc(c, [&] { for (bool m : modes) { session(m); check_disk("close"); } doing = "end"; });
  if (kill) at_step(when, [p] { if (p->alive()) { probe("fault:process-killed"); kill_proc(p, 9); } });
  RunResult r = run_world(); std::string d; describe(p, d);
  sample("sessions=%u fault=%s overwrites=%d writes=%d final size=%zu %s", ns, f == 1 || f == 2 ? "full disk" : f == 3 || f == 4 ? "i/o error" : kill ? "killed" : "none", (int)any_overwrite, opn - 1, model.size(), d.c_str());
  set_nontrivial(opn > 1 || exists);
  if (r == R_BUDGET || r == R_DEADLOCK) fail("hang", "the program neither progresses nor ends during %s", doing.c_str());
  if (p->state == P_KILLED && p->status != 9) { if (p->status != 6) fail("crash", "crashes during %s (%s)", doing.c_str(), d.c_str()); }
  if (p->state == P_DONE && expect_fail) fail("silent-failure", "program reports success although it %s", "needed data that does not exist");
  if (p->failed() && !(kill && p->status == 9) && !expect_fail && !disk.faults) fail("unexpected-exit", "program fails during %s although nothing went wrong (%s)", doing.c_str(), d.c_str());
  if (p->state == P_EXITED && p->status == 0) fail("silent-failure", "program ends with status 0 although %s failed", doing.c_str());
  if (p->state == P_DONE) check_disk("a successful end");
  if (kill && p->state == P_KILLED && !any_overwrite && disk.files.count("/sim/data")) {
    // only append-style writing: what was promised by the last flush must still be there
    auto &data = disk.files["/sim/data"]->data;
    if (doing != "open" && (data.size() < durable.size() || data.compare(0, durable.size(), durable)) && model.compare(0, durable.size(), durable) == 0) fail("flushed-data-lost", "data promised by a completed flush is gone after the process died");
  }
}
