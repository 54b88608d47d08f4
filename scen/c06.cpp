// C06: the bytes on the wire are a function of the channel operations alone.
// The same program is executed twice; heap contents, buffer placement, schedule
// and network behaviour differ, the wire bytes must not.
#include "conv.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/utils/hash.h"
using namespace sim; using namespace emp;
const char *scenario_property = "C06";
namespace {
struct Op { int kind; int dir; uint32_t n; uint64_t id; uint32_t parts[3]; uint32_t np; };
// kinds: 0 data, 1 block, 2 bool, 3 point, 4 flush, 5 sync
int chan, server; std::vector<Op> ops; uint32_t salt;
struct Run { std::vector<std::string> wire; };
uint32_t place(uint64_t id, uint32_t side) { return hash64(hash64(id, salt), side) % 16; }
struct Buf { std::vector<char> m; size_t off; Buf(size_t n, uint32_t a) : m(n + 48) { off = a + (16 - (size_t)m.data() % 16); for (auto &c : m) c = (char)hash64(salt, &c - m.data()); } char *p() { return m.data() + off; } };
template <typename IO> __attribute__((noinline)) void do_op(IO &io, Group &g, const Op &o, bool sender) {
  constexpr bool net = std::is_same<IO, NetIO>::value || std::is_same<IO, HighSpeedNetIO>::value;
  if (o.kind == 4) { if constexpr (net) io.flush(); return; }
  if (o.kind == 5) { if constexpr (net) io.sync(); return; }
  if (o.kind == 3) {
    uint32_t k = 1 + o.id % 4; std::vector<Point> v(k); if (!sender) { io.recv_pt(&g, v.data(), k); return; }
    for (uint32_t i = 0; i < k; i++) { unsigned char b[32]; Bytes::fill(b, 32, o.id + i); BigInt x; x.from_bin(b, 32); v[i] = g.mul_gen(x); if ((o.id >> (4 + i)) % 4 == 0) { Point q = v[i].inv(); v[i] = v[i].add(q); } }   // some are the point at infinity
    io.send_pt(v.data(), k); return; }
  size_t es = o.kind == 1 ? 16 : 1; Buf b(o.n * es, o.kind == 1 ? 0 : place(o.id, sender)); if (sender) Bytes::fill((uint8_t *)b.p(), o.n * es, o.id);
  if (o.kind == 2 && sender) for (uint32_t i = 0; i < o.n; i++) b.p()[i] &= 1;
  size_t off = 0;
  for (uint32_t i = 0; i < o.np; i++) {
    uint32_t k = o.parts[i]; char *q = b.p() + off * es; off += k;
    if (sender) { if (o.kind == 0) io.send_data(q, k); else if (o.kind == 1) io.send_block((block *)q, k); else io.send_bool((bool *)q, k); }
    else { if (o.kind == 0) io.recv_data(q, k); else if (o.kind == 1) io.recv_block((block *)q, k); else io.recv_bool((bool *)q, k); }
  }
}
__attribute__((noinline)) void poison_stack() { volatile uint64_t a[3000]; for (int i = 0; i < 3000; i++) a[i] = hash64(salt, i); }
template <typename IO> void party(IO &io, int me) {
  poison_stack();
  Group g; std::vector<std::unique_ptr<char[]>> junk;
  for (auto &o : ops) {
    if (o.id & 1) junk.emplace_back(new char[1 + (salt * 7919u + (uint32_t)o.id) % 5000]);   // other users of the heap
    poison_stack(); do_op(io, g, o, o.dir == me);
  }
}
void pick_ops() {
  uint32_t n = 1 + plan(14);
  for (uint32_t i = 0; i < n; i++) {
    Op o; o.kind = (int)plan(chan == 1 ? 6 : chan == 0 ? 7 : 4); if (o.kind == 6) o.kind = 4; if (o.kind == 5 && chan == 1 && plan(2)) o.kind = 4;
    o.dir = chan >= 2 ? 0 : plan(2); o.id = hash64(i, plan(1 << 20)); o.n = 0;
    if (o.kind == 0) { o.n = plan(4) ? log_uniform(S_PLAN, 4000) : (uint32_t)(NETWORK_BUFFER_SIZE2 * plan(4) + plan(7)); if (plan(25) == 0) o.n = log_uniform(S_PLAN, 1200000); }
    if (o.kind == 1) o.n = log_uniform(S_PLAN, 600);
    if (o.kind == 2) o.n = log_uniform(S_PLAN, 400);
    o.np = 1 + plan(3); uint32_t left = o.n; for (uint32_t k = 0; k + 1 < o.np; k++) { o.parts[k] = plan(left + 1); left -= o.parts[k]; } o.parts[o.np - 1] = left;
    ops.push_back(o);
  }
}
Run execute() {
  Run r; size_t vol = 0; for (auto &o : ops) vol += o.n * (o.kind == 1 ? 16 : 1) + 40000;
  pick_policy(); pick_net(vol); net_cfg.log_wire = true; disk.cfg.short_wr = plan(2) ? 3 : 0;
  knobs.bb_budget = 100000000;
  std::vector<Proc *> ps; static std::string mem; mem.clear();
  if (chan < 2) for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = (i == server) ? 0x0a000001 : 0x0a000002;
    ps.push_back(spawn_proc(c, [i] { poison_stack(); const char *a = i == server ? nullptr : "10.0.0.1"; if (chan == 0) { NetIO io(a, 12345, true); party(io, i); } else { HighSpeedNetIO io(a, 12345, 12346, true); party(io, i); } }));
  } else { ProcCfg c; c.name = "alice"; ps.push_back(spawn_proc(c, [] { if (chan == 2) { MemIO io(1 + salt % 64); party(io, 0); mem.assign(io.counter, 0); io.recv_data(&mem[0], mem.size()); } else { FileIO io("/sim/f", false); party(io, 0); } })); }
  RunResult rr = run_world();
  expect_all_done(rr, ps, "conversation");
  if (chan < 2) { std::vector<std::pair<int, std::string>> v; for (auto &c : conns()) { if (!c->established[1]) continue; for (int s = 0; s < 2; s++) v.push_back({c->sport * 2 + s, c->p[s].wire}); } std::sort(v.begin(), v.end()); for (auto &x : v) r.wire.push_back(x.second); }
  else if (chan == 2) r.wire.push_back(mem); else r.wire.push_back(disk.files.count("/sim/f") ? disk.files["/sim/f"]->data : "");
  return r;
}
}
void scenario_main() {
  chan = plan(5); if (chan == 4) chan = 1; server = plan(2); pick_ops();
  salt = 1; uint64_t poison = alloc_cfg.poison;
  Run a = execute(); reset_world();
  salt = 2 + plan(1000); alloc_cfg.poison = hash64(poison, salt);
  Run b = execute();
  size_t total = 0; for (auto &w : a.wire) total += w.size(); set_nontrivial(total > 0); probe("case:wire-bytes", total);
  static const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO", "FileIO"};
  sample("channel=%s operations=%zu wire bytes=%zu", cn[chan], ops.size(), total);
  if (a.wire.size() != b.wire.size()) fail("wire-streams-differ", "the number of byte streams differs between two executions of the same operations");
  for (size_t i = 0; i < a.wire.size(); i++) {
    if (a.wire[i].size() != b.wire[i].size()) fail("wire-length-differs", "%s: stream %zu carries %zu bytes in one execution and %zu in another of the same operations", cn[chan], i, a.wire[i].size(), b.wire[i].size());
    if (a.wire[i] != b.wire[i]) { size_t k = 0; while (a.wire[i][k] == b.wire[i][k]) k++; size_t cnt = 0; for (size_t j = 0; j < a.wire[i].size(); j++) cnt += a.wire[i][j] != b.wire[i][j]; fail("wire-differs", "%s: %zu bytes of stream %zu depend on memory that was never sent (first at offset %zu: %02x vs %02x)", cn[chan], cnt, i, k, (uint8_t)a.wire[i][k], (uint8_t)b.wire[i][k]); }
  }
}
