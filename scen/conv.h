// Random two-party conversations over a channel, shared by C01, C02, C05, C06.
#pragma once
#include "common.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include <memory>

namespace conv {
using namespace sim; using namespace emp;
struct Msg { int dir; size_t len; uint64_t id; std::vector<size_t> ssplit, rsplit; bool flush, oob; int kind; };  // kind 0 data, 1 sync, 2 mirrored flush
struct Op { enum K { SEND, RECV, SYNC, FLUSH } k; int m; };
struct State {
  std::vector<Msg> msgs; std::vector<Op> prog[2]; std::vector<int> got; std::vector<size_t> got_bytes; int sync_entered[2] = {0, 0}, sync_left[2] = {0, 0}; size_t total_sent[2] = {0, 0};
  size_t volume = 0, vol[2] = {0, 0}, moved = 0; int mode = 0; uint32_t stale = 0;
  int opidx[2] = {0, 0};
};
static State S;

struct GenCfg { bool highspeed = false; size_t max_calls = 65536; uint32_t max_msgs = 25; size_t max_vol = 6000000; bool allow_pipeline = true, allow_oneway = true, allow_oob = true, allow_sync = true; };

static inline size_t gen_len(const GenCfg &g, size_t budget) {
  size_t n, F = g.highspeed ? (size_t)NETWORK_BUFFER_SIZE2 : (size_t)16384, B = NETWORK_BUFFER_SIZE;
  switch (plan(9)) {
    case 0: case 1: n = log_uniform(S_PLAN, 300); break;
    case 2: case 3: n = log_uniform(S_PLAN, 20000); break;
    case 4: n = F * (1 + plan(4)) + plan(9) - 4; break;
    case 5: n = log_uniform(S_PLAN, 300000); break;
    case 6: { n = B + plan(7) - 3; if (plan(2)) n -= log_uniform(S_PLAN, (uint32_t)std::min<size_t>(B - 8, 5000)); if (B > 100000 && plan(4)) n = plan(2000); break; }
    case 7: n = F / 2 + plan((uint32_t)F); break;
    default: n = plan(12) == 0 ? log_uniform(S_PLAN, 2500000) : plan(5000); break;
  }
  return std::min(n, budget);
}
static inline void generate(const GenCfg &g) {
  S = State();
  S.stale = plan(5); S.mode = plan(4); if (S.mode == 2 && !g.allow_pipeline) S.mode = 0; if (S.mode == 3 && !g.allow_oneway) S.mode = 0;
  uint32_t n = 1 + log_uniform(S_PLAN, g.max_msgs - 1);
  bool small = plan(2), wrap = plan(60) == 0; if (wrap && plan(2)) { n = 200 + plan(1000); small = true; }   // many messages; very many calls for one message
  size_t cap = 200000, budget = S.mode == 2 ? cap : g.max_vol;
  for (uint32_t i = 0; i < n; i++) {
    Msg m; m.kind = 0; m.dir = S.mode == 3 ? 0 : (int)plan(2); m.id = hash64(i, 77); m.len = 0; m.flush = m.oob = false;
    if (g.allow_sync && S.mode != 3 && plan_chance(1, 12)) m.kind = 1;
    if (g.highspeed && plan_chance(1, 6)) m.kind = 2;
    if (m.kind == 0) {
      m.len = small ? log_uniform(S_PLAN, 200) : gen_len(g, budget - std::min(budget, S.vol[m.dir]));
      if (S.mode == 2 && plan(3)) m.len = std::min<size_t>(m.len, 500);
      m.ssplit = split(m.len, 4); m.rsplit = split(m.len, 4);
      if (wrap && plan(n > 100 ? 40 : 3) == 0) { m.len = plan(4) ? 256 * (1 + plan(3)) : S.mode == 2 ? 8192 : g.max_calls; (plan(3) ? m.ssplit : m.rsplit).assign(m.len, 1); if (m.ssplit.size() < m.len) m.ssplit.assign(1, m.len); if (m.rsplit.size() < m.len) m.rsplit.assign(1, m.len); }
      if (!g.highspeed) { m.flush = plan_chance(1, 4); }
    }
    if (m.kind == 1) m.oob = g.allow_oob && !g.highspeed && plan_chance(1, 2);
    if (m.kind == 2) m.oob = g.allow_oob && plan_chance(1, 3);
    if (m.flush) m.oob = g.allow_oob && S.mode != 2 && plan_chance(1, 3);
    S.vol[m.dir] += m.len; S.volume += m.len; S.msgs.push_back(m);
  }
  S.got.assign(n, 0); S.got_bytes.assign(n, 0);
  for (uint32_t i = 0; i < n; i++) {
    const Msg &m = S.msgs[i];
    if (m.kind == 1) { S.prog[0].push_back({Op::SYNC, (int)i}); S.prog[1].push_back({Op::SYNC, (int)i}); continue; }
    if (m.kind == 2) { S.prog[0].push_back({Op::FLUSH, (int)i}); S.prog[1].push_back({Op::FLUSH, (int)i}); continue; }
    S.prog[m.dir].push_back({Op::SEND, (int)i}); S.prog[1 - m.dir].push_back({Op::RECV, (int)i});
  }
  if (S.mode == 2) for (int p = 0; p < 2; p++) for (size_t i = 1; i < S.prog[p].size(); i++) if (S.prog[p][i].k == Op::SEND && plan(3)) {
    size_t j = i, d = 1 + plan(6);
    while (j > 0 && d && S.prog[p][j - 1].k == Op::RECV) { std::swap(S.prog[p][j], S.prog[p][j - 1]); j--; d--; S.moved++; }
  }
  pick_net(S.volume + (g.highspeed ? n * (size_t)NETWORK_BUFFER_SIZE2 : 0));
  if (S.mode == 2) net_cfg.capacity = std::max(net_cfg.capacity, cap + 100000);
  if (S.moved) probe("case:sent-ahead", S.moved);
  if (S.volume > 1000000) probe("case:over-1MB");
  set_nontrivial(S.volume > 0);
  sample("mode=%s messages=%u bytes=%zu/%zu seg=%u cap=%zu latency=%.3fms jitter=%.3fms policy=%d moved=%zu", S.mode == 2 ? "pipelined" : S.mode == 3 ? "one-way" : "half-duplex", n, S.vol[0], S.vol[1], net_cfg.seg, net_cfg.capacity, net_cfg.latency / 1e6, net_cfg.jitter / 1e6, knobs.policy, S.moved);
}
template <typename IO> void do_sync(IO &io) { io.sync(); }
// execute one party's side; wrong data is a violation at once
template <typename IO> void run_party(IO &io, int me, bool faults) {
  for (const Op &o : S.prog[me]) {
    const Msg &m = S.msgs[o.m]; S.opidx[me]++;
    if (o.k == Op::SEND) {
      std::string s = Bytes::str(m.len, m.id); size_t off = 0;
      for (size_t k : m.ssplit) {
        stale_errno(S.stale, off + o.m); io.send_data(s.data() + off, k); off += k; S.total_sent[me] += k;
        if (io.counter != S.total_sent[me]) fail("counter", "byte counter is %llu after sending %zu bytes", (unsigned long long)io.counter, S.total_sent[me]);
      }
      if (s != Bytes::str(m.len, m.id)) fail("source-changed", "sending modified the caller's buffer");
      memset(&s[0], 0x5a, s.size());          // the caller may reuse its buffer at once
      if (m.flush) io.flush();
      if (m.oob && !faults) { int id = o.m; block_until("wait for a confirmation outside the channel", [id] { return S.got[id] != 0; }); }
    } else if (o.k == Op::RECV) {
      std::string s(m.len + 48, '\x33'), want = Bytes::str(m.len, m.id); size_t off = 0;
      for (size_t k : m.rsplit) {
        stale_errno(S.stale, off + o.m); io.recv_data(&s[0] + off, k);
        if (memcmp(s.data() + off, want.data() + off, k)) { size_t i = off; while (s[i] == want[i]) i++; fail("wrong-data", "message %d (%zu bytes) arrives altered: first difference at byte %zu", o.m, m.len, i); }
        for (size_t i = off + k; i < off + k + 48; i++) if (i < s.size() && s[i] != '\x33') fail("overrun", "receiving %zu bytes writes beyond the caller's buffer", k);
        off += k; S.got_bytes[o.m] = off;
      }
      S.got[o.m] = 1; trace("message %d (%zu bytes) received", o.m, m.len);
      if (io.counter != S.total_sent[me]) fail("counter", "receiving changed the byte counter");
    } else if (o.k == Op::SYNC) {
      S.sync_entered[me]++; int mine = S.sync_entered[me];
      do_sync(io);
      if (std::is_same<IO, NetIO>::value && S.sync_entered[1 - me] < mine) fail("sync-no-barrier", "sync returned before the peer entered it");
      S.sync_left[me]++;
      // e.g. the parties go on over another channel: the peer must get out of sync without further help
      if (m.oob && !faults && std::is_same<IO, NetIO>::value) block_until("wait until the peer has left sync", [me, mine] { return S.sync_left[1 - me] >= mine; });
    } else {
      io.flush();
      if (m.oob && !faults) { int id = o.m; block_until("wait for a confirmation outside the channel", [id] { for (int i = 0; i < id; i++) if (S.msgs[i].kind == 0 && !S.got[i]) return false; return true; }); }
    }
  }
}
static inline void check_all_received() { for (size_t i = 0; i < S.msgs.size(); i++) if (S.msgs[i].kind == 0 && !S.got[i]) fail("lost", "message %zu was never received", i); }
}  // namespace conv
