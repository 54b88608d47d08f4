// C17: a transcript hash depends only on the bytes, not on how they are fed.
#include "common.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/utils/hash.h"
#include <openssl/sha.h>
#include <openssl/evp.h>
using namespace sim; using namespace emp;
const char *scenario_property = "C17";
namespace {
struct Piece { size_t n; bool blocks; uint32_t align; };
struct Item { int kind; int obj; int dir; size_t len; uint64_t id; std::vector<Piece> cut[2]; };   // kind 0 message, 1 digest, 2 reset, 3 hash_once, 4 block of a hash
std::vector<Item> T; int server; uint32_t nobj; std::vector<std::string> dg[2]; bool net;
std::string sha(const std::string &s) { std::string o(32, 0); unsigned l; EVP_Digest(s.data(), s.size(), (unsigned char *)&o[0], &l, EVP_sha256(), nullptr); return o; }
std::string digest(Hash &h) { unsigned char b[48]; memset(b, 0xC7, 48); h.digest(b + 8); for (int i = 0; i < 8; i++) if (b[i] != 0xC7 || b[40 + i] != 0xC7) fail("out-of-bounds", "digest writes outside its 32 bytes"); return std::string((char *)b + 8, 32); }
template <typename F, typename G> void party(int me, F snd, G rcv) {
  std::vector<std::unique_ptr<Hash>> h; for (uint32_t i = 0; i < nobj; i++) h.emplace_back(new Hash());
  for (auto &t : T) {
    Hash &H = *h[t.obj];
    if (t.kind == 1) { dg[me].push_back(digest(H)); continue; }
    if (t.kind == 2) { H.reset(); continue; }
    std::string s = Bytes::str(t.len, t.id);
    if (t.kind == 0) { if (me == t.dir) snd(s); else { std::fill(s.begin(), s.end(), 0); rcv(s); } }
    if (t.kind == 3) { unsigned char d[32]; Hash::hash_once(d, s.data(), (int)s.size()); dg[me].push_back(std::string((char *)d, 32)); continue; }
    if (t.kind == 4) { block b = Hash::hash_for_block(s.data(), (int)s.size()); dg[me].push_back(std::string((char *)&b, 16)); continue; }
    size_t off = 0;
    for (auto &c : t.cut[me]) {
      std::unique_ptr<uint8_t[]> raw(new uint8_t[c.n + 64]); uint8_t *p = (uint8_t *)(((size_t)raw.get() + 15) & ~(size_t)15) + (c.blocks ? 0 : c.align); memcpy(p, s.data() + off, c.n); off += c.n;
      if (c.blocks) { if (c.n == 16) H.put_block((const block *)p); else H.put_block((const block *)p, (int)(c.n / 16)); } else H.put(p, (int)c.n);
      memset(p, 0xEE, c.n);      // the caller may reuse its buffer
    }
    point("fed");
  }
  for (auto &x : h) dg[me].push_back(digest(*x));
}
size_t len_of() { const size_t B = HASH_BUFFER_SIZE; switch (plan(7)) { case 0: return plan(70); case 1: return log_uniform(S_PLAN, 3000); case 2: return B - 3 + plan(7); case 3: return 2 * B - 20 + plan(40); case 4: return plan(3 * (uint32_t)B); case 5: return 16 * plan(600); default: return log_uniform(S_PLAN, 100000); } }
std::vector<Piece> cut(size_t n) {
  std::vector<Piece> v; const size_t B = HASH_BUFFER_SIZE; uint32_t k = plan(6);
  auto add = [&](size_t m) { Piece p; p.n = m; p.blocks = m % 16 == 0 && plan(2); p.align = plan(16); v.push_back(p); };
  while (k-- && n) { size_t m; switch (plan(5)) { case 0: m = plan(70); break; case 1: m = B - 2 + plan(4); break; case 2: m = 16 * plan(520); break; case 3: m = plan(2) ? 0 : 1; break; default: m = log_uniform(S_PLAN, (uint32_t)n); } m = std::min(m, n); add(m); n -= m; }
  add(n); return v;
}
}
void scenario_main() {
  server = plan(2); nobj = 1 + plan(2); uint32_t n = 1 + log_uniform(S_PLAN, 24); size_t vol = 0;
  for (uint32_t i = 0; i < n; i++) {
    Item t; t.obj = plan(nobj); t.dir = plan(2); t.id = hash64(i, 5 + plan(50)); t.len = 0; uint32_t x = plan(12); t.kind = x < 8 ? 0 : x < 10 ? 1 : x == 10 ? 2 : 3 + plan(2);
    if (t.kind == 0 || t.kind >= 3) { t.len = len_of(); if (plan(8) == 0) t.len = 0; t.cut[0] = cut(t.len); t.cut[1] = cut(t.len); vol += t.len; }
    T.push_back(t);
  }
  pick_policy(); pick_net(vol); knobs.bb_budget = 500000000; set_nontrivial(vol > 0); sample("objects=%u items=%u bytes=%zu", nobj, n, vol);
  std::vector<Proc *> ps; for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002;
    ps.push_back(spawn_proc(c, [i] { NetIO io(i == server ? nullptr : "10.0.0.1", 33456, true); party(i, [&](const std::string &s) { io.send_data(s.data(), s.size()); io.flush(); }, [&](std::string &s) { io.recv_data(&s[0], s.size()); }); })); }
  RunResult r = run_world(); expect_all_done(r, ps, "hashing a transcript");
  std::vector<std::string> acc(nobj), want; for (auto &t : T) { std::string s = Bytes::str(t.len, t.id); if (t.kind == 0) acc[t.obj] += s; else if (t.kind == 1) { want.push_back(sha(acc[t.obj])); acc[t.obj].clear(); } else if (t.kind == 2) acc[t.obj].clear(); else want.push_back(sha(s).substr(0, t.kind == 3 ? 32 : 16)); }
  for (auto &a : acc) want.push_back(sha(a));
  for (size_t i = 0; i < want.size(); i++) for (int p = 0; p < 2; p++) if (dg[p][i] != want[i]) fail(dg[0][i] != dg[1][i] ? "parties-differ" : "wrong-digest", "digest %zu of party %d is not the SHA-256 of the bytes fed%s", i, p, dg[0][i] != dg[1][i] ? ", and differs from the peer's digest of the same transcript" : "");
}
