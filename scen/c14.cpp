// C14: parties with equal seeds draw equal streams, and the stream is AES-128 in counter mode.
#include "common.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/utils/prg.h"
#include <openssl/evp.h>
#include <random>
using namespace sim; using namespace emp;
const char *scenario_property = "C14";
namespace {
enum K { BLOCK, DATA, UNALIGNED, BOOLS, WORD, RESEED, FORWARD, DIST };
struct Req { int gen; K k; uint32_t n; uint64_t seed_id, stream; uint32_t place[2]; };
struct GenInfo { uint64_t seed_id; int64_t id; uint32_t place[2]; bool null_like; };
std::vector<GenInfo> GI; std::vector<Req> R; int server; std::vector<std::string> out[2]; std::vector<std::string> tail[2];
struct Buf {
  std::vector<uint8_t> m; size_t off, n;
  static uint8_t guard(size_t i) { return (uint8_t)(i * 197 + (i >> 8) + 0xC7); }
  Buf(size_t n, uint32_t align) : m(n + 128), n(n) { for (size_t i = 0; i < m.size(); i++) m[i] = guard(i); size_t a = ((size_t)m.data() + 32 + 15) & ~(size_t)15; off = a - (size_t)m.data() + align; }
  uint8_t *p() { return m.data() + off; }
  bool ok() { for (size_t i = 0; i < off; i++) if (m[i] != guard(i)) return false; for (size_t i = off + n; i < m.size(); i++) if (m[i] != guard(i)) return false; return true; }
};
template <typename T> auto has_counter(int) -> decltype(std::declval<T &>().counter, std::true_type());
template <typename T> std::false_type has_counter(...);
template <typename T> void forward(T &g, uint64_t v) { if constexpr (decltype(has_counter<T>(0))::value) g.counter = v; }
std::string request(PRG &g, const Req &q, int me, const std::string &seed) {
  switch (q.k) {
    case BLOCK: { Buf b(16 * (size_t)q.n, 0); if (q.n == 1 && q.place[me] % 2) g.random_block((block *)b.p()); else g.random_block((block *)b.p(), (int)q.n); if (!b.ok()) fail("out-of-bounds", "random_block writes outside its buffer"); return std::string((char *)b.p(), b.n); }
    case DATA: { Buf b(q.n, 0); g.random_data(b.p(), (int)q.n); if (!b.ok()) fail("out-of-bounds", "random_data writes outside its buffer"); return std::string((char *)b.p(), b.n); }
    case UNALIGNED: { Buf b(q.n, q.place[me]); g.random_data_unaligned(b.p(), (int)q.n); if (!b.ok()) fail("out-of-bounds", "random_data_unaligned writes outside its buffer (%u bytes at alignment %u)", q.n, q.place[me]); return std::string((char *)b.p(), b.n); }
    case BOOLS: { Buf b(q.n, q.place[me]); g.random_bool((bool *)b.p(), (int)q.n); if (!b.ok()) fail("out-of-bounds", "random_bool writes outside its buffer"); return std::string((char *)b.p(), b.n); }
    case WORD: { std::string s; for (uint32_t i = 0; i < q.n; i++) { uint64_t v = g(); s.append((char *)&v, 8); } return s; }
    case DIST: { std::vector<int> v(20 + q.n); for (size_t i = 0; i < v.size(); i++) v[i] = (int)i; std::shuffle(v.begin(), v.end(), g); std::uniform_int_distribution<uint32_t> d(0, 1000); std::string s((char *)v.data(), 4 * v.size()); uint32_t x = d(g); s.append((char *)&x, 4); return s; }
    case RESEED: { Buf b(16, q.place[me]); memcpy(b.p(), seed.data(), 16); if (q.stream == 0 && q.place[me] % 2) g.reseed((const block *)b.p()); else g.reseed((const block *)b.p(), q.stream); return ""; }
    case FORWARD: forward(g, q.seed_id); return "";
  }
  return "";
}
std::string seed_bytes(uint64_t sid) { return sid % 7 == 0 ? std::string(16, '\0') : Bytes::str(16, sid); }
void party(int me) {
  NetIO io(me == server ? nullptr : "10.0.0.1", 23456, true);
  auto agree = [&](uint64_t sid) { std::string s = seed_bytes(sid); if (me == 0) { io.send_data(s.data(), 16); io.flush(); return s; } std::string r(16, 0); io.recv_data(&r[0], 16); return r; };
  std::vector<std::unique_ptr<PRG>> g;
  for (auto &gi : GI) { std::string s = agree(gi.seed_id); Buf b(16, gi.place[me]); memcpy(b.p(), s.data(), 16); g.emplace_back(gi.id == 0 && gi.place[me] % 2 ? new PRG(b.p()) : new PRG(b.p(), (int)gi.id)); }
  for (auto &q : R) { std::string s = q.k == RESEED ? agree(q.seed_id) : ""; out[me].push_back(request(*g[q.gen], q, me, s)); point("draw"); }
  for (auto &x : g) { block b[3]; x->random_block(b, 3); tail[me].push_back(std::string((char *)b, 48)); }
}
// reference: AES-128 in counter mode on OpenSSL
struct Ref {
  EVP_CIPHER_CTX *c; std::map<uint64_t, std::string> cache;
  Ref(std::string key, uint64_t id) { for (int i = 0; i < 8; i++) key[i] ^= (char)(id >> (8 * i)); c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, (const unsigned char *)key.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0); }
  ~Ref() { EVP_CIPHER_CTX_free(c); }
  std::string bytes(uint64_t pos, size_t n) { size_t nb = (n + 15) / 16; std::string in(16 * nb, '\0'), o(16 * nb + 16, '\0'); for (size_t i = 0; i < nb; i++) { uint64_t v = pos + i; memcpy(&in[16 * i], &v, 8); } int l = 0; if (nb) EVP_EncryptUpdate(c, (unsigned char *)&o[0], &l, (const unsigned char *)in.data(), (int)in.size()); o.resize(n); return o; }
};
const char *kn(int k) { static const char *n[] = {"random_block", "random_data", "random_data_unaligned", "random_bool", "operator()", "reseed", "fast forward", "distribution"}; return n[k]; }
void check_stream(int gi) {
  // positions the stream may be at; every byte request starts at a fresh block, a few blocks may be skipped, none is reused
  auto ref = std::make_unique<Ref>(seed_bytes(GI[gi].seed_id), (uint64_t)GI[gi].id); std::set<uint64_t> P{0}; const int SKIP = 2; std::string wbuf; size_t wptr = 32; bool dist = false; std::string desc;
  auto widen = [&](std::set<uint64_t> &s) { std::set<uint64_t> t; for (uint64_t p : s) for (int e = 0; e <= SKIP; e++) t.insert(p + e); s = t; };
  auto take = [&](const std::string &o, bool low, const char *what) {
    std::set<uint64_t> N; size_t nb = (o.size() + 15) / 16; bool word = false; (void)word;
    for (uint64_t p : P) { if (o.size() > 4096 && !low && ref->bytes(p, 64) != o.substr(0, 64)) continue; std::string w = ref->bytes(p, o.size()); if (low) for (auto &x : w) x &= 1; if (w == o) N.insert(p + nb); }
    if (N.empty()) fail("not-ctr", "generator %d: %s of %zu bytes does not return the next part of the AES-CTR stream of its seed%s", gi, what, o.size(), desc.c_str());
    P = N; widen(P); if (P.size() > 400) { while (P.size() > 400) P.erase(std::prev(P.end())); }
  };
  for (size_t i = 0; i < R.size(); i++) { const Req &q = R[i]; if (q.gen != gi) continue; const std::string &o = out[0][i];
    switch (q.k) {
      case BLOCK: case DATA: case UNALIGNED: if (o.empty()) widen(P); else take(o, false, kn(q.k)); break;
      case BOOLS: if (o.empty()) widen(P); else take(o, true, kn(q.k)); for (char c : o) if ((uint8_t)c > 1) fail("not-ctr", "random_bool returns a value that is not a bit"); break;
      case WORD: for (uint32_t k = 0; k < q.n && !dist; k++) {
          if (wptr == 32) { // refilled from 16 fresh blocks; how many of the 32 words are asked for now
            size_t have = std::min<size_t>(32, q.n - k); std::string part = o.substr(8 * k, 8 * have); std::set<uint64_t> N; std::string keep;
            for (uint64_t p : P) { std::string w = ref->bytes(p, 256); if (w.substr(0, part.size()) == part) { N.insert(p + 16); keep = w; } }
            if (N.empty()) fail("not-ctr", "generator %d: operator() does not return the next part of the AES-CTR stream of its seed%s", gi, desc.c_str());
            P = N; widen(P); wbuf = keep; wptr = 0;
          }
          if (memcmp(wbuf.data() + 8 * wptr, o.data() + 8 * k, 8)) fail("not-ctr", "generator %d: operator() leaves the AES-CTR stream of its seed at word %zu%s", gi, wptr, desc.c_str());
          wptr++;
        } break;
      case DIST: dist = true; return;     // how many words a distribution consumes is the library's business: only agreement is checked from here
      case RESEED: ref = std::make_unique<Ref>(seed_bytes(q.seed_id), q.stream); P = {0}; wptr = 32; desc = " (after reseed)"; break;
      case FORWARD: if (decltype(has_counter<PRG>(0))::value) { P = {q.seed_id}; } break;
    }
  }
  take(tail[0][gi], false, "random_block");
}
uint32_t size_of() { switch (plan(7)) { case 0: return plan(35); case 1: return 16 * plan(12) + plan(3); case 2: return 15 + plan(3); case 3: return log_uniform(S_PLAN, 400); case 4: return 128 * (1 + plan(4)) + plan(5); case 5: return log_uniform(S_PLAN, 5000); default: return plan(4) ? 1 + plan(20) : log_uniform(S_PLAN, 60000); } }
}
void scenario_main() {
  server = plan(2); uint32_t ng = 1 + plan(3), nr = 1 + log_uniform(S_PLAN, 30); uint64_t sid = 1 + plan(100);
  for (uint32_t i = 0; i < ng; i++) { GenInfo g; g.seed_id = plan(3) ? sid : sid + plan(20); g.id = plan(2) ? 0 : plan(2) ? (int64_t)plan(5) : (int64_t)(int)hash64(plan(50), 3); g.place[0] = plan(16); g.place[1] = plan(16); GI.push_back(g); }
  bool huge = plan(60) == 0; uint32_t words = 0, resd = 0; size_t total = 0;
  for (uint32_t i = 0; i < nr; i++) {
    Req q; q.gen = plan(ng); q.seed_id = q.stream = 0; q.place[0] = plan(16); q.place[1] = plan(16);
    switch (plan(11)) { case 0: case 1: q.k = BLOCK; q.n = plan(3) ? plan(20) : log_uniform(S_PLAN, 300); break; case 2: q.k = DATA; q.n = size_of(); break; case 3: case 4: case 5: q.k = UNALIGNED; q.n = size_of(); break; case 6: q.k = BOOLS; q.n = size_of(); break;
      case 7: case 8: q.k = WORD; q.n = plan(3) ? 1 + plan(5) : 1 + plan(70); words++; break; case 9: q.k = RESEED; q.n = 0; q.seed_id = plan(2) ? sid : sid + plan(20); q.stream = plan(2) ? 0 : plan(2) ? plan(5) : hash64(plan(50), 5); resd++; break;
      default: if (plan(6) == 0) { q.k = DIST; q.n = plan(10); } else { q.k = FORWARD; q.n = 0; static const uint64_t f[] = {250, 65530, (1ull << 31) - 5, (1ull << 32) - 9, (1ull << 32) - 1, (1ull << 40), (1ull << 63) - 3}; q.seed_id = f[plan(7)]; } break; }
    if (huge && i == nr / 2) { q.k = plan(2) ? UNALIGNED : BLOCK; q.n = q.k == BLOCK ? 66000 + plan(5) : 1100000 + plan(100); if (plan(6) == 0) q.n = q.k == BLOCK ? 524288 + 20 + plan(5) : 8388608 + 300 + plan(100); }
    total += q.k == BLOCK ? 16 * q.n : q.n; R.push_back(q);
  }
  pick_policy(); pick_net(16 * (ng + resd) + 100); knobs.bb_budget = 2000000000;
  sample("generators=%u requests=%u bytes~%zu words=%u reseeds=%u", ng, nr, total, words, resd); set_nontrivial(total > 0);
  std::vector<Proc *> ps; for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002; ps.push_back(spawn_proc(c, [i] { party(i); })); }
  RunResult r = run_world(); expect_all_done(r, ps, "drawing from agreed seeds");
  for (size_t i = 0; i < R.size(); i++) if (out[0][i] != out[1][i]) { auto &q = R[i]; fail("parties-differ", "request %zu (%s, %u items, alignments %u and %u): the parties obtain different values", i, kn(q.k), q.n, q.place[0], q.place[1]); }
  for (uint32_t g = 0; g < ng; g++) { if (tail[0][g] != tail[1][g]) fail("parties-differ", "generator %u: equal requests leave the parties at different positions of the stream", g); check_stream((int)g); }
}
