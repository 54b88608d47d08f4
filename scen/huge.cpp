// C01/C02/C07/C08: messages whose length does not fit an int or a 32-bit word.
#include "common.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/utils/hash.h"
#include <openssl/evp.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim; using namespace emp;
const char *scenario_property = HUGE_PROP;
namespace {
struct Init { Init() { sim::cpu_limit = 300; } } init_;
const size_t PERIOD = 509 * 4096;      // the content repeats with a period that divides no power of two
size_t MAXLEN; char *src, *dsts[2]; std::string pattern;
struct M { size_t len; int kind, dir; std::vector<size_t> ss, rs; };
std::vector<M> ms; std::vector<int> got; size_t sent[2];
void setup() {
  { FILE *f = fopen("/proc/meminfo", "r"); char l[128]; unsigned long long av = 0; while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &av) == 1) break; if (f) fclose(f); if (av < (14ull << 20)) finish_skip("not enough memory for messages of this size"); }
  pattern = Bytes::str(PERIOD, 4711); for (auto &c : pattern) if (!c) c = 1;
  MAXLEN = 0; for (auto &m : ms) MAXLEN = std::max(MAXLEN, m.len); MAXLEN += PERIOD + 64;
  int fd = memfd_create("pattern", 0); if (fd < 0 || ftruncate(fd, PERIOD)) finish_skip("no memory file");
  size_t n = (MAXLEN + PERIOD - 1) / PERIOD;
  char *a = (char *)mmap(nullptr, n * PERIOD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) finish_skip("no address space");
  for (size_t i = 0; i < n; i++) if (mmap(a + i * PERIOD, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) finish_skip("no mapping");
  memcpy(a, pattern.data(), PERIOD); src = a;
  for (char *&dst : dsts) { dst = (char *)mmap(nullptr, MAXLEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (dst == MAP_FAILED) finish_skip("no address space"); }
}
// where in the pattern message i starts
size_t phase(size_t i) { return (i * 7919 * 16) % PERIOD; }
template <typename IO> void tx(IO &io, int i, int me) {
  const M &m = ms[i]; const char *p = src + phase(i); size_t off = 0;
  for (size_t k : m.ss) { if (m.kind) io.send_block((const block *)(p + off), k / 16); else io.send_data(p + off, k); off += k; sent[me] += k; if (io.counter != sent[me]) fail("counter", "byte counter is %llu after sending %zu bytes", (unsigned long long)io.counter, sent[me]); }
}
template <typename IO> void rx(IO &io, int i) {
  const M &m = ms[i]; char *dst = dsts[m.dir]; size_t off = 0;
  for (size_t k : m.rs) { if (m.kind) io.recv_block((block *)(dst + off), k / 16); else io.recv_data(dst + off, k); off += k; }
  size_t ph = phase(i);
  for (size_t o = 0; o < m.len;) { size_t k = std::min(PERIOD - ph, m.len - o); if (memcmp(dst + o, pattern.data() + ph, k)) { while (dst[o] == pattern[ph]) o++, ph++; fail("wrong-data", "message %d (%zu bytes) arrives altered: first difference at byte %zu", i, m.len, o); } o += k; ph = 0; }
  for (int e = 0; e < 64; e++) if (dst[m.len + e]) fail("overrun", "message %d writes behind the receiver's buffer", i);
  madvise(dst, MAXLEN, MADV_DONTNEED); got[i] = 1; trace("message %d (%zu bytes) received", i, m.len);
}
}
void scenario_main() {
  pick_policy(); ms.clear(); sent[0] = sent[1] = 0;
  uint32_t n = 3 + plan(3), h1 = plan(n), h2 = plan(n); int only = plan(HUGE_CH == 5 ? 2 : 8); if (HUGE_CH == 5) h2 = h1;
  for (uint32_t i = 0; i < n; i++) {
    M m; m.dir = plan(2); m.kind = plan(3) == 0; size_t d = 40 - plan(80) % 80;
    m.len = log_uniform(S_PLAN, 100000);
    if (i == h1) m.len = (1ULL << 31) + plan(70) - 20;
    if (i == h2 && i != h1) m.len = (1ULL << 32) + plan(4000) - 20;
    if (i == h1 && only == 1) m.len = (1ULL << 32) + plan(4000) - 20;
    if (m.kind) m.len = (m.len + 15) / 16 * 16;
    auto cut = [&](std::vector<size_t> &v) { size_t r = m.len; if (m.len > 100 && plan(3) == 0) { size_t a = 16 * (size_t)plan((uint32_t)std::min<size_t>(m.len / 16, 1u << 30)); v.push_back(a); r -= a; } v.push_back(r); };
    (void)d; cut(m.ss); cut(m.rs); ms.push_back(m);
  }
  got.assign(n, 0); size_t vol = 0; for (auto &m : ms) vol += m.len;
  setup(); set_nontrivial(true); probe("case:over-2GiB-message");
  knobs.bb_budget = 2000000000; knobs.step_budget = 400000000;
  sample("messages=%u bytes=%zu largest=%zu", n, vol, MAXLEN - PERIOD - 64);
  std::vector<Proc *> ps;
#if HUGE_CH == 1 || HUGE_CH == 2
  net_cfg.capacity = 4 << 20; net_cfg.seg = 0; net_cfg.latency = 1000; net_cfg.short_read = plan(2) ? 0 : 50; net_cfg.short_write = plan(2) ? 0 : 50;
  for (int i = 0; i < 2; i++) {
    ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i ? 0x0a000002 : 0x0a000001;
    ps.push_back(spawn_proc(c, [i] {
#if HUGE_CH == 1
      NetIO io(i == 0 ? nullptr : "10.0.0.1", 12345, true);
#else
      HighSpeedNetIO io(i == 0 ? nullptr : "10.0.0.1", 12345, 12346, true);
#endif
      for (size_t k = 0; k < ms.size(); k++) if (ms[k].dir == i) tx(io, k, i); else rx(io, k);
    }));
  }
#elif HUGE_CH == 5
  ProcCfg c; c.name = "program"; int how = plan(3);
  ps.push_back(spawn_proc(c, [n, how] {
    unsigned char want[32], have[32]; EVP_MD_CTX *x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha256(), nullptr);
    for (uint32_t k = 0; k < n; k++) EVP_DigestUpdate(x, src + phase(k), ms[k].len);
    unsigned l; EVP_DigestFinal_ex(x, want, &l);
    Hash h; if (how == 1) { h.put("abc", 3); h.reset(); }
    for (uint32_t k = 0; k < n; k++) { size_t off = 0; for (size_t q : ms[k].ss) { if (ms[k].kind) h.put_block((const block *)(src + phase(k) + off), q / 16); else h.put(src + phase(k) + off, q); off += q; } got[k] = 1; }
    h.digest(have); if (memcmp(want, have, 32)) fail("wrong-digest", "the digest of pieces of 2 GiB and more differs from SHA-256 of the concatenation");
    for (uint32_t k = 0; k < n; k++) if (ms[k].len > 1000000 && how == 2) {
      EVP_DigestInit_ex(x, EVP_sha256(), nullptr); EVP_DigestUpdate(x, src + phase(k), ms[k].len); EVP_DigestFinal_ex(x, want, &l);
      Hash::hash_once(have, src + phase(k), ms[k].len); if (memcmp(want, have, 32)) fail("wrong-digest", "hash_once of %zu bytes is not their SHA-256", ms[k].len); }
    EVP_MD_CTX_free(x);
  }));
#elif HUGE_CH == 3
  disk.cfg.short_rd = plan(2) ? 0 : 3; disk.cfg.short_wr = plan(2) ? 0 : 3;
  { auto in = std::make_shared<Inode>(); in->path = "/sim/data"; in->data.reserve(vol + 4096); disk.files["/sim/data"] = in; }
  ProcCfg c; c.name = "writer"; bool reopen = plan(2);
  ps.push_back(spawn_proc(c, [n, vol, reopen] {
    { FileIO io("/sim/data", false); for (uint32_t k = 0; k < n; k++) tx(io, k, 0);
      if (!reopen) { io.flush(); if (disk.files["/sim/data"]->data.size() != vol) fail("not-durable", "after flush the system holds %zu bytes instead of %zu", disk.files["/sim/data"]->data.size(), vol); io.reset(); for (uint32_t k = 0; k < n; k++) rx(io, k); return; } }
    if (disk.files["/sim/data"]->data.size() != vol) fail("not-durable", "after close the system holds %zu bytes instead of %zu", disk.files["/sim/data"]->data.size(), vol);
    FileIO io("/sim/data", true); for (uint32_t k = 0; k < n; k++) rx(io, k);
  }));
#else
  ProcCfg c; c.name = "program"; bool interleave = plan(2); int64_t cap0 = 1 + plan(5000);
  ps.push_back(spawn_proc(c, [n, vol, interleave, cap0] {
    MemIO io(cap0);
    if (interleave) for (uint32_t k = 0; k < n; k++) { tx(io, k, 0); rx(io, k); }
    else { for (uint32_t k = 0; k < n; k++) tx(io, k, 0); for (uint32_t k = 0; k < n; k++) rx(io, k); }
  }));
#endif
  RunResult r = run_world(); expect_all_done(r, ps, "messages of more than 2 GiB");
  for (uint32_t i = 0; i < n; i++) if (!got[i]) fail("lost", "message %u was never received", i);
}
