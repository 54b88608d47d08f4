// C12: garbled tables against an independent implementation of the published schemes; freshness of secrets.
#include "gcx.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace sim; using namespace emp; using namespace gc;
const char *scenario_property = "C12";
namespace {
struct B128 { uint64_t lo, hi; bool operator==(const B128 &o) const { return lo == o.lo && hi == o.hi; } };
B128 tob(const block &b) { B128 r; memcpy(&r, &b, 16); return r; }
B128 X(B128 a, B128 b) { return {a.lo ^ b.lo, a.hi ^ b.hi}; }
B128 M(bool b, B128 a) { return b ? a : B128{0, 0}; }
B128 sig(B128 a) { return {a.hi, a.lo ^ a.hi}; }
struct Aes { EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); ~Aes() { EVP_CIPHER_CTX_free(c); } void key(B128 k) { EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, (uint8_t *)&k, nullptr); EVP_CIPHER_CTX_set_padding(c, 0); } B128 enc(B128 x) { B128 o; int l; EVP_EncryptUpdate(c, (uint8_t *)&o, &l, (uint8_t *)&x, 16); return o; } };
// hash of the half-gates scheme: key S ^ tweak, input sigma(x)
void H2(Aes &e, B128 S, uint64_t tweak, B128 *x, int n) { B128 k = {S.lo, S.hi ^ tweak}; e.key(k); for (int i = 0; i < n; i++) { B128 s = sig(x[i]); x[i] = X(e.enc(s), s); } }
struct Sess { Prog p; bool pf; int garbler; int otmode; uint64_t ff; bool rekey = false; Ideal id; block delta, pub[2][2]; std::vector<Gate> gates[2]; std::string wire[2], rcv[2]; bool done[2] = {false, false}; };
std::vector<std::unique_ptr<Sess>> S; int chan, server; std::shared_ptr<FlushMem> mem; bool oneway;
uint64_t own_seed;   // the same offset may be set for several sessions; everything else is still fresh
template <typename X> block rekeyed(X *x, Sess &s) {   // protocols built on the library choose the offset themselves
  block b = makeBlock(hash64(own_seed, 77), hash64(own_seed, 78)), w = set_bit(b, 0); x->set_delta(b); block d = x->delta ^ w;
  if (!_mm_testz_si128(d, d)) fail("offset", "the offset is not the one that was set, with its low bit set"); return x->delta;
}
template <typename IO> std::unique_ptr<CircuitExecution> make(Sess &s, bool g, IO *io, block &delta) {
  uint64_t ff = s.ff;
  if (s.pf) { if (g) { auto *x = new PrivacyFreeGen<IO>(io); delta = s.rekey ? rekeyed(x, s) : x->delta; if (ff) forward_to(x, ff, 0); return std::unique_ptr<CircuitExecution>(x); } auto *x = new PrivacyFreeEva<IO>(io); if (s.rekey) x->set_delta(); if (ff) forward_to(x, ff, 0); return std::unique_ptr<CircuitExecution>(x); }
  if (g) { auto *x = new HalfGateGen<IO>(io); delta = s.rekey ? rekeyed(x, s) : x->delta; if (ff) forward_to(x, 2 * ff, 0); return std::unique_ptr<CircuitExecution>(x); } auto *x = new HalfGateEva<IO>(io); if (s.rekey) x->set_delta(); if (ff) forward_to(x, 2 * ff, 0); return std::unique_ptr<CircuitExecution>(x);
}
template <typename T> void party(T &raw, int me) {
  for (auto &sp : S) {
    Sess &s = *sp; bool g = me == s.garbler; int q = g ? 0 : 1; RecIO<T> io(&raw); block delta = zero_block; auto ce = make(s, g, &io, delta); if (g) s.delta = delta;
    SpyExec spy(ce.get()); spy.keep = true; spy.traffic = [&](std::pair<uint64_t, uint64_t> &t) { t = {io.nsent, io.nrcvd}; };
    StubProt<RecIO<T>> pr(&io, g, s.pf, oneway, s.otmode, s.pf, delta, &s.id); CircuitExecution::circ_exec = &spy; ProtocolExecution::prot_exec = &pr; Hooks hk; hk.flush = [&] { io.flush(); };
    for (int b = 0; b < 2; b++) s.pub[q][b] = ce->public_label(b);
    std::vector<std::string> out; execute(s.p, g ? ALICE : BOB, out, hk);
    s.gates[q] = std::move(spy.gates); s.wire[q] = io.sent; s.rcv[q] = io.rcvd; s.done[q] = true; CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
  }
}
B128 at(const std::string &w, size_t off) { B128 r{0, 0}; if (off + 16 <= w.size()) memcpy(&r, w.data() + off, 16); return r; }
void check_hg(size_t si, Sess &s, B128 &Sout) {
  Aes e; B128 d = tob(s.delta); const std::string &w = s.wire[0]; size_t pre = 48; bool have = false; B128 Sp{0, 0};
  if (w.size() < pre) fail("preamble", "session %zu: the generator sent only %zu bytes", si, w.size());
  auto garble = [&](B128 S0, uint64_t k, const Gate &g, B128 T[2], B128 &W0) {
    B128 A0 = tob(g.a), A1 = X(A0, d), B0 = tob(g.b), B1 = X(B0, d); bool pa = A0.lo & 1, pb = B0.lo & 1; B128 x[2] = {A0, A1}, y[2] = {B0, B1}; H2(e, S0, 2 * k, x, 2); H2(e, S0, 2 * k + 1, y, 2);
    T[0] = X(X(x[0], x[1]), M(pb, d)); B128 WG = X(x[0], M(pa, T[0])); T[1] = X(X(y[0], y[1]), A0); B128 WE = X(y[0], M(pb, X(T[1], A0))); W0 = X(WG, WE); };
  for (size_t k = 0; k < s.gates[0].size(); k++) {
    const Gate &g = s.gates[0][k]; B128 T[2], W; B128 t0 = at(w, g.sent), t1 = at(w, g.sent + 16);
    if (!have) for (int c = 2; c >= 0 && !have; c--) { Sp = at(w, 16 * c); garble(Sp, s.ff + k, g, T, W); if (T[0] == t0 && T[1] == t1) have = true; }
    if (!have) fail("scheme-mismatch", "session %zu: the first garbled table is not the half-gates table for any announced start point (gate index %llu)", si, (unsigned long long)(s.ff + k));
    garble(Sp, s.ff + k, g, T, W);
    if (!(T[0] == t0) || !(T[1] == t1)) fail("scheme-mismatch", "session %zu: the table of AND gate %zu is not that of the half-gates scheme with tweaks %llu and %llu", si, k, (unsigned long long)(2 * (s.ff + k)), (unsigned long long)(2 * (s.ff + k) + 1));
    if (!(W == tob(g.out))) fail("scheme-mismatch", "session %zu: the generator's output label of AND gate %zu is not that of the half-gates scheme", si, k);
    // evaluator
    if (k >= s.gates[1].size()) fail("scheme-mismatch", "session %zu: the evaluator evaluates fewer gates", si);
    const Gate &h = s.gates[1][k]; B128 a = tob(h.a), b = tob(h.b), x[1] = {a}, y[1] = {b}; H2(e, Sp, 2 * (s.ff + k), x, 1); H2(e, Sp, 2 * (s.ff + k) + 1, y, 1);
    B128 r0 = at(s.rcv[1], h.rcvd), r1 = at(s.rcv[1], h.rcvd + 16), V = X(X(x[0], M(a.lo & 1, r0)), X(y[0], M(b.lo & 1, X(r1, a))));
    if (!(V == tob(h.out))) fail("scheme-mismatch", "session %zu: the evaluator's label of AND gate %zu is not that of the half-gates scheme", si, k);
  }
  if (have) Sout = Sp; else Sout = {0, 0};
}
void check_pf(size_t si, Sess &s) {
  Aes e; e.key({0, 0}); B128 d = tob(s.delta); const std::string &w = s.wire[0];
  for (size_t k = 0; k < s.gates[0].size(); k++) {
    const Gate &g = s.gates[0][k]; B128 A0 = tob(g.a), A1 = X(A0, d), B0 = tob(g.b), tw = {0, 2 * (s.ff + k)}; auto H = [&](B128 x) { B128 m = X(sig(x), tw); return X(e.enc(m), m); };
    if (A0.lo & 1) fail("scheme-mismatch", "session %zu: a zero label of the privacy-free scheme has its low bit set (gate %zu)", si, k);
    B128 h0 = H(A0), h1 = H(A1); h0.lo &= ~1ULL; h1.lo |= 1; B128 T = X(X(h0, h1), B0);
    if (!(T == at(w, g.sent))) fail("scheme-mismatch", "session %zu: the row of AND gate %zu is not that of the privacy-free scheme with tweak %llu", si, k, (unsigned long long)(2 * (s.ff + k)));
    if (!(h0 == tob(g.out))) fail("scheme-mismatch", "session %zu: the generator's output label of AND gate %zu is not that of the privacy-free scheme", si, k);
    if (k >= s.gates[1].size()) fail("scheme-mismatch", "session %zu: the evaluator evaluates fewer gates", si);
    const Gate &h = s.gates[1][k]; B128 a = tob(h.a), v = H(a); if (a.lo & 1) { v.lo |= 1; v = X(X(v, at(s.rcv[1], h.rcvd)), tob(h.b)); } else v.lo &= ~1ULL;
    if (!(v == tob(h.out))) fail("scheme-mismatch", "session %zu: the evaluator's label of AND gate %zu is not that of the privacy-free scheme", si, k);
  }
}
struct Secrets { uint64_t n; B128 v[48]; };
// sessions outside the simulated world: of a program that then forks, and of the real processes it forks, with real system entropy
void other_process(Secrets *o) {
  MemIO m; 
  { HalfGateGen<MemIO> g(&m); o->v[o->n++] = tob(g.delta); for (int b = 0; b < 2; b++) o->v[o->n++] = X(tob(g.public_label(b)), M(b, tob(g.delta))); std::string w(48, 0); m.recv_data(&w[0], 48); uint64_t n0 = o->n - 3; for (int i = 0; i < 3; i++) { B128 x = at(w, 16 * i); bool dup = false; for (uint64_t k = n0; k < o->n; k++) dup |= o->v[k] == x; if (!dup) o->v[o->n++] = x; } }
  { PrivacyFreeGen<MemIO> g(&m); o->v[o->n++] = tob(g.delta); for (int b = 0; b < 2; b++) o->v[o->n++] = X(tob(g.public_label(b)), M(b, tob(g.delta))); }
}
}
void scenario_main() {
  Secrets *os = (Secrets *)mmap(nullptr, sizeof(Secrets), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); os->n = 0;
  bool other = plan(4) == 0;
  if (other) {   // a program that may have had sessions before it forks workers
    if (plan(2)) { other_process(os); probe("case:session-before-fork"); }
    for (uint32_t k = 1 + plan(2); k > 0; k--) { pid_t pid = fork(); if (pid == 0) { other_process(os); syscall(231, 0); } int st; waitpid(pid, &st, 0); probe("case:forked-process"); }
  }
  chan = plan(5); chan = chan < 2 ? 0 : chan < 4 ? 1 : 2; oneway = chan == 2; server = plan(2); on_proc_switch = swap_statics;
  uint32_t ns = 1 + plan(4); bool big = plan(60) == 0, rk = plan(4) == 0; own_seed = plan(1 << 16); size_t ands = 0;
  for (uint32_t i = 0; i < ns; i++) {
    S.emplace_back(new Sess()); Sess &s = *S.back(); GenCfg g; g.oneway = oneway; g.max_and = big ? 40000 : 400; g.floats = false; g.only_bits = plan(2); g.max_w = big ? 64 : 32; s.pf = plan(3) == 0; s.garbler = oneway ? 0 : plan(2); s.otmode = 0; s.id.seed = plan(1 << 16);
    s.ff = 0; if (plan(5) == 0) s.ff = pick_ff(s.pf);   // a session that has run that many gates already
    s.rekey = rk && plan(2); if (s.rekey) probe("case:offset-set");
    Gen gen(s.p, g, i + 1); gen.run(big ? 200 : 1 + log_uniform(S_PLAN, 25)); ands += s.p.approx_and;
  }
  pick_policy(); pick_net(ands * 32 + 20000); if (net_cfg.capacity < 4096) net_cfg.capacity = 4096; knobs.bb_budget = 2000000000;
  std::vector<Proc *> ps; RunResult r;
  for (int i = 0; i < 2; i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002;
    ps.push_back(spawn_proc(c, [i] { const char *a = i == server ? nullptr : "10.0.0.1"; if (chan == 0) { NetIO io(a, 12345, true); party(io, i); } else if (chan == 1) { HighSpeedNetIO io(a, 12345, 12346, true); party(io, i); } else { if (!i) mem = std::make_shared<FlushMem>(100); party(*mem, i); } }));
    if (oneway) r = run_world(); }
  if (!oneway) r = run_world();
  uint64_t tot = 0; for (auto &s : S) tot += s->gates[0].size();
  static const char *cn[] = {"NetIO", "HighSpeedNetIO", "MemIO"}; sample("channel=%s sessions=%u AND gates checked=%llu%s", cn[chan], ns, (unsigned long long)tot, other ? " with a second process" : ""); probe("case:and-gates", tot); set_nontrivial(tot > 0);
  expect_all_done(r, ps, "garbled execution");
  bool own_seen = false; struct Sec { B128 v; const char *what; size_t s; }; std::vector<Sec> sec;
  for (size_t i = 0; i < S.size(); i++) {
    Sess &s = *S[i]; B128 d = tob(s.delta), sp{0, 0};
    if (!(d.lo & 1)) fail("offset-low-bit", "session %zu: the low bit of the secret offset is clear", i);
    if (s.gates[0].size() != s.gates[1].size()) fail("scheme-mismatch", "session %zu: generator and evaluator disagree on the number of gates", i);
    for (int b = 0; b < 2; b++) if (!(tob(s.pub[0][b]) == X(tob(s.pub[1][b]), M(b, d)))) fail("constant-labels", "session %zu: the parties' labels of public constant %d do not match", i, b);
    if (s.pf) check_pf(i, s); else check_hg(i, s, sp);
    const std::string &w = s.wire[0];
    for (size_t k = 0; k + 16 <= w.size(); k++) if (at(w, k) == d) fail("offset-leak", "session %zu: the secret offset appears on the wire at byte %zu", i, k);
    { std::vector<B128> bl; for (size_t k = 0; k + 16 <= w.size() && bl.size() < 300; k += 16) bl.push_back(at(w, k)); for (size_t a = 0; a < bl.size(); a++) for (size_t b = a + 1; b < bl.size(); b++) if (X(bl[a], bl[b]) == d) fail("offset-leak", "session %zu: two blocks on the wire (%zu and %zu) differ by the secret offset", i, a, b); }
    if (!s.rekey || !own_seen) sec.push_back({d, "offset", i}); if (s.rekey) own_seen = true; for (int b = 0; b < 2; b++) sec.push_back({tob(s.pub[1][b]), b ? "label of 1" : "label of 0", i}); if (sp.lo | sp.hi) sec.push_back({sp, "start point", i});
  }
  for (uint64_t k = 0; k < os->n; k++) sec.push_back({os->v[k], "a value of another process", 1000 + k});
  for (size_t a = 0; a < sec.size(); a++) {
    if (sec[a].v.hi == 0 || sec[a].v.lo <= 1 || sec[a].v.hi == ~0ULL) fail("degenerate-secret", "session %zu: the %s is degenerate", sec[a].s, sec[a].what);
    for (size_t b = a + 1; b < sec.size(); b++) {
      if (sec[a].v.hi == sec[b].v.hi || (sec[a].v.lo | 1) == (sec[b].v.lo | 1)) fail("not-fresh", "%s of session %zu and %s of session %zu coincide (in at least 63 bits)", sec[a].what, sec[a].s, sec[b].what, sec[b].s);
    }
  }
}
