// C20: objects give back what they took.  The same jobs are repeated in one process;
// memory, descriptors, streams and threads must not accumulate.
#include "jobs.h"
#include <unistd.h>
const char *scenario_property = "C20";
namespace sim { extern int heap_round; void heap_start(); void heap_live(int from, int to, std::vector<uint64_t> &blocks, std::vector<uint64_t> &bytes); void heap_dump(int); }
namespace {
struct Count { size_t fds = 0, files = 0, threads = 0; };
Count count() { Count c; Proc *p = cur_proc(); c.fds = p->fds.size() + p->real_fds.size(); c.files = p->files.size(); for (auto *t : p->tasks) if (t->st != T_DEAD && !t->finished) c.threads++; return c; }
struct Odd { uint32_t kind, a, b; };
std::vector<Odd> odd; int rounds;
template <typename F> void catching(F f) { try { f(); } catch (const std::exception &) { Harness h; probe("case:exception"); } alloc_cfg.fail_armed = false; }
void starve(uint32_t n) { alloc_cfg.fail_after = n; alloc_cfg.fail_task = cur()->id; alloc_cfg.fail_armed = true; }
// less usual histories, in the main thread
void odd_job(const Odd &o, int round) {
  switch (o.kind) {
    case 0: catching([&] { NetIO io(nullptr, o.a & 1 ? -5 : 70000 + (int)o.b, true); }); catching([&] { HighSpeedNetIO io(nullptr, o.a & 1 ? -1 : 1000, 70000, true); }); break;
    case 1: catching([&] { ThreadPool p(1 + o.a % 3); std::vector<std::future<int>> f; for (uint32_t i = 0; i < 1 + o.b % 6; i++) f.push_back(p.enqueue([i]() -> int { if (i % 2) throw std::runtime_error("task"); return (int)i; })); if (o.a & 4) for (auto &x : f) catching([&] { x.get(); }); }); break;
    case 2: catching([&] { ThreadPool p(1 + o.a % 2); for (uint32_t i = 0; i < 1 + o.b % 5; i++) p.enqueue([] { point("task"); }); }); break;   // destroyed with tasks queued
    case 3: { std::string x(1 + o.b % 5000, 'x'), y(x.size(), 0); MemIO io(1 + o.a % 64); catching([&] { starve(o.a % 3); for (int i = 0; i < 6; i++) io.send_data(x.data(), x.size()); }); io.clear(); io.send_data(x.data(), x.size()); io.recv_data(&y[0], y.size()); break; }
    case 4: { std::string p = "/sim/odd.dat", x(1 + o.b, 'y'), y(x.size(), 0); { FileIO w(p.c_str(), false); w.send_data(x.data(), x.size()); if (o.a & 1) w.reset(); } FileIO r(p.c_str(), true); for (int i = 0; i < 3; i++) { r.recv_data(&y[0], y.size()); r.reset(); } MemIO m(o.a & 2 ? 1 + (int)(o.b / 3) : o.a & 4 ? 1 : 1024 * 1024); for (int i = 0; i < 3; i++) { r.reset(); int64_t n = o.a & 8 ? (int64_t)(x.size() * (i + 1) / 3) : (int64_t)x.size(); m.load_from_file(&r, n); if (o.a & 16) m.send_data(x.data(), x.size()); } catching([&] { starve(0); r.reset(); m.load_from_file(&r, (int)x.size()); }); break; }
    case 5: { Group g; BigInt s, t; g.get_rand_bn(s); g.get_rand_bn(t); Point a = g.mul_gen(s), b = g.mul_gen(t), c(a), d; d = b; d = c; c = d; std::vector<Point> v(3, a); v.push_back(b); v.resize(1 + o.a % 6, c); v[0] = v[v.size() - 1]; std::vector<BigInt> w(2, s); w.push_back(t); w[0] = w[1]; BigInt u(w[0]); u = u; a = a; c = a.add(b).inv().mul(u); s = u.add(t).mul(s, g.bn_ctx).mod(g.order, g.bn_ctx); for (uint32_t i = 0; i < o.b % 4; i++) g.resize_scratch(100 << (i + o.a % 4)); break; }
    case 6: { std::string t = "2 4\n1 1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n", u = "2 4\n1 2\n1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n"; { Harness h; for (int k = 0; k < 2; k++) { auto ino = std::make_shared<Inode>(); ino->path = k ? "/sim/odd.fash" : "/sim/odd.form"; ino->data = k ? u : t; disk.files[ino->path] = ino; } }
      BristolFormat f("/sim/odd.form"); BristolFashion s("/sim/odd.fash"); for (uint32_t i = 0; i < o.a % 3; i++) { f.from_file("/sim/odd.form"); s.from_file("/sim/odd.fash"); } setup_plain_prot(false, ""); block in[2] = {CircuitExecution::circ_exec->public_label(true), CircuitExecution::circ_exec->public_label(false)}, out[2]; f.compute(out, in, in + 1); s.compute(out, in); f.compute(out, in, in + 1); finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; break; }
    case 7: catching([&] { starve(o.a % 8); Hash h; char d[64]; h.put("abc", 3); h.digest(d); PRG p; p.reseed((block *)d); CRH c; CCRH cc; PRP pp; MITCCRH<8> m; p(); }); break;
    case 8: { setup_plain_prot(true, "/sim/odd.rec"); { Integer a(1 + o.b % 60, (int64_t)o.b, ALICE), b(1 + o.b % 60, (int64_t)o.a, BOB); Integer c = a * b; std::vector<Integer> v(1 + o.a % 5, c); sort(v.data(), (int)v.size()); Integer e = v[0]; e.resize(90); e = a; Float f(1.5f, ALICE), g(f); g = f * g; c.reveal<std::string>(PUBLIC); f.reveal<double>(PUBLIC); } finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; break; }
    case 9: { Hash h; char dg[32]; std::string x(1 + o.b, 'h'); for (uint32_t i = 0; i < 1 + o.a % 4; i++) { h.put(x.data(), x.size() * (i + 1) / 4); if ((o.a >> i) & 4) h.reset(); if ((o.a >> i) & 8) h.digest(dg); } Hash::hash_once(dg, x.data(), x.size()); block b = Hash::hash_for_block(x.data(), x.size()); (void)b; if (o.a & 1) h.digest(dg); break; }
    case 10: { setup_plain_prot(false, ""); { int w = (o.a & 1) ? 1 + o.b % 40 : 1 + (int)(o.b % 300); Integer a(w, (int64_t)o.a, ALICE), b(w, (int64_t)o.b, BOB), c; switch (o.a % 8) { case 0: c = a / b; break; case 1: c = a % b; break; case 2: c = a * b; break; case 3: c = a.hamming_weight(); break; case 4: c = a.leading_zeros(); break; case 5: if (w < 20) c = a.modExp(b, a); else c = a.abs(); break; case 6: c = (a << b) ^ (b >> a); break; default: c = a.select(a > b, -b); } std::string x = c.reveal<std::string>(PUBLIC); uint64_t y = c.reveal<uint64_t>(PUBLIC); (void)y; std::vector<uint8_t> buf(c.size() / 8 + 8); c.reveal(buf.data(), PUBLIC); bool bs[2400]; c.revealBools(bs, PUBLIC); Float f(o.a * 0.7f, ALICE), g(3.25f, BOB), r; switch (o.b % 8) { case 0: r = f / g; break; case 1: r = f.sqrt(); break; case 2: r = f.sin(); break; case 3: r = f.exp2(); break; case 4: r = f.log2(); break; case 5: r = f - g; break; case 6: r = f.sqr(); break; default: r = f.If(f.less_than(g), g); } r.reveal<std::string>(PUBLIC); std::vector<uint32_t> in32(w, 5); Integer l(32 * (int)std::min<size_t>(in32.size(), 8), in32.data(), ALICE); uint64_t one64 = o.b; Integer m(&one64, BOB); } finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; break; }
    case 12: { setup_plain_prot(false, ""); { uint8_t kb[16], vb[16], in[40]; Bytes::fill(kb, 16, o.a); Bytes::fill(vb, 16, o.b); Bytes::fill(in, 40, 7); __m128i k, v; memcpy(&k, kb, 16); memcpy(&v, vb, 16); Integer x(8 * (1 + o.b % 30), in, ALICE), d;
      if (o.a % 4) { std::unique_ptr<AES_128_CTR_Calculator> c(new AES_128_CTR_Calculator()); Integer key(128, kb, ALICE), iv(128, vb, BOB); if (o.a & 4) c->aes_128_ctr((const block *)key.bits.data(), (const block *)iv.bits.data(), (block *)x.bits.data(), nullptr, x.size(), PUBLIC, o.a % 3); else c->aes_128_ctr(k, v, (block *)x.bits.data(), nullptr, x.size()); }
      else { std::unique_ptr<SHA3_256_Calculator> c(new SHA3_256_Calculator()); if (o.a & 4) c->sha3_256(&d, &x, 1); } } finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; break; }
    default: { std::thread t([&] { PRG p; Hash h; Group g; Point q = g.get_generator(); unsigned char b[65]; q.to_bin(b, 65); block k = Hash::KDF(q); (void)k; }); t.join(); }
  }
}
}
void scenario_main() {
  uint32_t n = plan(4); bool have_plain = false, together = plan(2); rounds = 7 + plan(3);
  for (uint32_t i = 0; i < n; i++) {
    U_.emplace_back(new Unit()); Unit &u = *U_.back(); u.idx = i; u.port = 20000 + 10 * i + plan(4); u.k = (JK)plan(J_N);
    if (!MT) { if (u.k == J_SESSION) u.k = J_PLAIN; if (u.k == J_PLAIN) { if (have_plain) u.k = (JK)plan(J_PLAIN); have_plain = true; } }
    plan_unit(u, i, 300, 40);
  }
  uint32_t no = plan(4); if (!n && !no) no = 1; for (uint32_t i = 0; i < no; i++) { Odd o; o.kind = plan(13); if (o.kind == 12 && plan(3)) o.kind = 4; if (!MT && have_plain && together && (o.kind == 6 || o.kind == 8 || o.kind == 10 || o.kind == 12)) o.kind = 5;   // one back end per process
     o.a = plan(64); o.b = log_uniform(S_PLAN, 20000); odd.push_back(o); }
  std::string d; for (auto &u : U_) { d += job_name[u->k]; d += " "; probe((std::string("job:") + job_name[u->k]).c_str()); } for (auto &o : odd) { d += "odd" + std::to_string(o.kind) + " "; probe(("odd:" + std::to_string(o.kind)).c_str()); } sample("%d rounds of: %s%s%s", rounds, d.c_str(), together ? "(at the same time)" : "(one after the other)", MT ? " (multi-threaded build)" : ""); set_nontrivial(true);
  pick_policy(); pick_net(20000); if (net_cfg.capacity < 65536) net_cfg.capacity = 65536; knobs.bb_budget = 2000000000; knobs.step_budget = 6000000; disk.cfg.short_rd = plan(3) == 0 ? 4 : 0; disk.cfg.short_wr = plan(3) == 0 ? 4 : 0; on_proc_switch = swap_statics;
  heap_start(); std::string leak; ProcCfg c; c.name = "server"; c.no_stdin = plan(6) == 0;
  Proc *p = spawn_proc(c, [&] {
    Count base; 
    for (int r = 0; r < rounds; r++) {
      { Harness h; heap_round = r; base = count(); }
      { std::vector<std::thread> ts; ts.reserve(16); for (auto &u : U_) { start(ts, *u); if (!together) { for (auto &t : ts) t.join(); ts.clear(); } } for (auto &o : odd) odd_job(o, r); for (auto &t : ts) t.join(); }
      Harness h; for (auto &u : U_) { for (int s = 0; s < 2; s++) { u->id[s].rev_gen.clear(); u->id[s].rev_eva.clear(); u->out[s].clear(); u->res[s].clear(); } }
      Count now = count();
      if (now.fds != base.fds) fail("descriptor-leak", "round %d leaves %zu descriptors open, %zu were open before (%s)", r, now.fds, base.fds, d.c_str());
      if (now.files != base.files) fail("stream-leak", "round %d leaves %zu streams open, %zu were open before (%s)", r, now.files, base.files, d.c_str());
      if (now.threads != base.threads) fail("thread-leak", "round %d leaves %zu threads, there were %zu before (%s)", r, now.threads, base.threads, d.c_str());
    }
    Harness h; std::vector<uint64_t> b, y; int grown = 0; uint64_t nb = 0, ny = 0;
    for (int w = 0; w < 40; w++) { heap_live(2, rounds - 2, b, y); grown = 0; nb = ny = 0; for (size_t i = 0; i < b.size(); i++) { grown += b[i] > 0; nb += b[i]; ny += y[i]; } if (grown < 3) break; usleep(1000 << (w / 4)); }   // threads that have ended may still be giving back memory
    if (grown >= 3) { heap_dump(3); fail("memory-leak", "%llu blocks (%llu bytes) made in %d of rounds 2..%d are never given back (%s)", (unsigned long long)nb, (unsigned long long)ny, grown, rounds - 2, d.c_str()); }
  });
  RunResult r = run_world(); expect_all_done(r, {p}, "a process that repeats its work");
}
