// Jobs shared by C16 and C20: independent pieces of work with their own library objects.
#pragma once
#include "gc.h"
#include "gcx.h"
#include "emp-tool/utils/ThreadPool.h"
#include <thread>
using namespace sim; using namespace emp; using namespace gc;
#ifdef THREADING
static const bool MT = true;
#else
static const bool MT = false;
#endif
namespace {
enum JK { J_PRG, J_HASH, J_GROUP, J_MEM, J_FILE, J_CRYPT, J_UTIL, J_FRESH, J_LOAD, J_POOL, J_NET, J_HS, J_PLAIN, J_SESSION, J_IDLE, J_N };
const char *job_name[] = {"prg", "hash", "group", "mem", "file", "crypt", "util", "fresh-prg", "circuit-file", "pool", "net", "highspeed", "plain", "session", "idle"};
struct Step { uint32_t op, n, a; uint64_t id; bool migrate; };
struct Unit { JK k; std::vector<Step> st; int port = 0; Prog p; bool pf = false, auth = false; int garbler = 0; Ideal id[2]; std::string res[2], want[2]; std::vector<std::string> out[2]; int idx = 0; std::string rec; bool handover = false; };
std::vector<std::unique_ptr<Unit>> U_;
std::string path_of(const Unit &u, const char *s) { return "/sim/u" + std::to_string(u.idx) + s; }
void add(std::string &r, const void *p, size_t n) { uint64_t h = hash_bytes(p, n); r.append((char *)&h, 8); }
struct Mark { Mark() { Harness h; } };
// one step in this thread, or in a helper thread that is joined (the object moves between threads)
template <typename F> void on(const Step &s, F f) { if (!s.migrate) { f(); return; } std::thread t(f); t.join(); }
struct Buf { std::unique_ptr<uint8_t[]> raw; uint8_t *p; Buf(size_t n, uint32_t al, uint64_t id) : raw(new uint8_t[n + 64]) { p = (uint8_t *)(((size_t)raw.get() + 15) & ~(size_t)15) + al; Bytes::fill(p, n, id); } };
std::string prg_job(Unit &u) {
  std::string r; block seed; Bytes::fill((uint8_t *)&seed, 16, u.st[0].id); std::unique_ptr<PRG> prg(new PRG(&seed, (int)(u.st[0].id % 7)));
  for (auto &s : u.st) on(s, [&] { size_t n = 1 + s.n % 300; switch (s.op % 7) {
    case 0: { std::vector<block> b(n); prg->random_block(b.data(), (int)n); add(r, b.data(), 16 * n); break; }
    case 1: { Buf b(n, 0, 1); prg->random_data(b.p, (int)n); add(r, b.p, n); break; }
    case 2: { Buf b(n, s.a % 16, 1); prg->random_data_unaligned(b.p, (int)n); add(r, b.p, n); break; }
    case 3: { std::unique_ptr<bool[]> b(new bool[n]); prg->random_bool(b.get(), (int)n); add(r, b.get(), n); break; }
    case 4: { for (size_t i = 0; i < n % 40; i++) { uint64_t v = (*prg)(); add(r, &v, 8); } break; }
    case 5: { block b; Bytes::fill((uint8_t *)&b, 16, s.id); prg->reseed(&b, s.a); break; }
    default: { block b; Bytes::fill((uint8_t *)&b, 16, s.id); PRG q(&b); block o[9]; q.random_block(o, 9); add(r, o, sizeof o); } } });
  return r;
}
std::string hash_job(Unit &u) {
  std::string r; std::unique_ptr<Hash> h(new Hash());
  for (auto &s : u.st) on(s, [&] { size_t n = s.op % 3 ? s.n % 300 : s.n; Buf b(n, s.a % 16, s.id); switch (s.op % 6) {
    case 0: case 1: case 2: h->put(b.p, (int)n); break; case 3: { unsigned char d[32]; h->digest(d); add(r, d, 32); break; }
    case 4: { unsigned char d[32]; Hash::hash_once(d, b.p, (int)n); add(r, d, 32); break; } default: { block x = Hash::hash_for_block(b.p, (int)n); add(r, &x, 16); } } });
  unsigned char d[32]; h->digest(d); add(r, d, 32); return r;
}
std::string group_job(Unit &u) {
  std::string r; std::unique_ptr<Group> g(new Group()); Point acc = g->get_generator(); FlushMem io(16); BigInt m; unsigned char kb[32]; int nst = 0;
  for (auto &s : u.st) { if (nst++ > 5) break; on(s, [&] { Bytes::fill(kb, 32, s.id); m.from_bin(kb, 1 + s.n % 32); m = m.mod(g->order, g->bn_ctx); switch (s.op % 7) {
    case 0: acc = g->mul_gen(m); break; case 1: acc = acc.mul(m); break; case 2: { Point q = g->mul_gen(m); acc = acc.add(q); break; } case 3: acc = acc.inv(); break;
    case 4: { io.send_pt(&acc, 1); Point q(g.get()); io.recv_pt(g.get(), &q, 1); if (!(q == acc)) { Harness h; fail("wrong-result", "a point does not survive its encoding"); } acc = q; break; }
    case 5: { BigInt rr; g->get_rand_bn(rr); g->resize_scratch(200 + s.n % 500); break; }
    default: { block k = Hash::KDF(acc, s.a); add(r, &k, 16); } }
    unsigned char o[65]; memset(o, 0, 65); size_t l = acc.size(); acc.to_bin(o, l); add(r, o, l); BigInt t = m.mul_mod(m, g->order, g->bn_ctx).add_mod(m, g->order, g->bn_ctx); unsigned char tb[40]; memset(tb, 0, 40); t.to_bin(tb); add(r, tb, 40); }); }
  return r;
}
template <typename IO, typename RD> void chan_job(Unit &u, IO &w, RD rd, std::string &r, Group &g) {   // write everything, then read it
  auto body = [&](bool wr, auto &io) { for (auto &s : u.st) on(s, [&] { size_t n = s.n % 700; switch (s.op % 4) {
    case 0: { Buf b(n + 1, s.a % 16, s.id); if (wr) io.send_data(b.p, n); else { Buf c(n + 1, (s.a / 16) % 16, 1); io.recv_data(c.p, n); add(r, c.p, n); } break; }
    case 1: { std::vector<block> b(n / 16 + 1); Bytes::fill((uint8_t *)b.data(), 16 * b.size(), s.id); if (wr) io.send_block(b.data(), b.size()); else { io.recv_block(b.data(), b.size()); add(r, b.data(), 16 * b.size()); } break; }
    case 2: { Buf b(n + 1, s.a % 16, s.id); bool *v = (bool *)b.p; for (size_t i = 0; i < n; i++) b.p[i] &= 1; if (wr) io.send_bool(v, n); else { io.recv_bool(v, n); add(r, v, n); } break; }
    default: { Point p = g.get_generator(); if (wr) io.send_pt(&p); else { Point q(&g); io.recv_pt(&g, &q); unsigned char o[65]; q.to_bin(o, 65); add(r, o, 65); } } } }); };
  body(true, w); rd([&](auto &io) { body(false, io); }); uint64_t c = w.counter; add(r, &c, 8);
}
std::string mem_job(Unit &u) { std::string r; Group g; MemIO io(1 + u.st[0].n % 100); chan_job(u, io, [&](auto f) { f(io); }, r, g); return r; }
std::string file_job(Unit &u) {
  std::string r, p = path_of(u, ".dat"); Group g; { FileIO w(p.c_str(), false); chan_job(u, w, [&](auto f) { w.flush(); FileIO rd(p.c_str(), true); f(rd); }, r, g); } return r;
}
std::string crypt_job(Unit &u) {
  std::string r; block k; Bytes::fill((uint8_t *)&k, 16, u.st[0].id); CRH crh(k); CCRH ccrh(k); TCCRH tc(k); PRP prp(k); auto mi = std::make_unique<MITCCRH<8>>(); mi->setS(k); auto gp = std::make_unique<GaloisFieldPacking>();
  for (auto &s : u.st) on(s, [&] { int n = 1 + s.n % 40; std::vector<block> a(128), b(128), c(130); Bytes::fill((uint8_t *)a.data(), 128 * 16, s.id); Bytes::fill((uint8_t *)b.data(), 128 * 16, s.id + 1); memset((void *)c.data(), 0, 16 * c.size()); switch (s.op % 10) {
    case 0: crh.Hn(c.data(), a.data(), n); c[129] = crh.H(a[0]); break; case 1: ccrh.Hn(c.data(), a.data(), n); ccrh.H<8>(c.data() + 64, a.data()); break; case 2: tc.Hn(c.data(), a.data(), s.id, n); c[129] = tc.H(a[1], 7); break;
    case 3: for (int i = 0; i < 8; i++) c[i] = a[i]; mi->hash_cir<2, 2>(c.data()); mi->hash<2, 1>(c.data() + 4); break; case 4: for (int i = 0; i < n; i++) c[i] = a[i]; prp.permute_block(c.data(), n); break;
    case 5: gfmul(a[0], b[0], &c[0]); vector_inn_prdt_sum_red(&c[1], a.data(), b.data(), n); uni_hash_coeff_gen(c.data() + 4, a[3], n); vector_self_xor(&c[100], a.data(), n); break;
    case 6: gp->packing(&c[0], a.data()); break; case 7: sse_trans((uint8_t *)c.data(), (uint8_t *)a.data(), 128, 8 * (1 + s.a % 15)); break;
    case 8: { emp::AES_KEY e, d; AES_set_encrypt_key(a[0], &e); AES_set_decrypt_key_fast(&d, &e); for (int i = 0; i < n; i++) c[i] = b[i]; AES_ecb_encrypt_blks(c.data(), n, &e); c[120] = c[0]; AES_ecb_decrypt_blks(c.data(), n, &d); break; }
    default: { uint8_t o[64], in[64]; Bytes::fill(in, 64, s.id); emp::aes_128_ctr<uint8_t>(a[0], b[0], in, o, 64, s.a % 5); memcpy((void *)c.data(), o, 64); if (s.a & 1) { uint8_t dg[32]; emp::sha3_256<uint8_t>(dg, in, 64); memcpy((void *)(c.data() + 8), dg, 32); } } }
    add(r, c.data(), 16 * c.size()); });
  return r;
}
std::string util_job(Unit &u) {
  std::string r;
  for (auto &s : u.st) on(s, [&] { bool b[128]; block x; Bytes::fill((uint8_t *)&x, 16, s.id); block_to_bool(b, x); add(r, b, 128); block y = bool_to_block(b); add(r, &y, 16); int_to_bool<uint64_t>(b, s.id, 64); uint64_t v = bool_to_int<uint64_t>(b); add(r, &v, 8); int z[3] = {(int)s.n, (int)s.a, 5}; bool t[96]; to_bool<int>(t, z, 96); int zz[3]; from_bool<int>(t, zz, 96); add(r, zz, 12); double d = time_from(clock_start()); if (d < 0) { Harness h; fail("wrong-result", "time runs backwards"); } std::ostringstream os; os << x; std::string q = os.str(); add(r, q.data(), q.size()); bool fe = file_exists(path_of(u, ".none")); add(r, &fe, 1);
    const char *av[] = {"prog", s.n & 1 ? "1" : "2", "12345"}; int pa, po; parse_party_and_port(av, &pa, &po); add(r, &pa, 4); add(r, &po, 4); });
  return r;
}
std::string fresh_job(Unit &u) { for (auto &s : u.st) on(s, [&] { PRG p; block b[3]; p.random_block(b, 3); if (eqb(b[0], b[1])) { Harness h; fail("wrong-result", "an unseeded generator repeats a block"); } }); return "ok"; }
template <typename C> void digest_circuit(std::string &r, C &c) { add(r, c.gates.data(), c.gates.size() * sizeof(c.gates[0])); int v[2] = {c.num_gate, c.num_wire}; add(r, v, 8); }
std::string load_job(Unit &u) {
  std::string r, p = path_of(u, ".txt"); int i = 0;
  for (auto &s : u.st) { if (i++ > 3) break; on(s, [&] { if (s.op % 2) { BristolFormat c(p.c_str()); digest_circuit(r, c); std::string tp = path_of(u, ".hpp"); c.to_file(tp.c_str(), "x"); c.fout.close(); } else { BristolFormat c(REPO_DIR "/emp-tool/circuits/files/bristol_format/adder_32bit.txt"); digest_circuit(r, c); } }); }
  return r;
}
std::string pool_job(Unit &u) {
  std::string r; ThreadPool p(1 + u.st[0].n % 3); std::vector<std::future<uint64_t>> f; for (auto &s : u.st) { uint64_t id = s.id; f.push_back(p.enqueue([id] { block k; Bytes::fill((uint8_t *)&k, 16, id); PRG g(&k); uint64_t v = g(); return v; })); } for (auto &x : f) { uint64_t v = x.get(); add(r, &v, 8); } return r;
}
template <typename IO> std::string net_side(Unit &u, IO &io, int me) {
  std::string r; Group g;
  for (auto &s : u.st) on(s, [&] { bool snd = (int)(s.a & 1) == me; size_t n = s.n % 900; switch (s.op % 5) {
    case 0: { Buf b(n + 1, (s.a >> (4 * me)) % 16, snd ? s.id : 1); if (snd) io.send_data(b.p, n); else { io.recv_data(b.p, n); add(r, b.p, n); } break; }
    case 1: { std::vector<block> b(n / 16 + 1); Bytes::fill((uint8_t *)b.data(), 16 * b.size(), snd ? s.id : 1); if (snd) io.send_block(b.data(), b.size()); else { io.recv_block(b.data(), b.size()); add(r, b.data(), 16 * b.size()); } break; }
    case 2: { Buf b(n + 1, (s.a >> (4 * me)) % 16, snd ? s.id : 1); for (size_t i = 0; i < n; i++) b.p[i] &= 1; if (snd) io.send_bool((bool *)b.p, n); else { io.recv_bool((bool *)b.p, n); add(r, b.p, n); } break; }
    case 3: { Point p = g.get_generator(); if (snd) io.send_pt(&p); else { Point q(&g); io.recv_pt(&g, &q); unsigned char o[65]; q.to_bin(o, 65); add(r, o, 65); } break; }
    default: io.flush(); } });
  uint64_t c = io.counter; add(r, &c, 8); return r;
}
template <typename IO> std::string session(Unit &u, IO &io, int me) {
  if (MT && (CircuitExecution::circ_exec || ProtocolExecution::prot_exec)) { Harness h; fail("foreign-backend", "a thread that never set a back end sees one"); }
  bool g = me == u.garbler; block delta = zero_block; auto ce = Roles<IO>::make(u.pf, g, &io, delta); Ideal &id = u.id[me]; int who = g ? ALICE : BOB;
  StubProt<IO> pr(&io, g, u.pf, false, 1, u.auth, delta, &id); CircuitExecution::circ_exec = ce.get(); ProtocolExecution::prot_exec = &pr; Hooks hk;
  hk.flush = [&] { io.flush(); }; hk.after = [&](int, const Op &) { if (CircuitExecution::circ_exec != ce.get() || ProtocolExecution::prot_exec != &pr) { Harness h; fail("foreign-backend", "a thread sees another thread's back end"); } };
  std::vector<std::string> out; execute(u.p, who, out, hk); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; std::string r; for (auto &s : out) r += s + ";"; io.flush();
  u.out[g ? 0 : 1] = out; uint64_t n = ce->num_and(); add(r, &n, 8); return r;
}
std::string plain_job(Unit &u) {
  if (MT && (CircuitExecution::circ_exec || ProtocolExecution::prot_exec)) { Harness h; fail("foreign-backend", "a thread that never set a back end sees one"); }
  std::string p = path_of(u, ".rec"); setup_plain_prot(true, p); CircuitExecution *c = CircuitExecution::circ_exec; Hooks hk; hk.after = [&](int, const Op &) { if (CircuitExecution::circ_exec != c) { Harness h; fail("foreign-backend", "a thread sees another thread's back end"); } };
  std::vector<std::string> out; execute(u.p, 0, out, hk); finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; u.out[0] = out; std::string r; for (auto &s : out) r += s + ";";
  { Harness h; auto it = disk.files.find(p); if (it == disk.files.end()) fail("wrong-result", "no circuit file was recorded"); u.rec = it->second->data; } return r;
}
std::string idle_job(Unit &u) { for (auto &s : u.st) on(s, [&] { for (int i = 0; i < 4; i++) { if (MT && (CircuitExecution::circ_exec || ProtocolExecution::prot_exec)) { Harness h; fail("foreign-backend", "a thread that never set a back end sees one"); } point("idle"); } }); return "ok"; }
std::string side(Unit &u, int me) {
  switch (u.k) {
    case J_PRG: return prg_job(u); case J_HASH: return hash_job(u); case J_GROUP: return group_job(u); case J_MEM: return mem_job(u); case J_FILE: return file_job(u); case J_CRYPT: return crypt_job(u); case J_UTIL: return util_job(u); case J_FRESH: return fresh_job(u); case J_LOAD: return load_job(u); case J_POOL: return pool_job(u); case J_PLAIN: return plain_job(u); case J_IDLE: return idle_job(u);
    case J_NET: { NetIO io(me ? "10.0.0.1" : nullptr, u.port, true); return net_side(u, io, me); }
    case J_HS: { HighSpeedNetIO io(me ? "10.0.0.1" : nullptr, u.port, u.port + 1, true); return net_side(u, io, me); }
    default: if (u.port % 4) { NetIO io(me ? "10.0.0.1" : nullptr, u.port, true); return session(u, io, me); } else { HighSpeedNetIO io(me ? "10.0.0.1" : nullptr, u.port, u.port + 1, true); return session(u, io, me); }
  }
}
int sides(const Unit &u) { return u.k == J_NET || u.k == J_HS || u.k == J_SESSION ? 2 : 1; }
void start(std::vector<std::thread> &ts, Unit &u) { for (int s = 0; s < sides(u); s++) ts.emplace_back([&u, s] { u.res[s] = side(u, s); }); }
void plan_unit(Unit &u, uint32_t i, int max_and, int max_w) {
    bool mig = plan(3) == 0; uint32_t ns = 1 + log_uniform(S_PLAN, 12); for (uint32_t j = 0; j < ns; j++) { Step s; s.op = plan(420); s.n = plan(4) ? log_uniform(S_PLAN, 900) : plan(20000); s.a = plan(256); s.id = hash64(i * 100 + j, plan(64)); s.migrate = mig && plan(3) == 0; u.st.push_back(s); }
    if (u.k == J_PLAIN || u.k == J_SESSION) { GenCfg g; g.max_and = max_and; g.floats = plan(4) == 0; g.circuits = MT && u.k == J_SESSION && plan(10) == 0; g.max_w = max_w; g.only_bits = plan(3) == 0; Gen gen(u.p, g, i + 1); gen.run(1 + log_uniform(S_PLAN, 12)); u.pf = plan(2); u.auth = u.pf || plan(2); u.garbler = plan(2); u.id[0].seed = u.id[1].seed = hash64(i, plan(1 << 16)); }
    if (u.k == J_LOAD) { std::ostringstream o; int gates = 3 + plan(40), n1 = 2 + plan(4), n2 = 1 + plan(4), w = n1 + n2; std::ostringstream b; for (int q = 0; q < gates; q++, w++) { int a = plan(w), c = plan(w); uint32_t t = plan(3); if (t == 2) b << "1 1 " << a << " " << w << " INV\n"; else b << "2 1 " << a << " " << c << " " << w << (t ? " XOR\n" : " AND\n"); } o << gates << " " << w << "\n" << n1 << " " << n2 << " 3\n\n" << b.str(); u.rec = o.str(); Harness h; auto ino = std::make_shared<Inode>(); ino->path = path_of(u, ".txt"); ino->data = u.rec; disk.files[ino->path] = ino; }
}
}
