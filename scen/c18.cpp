// C18: a stored circuit computes the same function when loaded, or is refused.
#include "gc.h"
#include <sstream>
#include <fcntl.h>
#include <sys/syscall.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
using namespace sim; using namespace emp; using namespace gc;
const char *scenario_property = "C18";
namespace {
typedef std::vector<bool> Bits;
// an independent view of a circuit: gates in file order
struct G { int k, a, b, o; std::string name; };                       // 0 and, 1 xor, 2 not, 3 or, 4 eqw (copy), 5 constant
struct Circ { int ng = 0, nw = 0, n1 = 0, n2 = 0, n3 = 0; std::vector<G> g; };
bool parse_format(const std::string &t, Circ &c, std::string &why) {
  std::istringstream s(t); if (!(s >> c.ng >> c.nw >> c.n1 >> c.n2 >> c.n3)) { why = "header incomplete"; return false; }
  int ni, no;
  while (s >> ni) { G g; g.b = 0; if (!(s >> no) || no != 1 || (ni != 1 && ni != 2)) { why = "bad gate line"; return false; } if (!(s >> g.a)) { why = "bad gate line"; return false; } if (ni == 2 && !(s >> g.b)) { why = "bad gate line"; return false; } if (!(s >> g.o >> g.name)) { why = "bad gate line"; return false; } g.k = g.name == "AND" ? 0 : g.name == "XOR" ? 1 : 2; if ((g.k == 2) != (ni == 1)) { why = "gate type"; return false; } c.g.push_back(g); }
  if (!s.eof()) { why = "trailing text"; return false; }
  return true;
}
Bits eval(const Circ &c, const Bits &in) {
  std::vector<char> w(c.nw + 1, 0); for (size_t i = 0; i < in.size() && i < w.size(); i++) w[i] = in[i];
  for (auto &g : c.g) w[g.o] = g.k == 0 ? w[g.a] & w[g.b] : g.k == 1 ? w[g.a] ^ w[g.b] : g.k == 2 ? !w[g.a] : g.k == 3 ? w[g.a] | w[g.b] : g.k == 4 ? w[g.a] : g.k == 6 ? !(w[g.a] & w[g.b]) : g.k == 7 ? !(w[g.a] | w[g.b]) : g.k == 8 ? !(w[g.a] ^ w[g.b]) : (char)g.a;
  Bits o; for (int i = 0; i < c.n3; i++) o.push_back(w[c.nw - c.n3 + i]); return o;
}
// ---- recording: all private inputs are fed first, first party before second, then the program runs on them
struct Hoist : ProtocolExecution {
  ProtocolExecution *in; std::vector<block> L[2]; size_t at[2] = {0, 0}; const Bits *val[2]; Bits dry[2]; bool count; Bits revealed;
  Hoist(ProtocolExecution *in, const Bits *a, const Bits *b, const std::vector<uint32_t> &chunks) : ProtocolExecution(PUBLIC), in(in) {
    val[0] = a; val[1] = b; count = !a; size_t ci = 0;
    if (!count) for (int p = 0; p < 2; p++) { size_t n = val[p]->size(), off = 0; L[p].resize(n + 1); std::unique_ptr<bool[]> v(new bool[n + 1]); for (size_t i = 0; i < n; i++) v[i] = (*val[p])[i];
      while (off < n) { size_t k = chunks.empty() ? n : std::min<size_t>(n - off, 1 + chunks[ci++ % chunks.size()]); in->feed(L[p].data() + off, p ? BOB : ALICE, v.get() + off, (int)k); off += k; } }
  }
  void feed(block *l, int party, const bool *b, int n) override {
    if (party == PUBLIC) { in->feed(l, party, b, n); return; }
    int p = party == ALICE ? 0 : 1; for (int i = 0; i < n; i++) { if (count) { dry[p].push_back(b[i]); bool x = b[i]; in->feed(l + i, party, &x, 1); } else l[i] = L[p][at[p]++]; }
  }
  void reveal(bool *b, int party, const block *l, int n) override { in->reveal(b, party, l, n); for (int i = 0; i < n; i++) revealed.push_back(b[i]); }
};
Prog prog; uint64_t recorded_and = 0; std::vector<uint32_t> chunks; uint32_t bulk = 0;
void program(std::vector<std::string> &o) {
  execute(prog, 0, o, Hooks()); if (!bulk) return;
  // a large circuit: counts of five and six digits
  std::vector<Bit> x(bulk, Bit(false)), y(bulk, Bit(false)); std::unique_ptr<bool[]> v(new bool[bulk]), w(new bool[bulk]); for (uint32_t i = 0; i < bulk; i++) { v[i] = hash64(i, 1) & 1; w[i] = hash64(i, 2) & 1; }
  ProtocolExecution::prot_exec->feed((block *)x.data(), ALICE, v.get(), (int)bulk); ProtocolExecution::prot_exec->feed((block *)y.data(), BOB, w.get(), (int)bulk);
  for (uint32_t i = 0; i < bulk; i++) { x[i] = x[i] & y[(i * 7 + 3) % bulk]; x[i] = x[i] ^ y[i]; x[i] = !x[i]; }
  for (int k = 0; k < 8; k++) for (uint32_t i = 0; i < bulk; i++) { Bit &p = (k & 2) ? x[i] : y[i]; const Bit q = (k & 2) ? y[(i * 3 + k) % bulk] : x[(i * 3 + k) % bulk]; p = (k & 1) ? ((i & 1) ? p ^ q : q ^ p) : ((i & 1) ? p & q : q & p); if (i % 16 == 0) p = !p; }   // late wires on either side of late gates
  ProtocolExecution::prot_exec->reveal(v.get(), PUBLIC, (block *)y.data(), (int)bulk);
}
 const char *PATH = "/sim/circuit.txt";
Bits run_plain(const Bits *a, const Bits *b, Bits dry[2]) {   // the program in the clear, not recorded
  Harness h; PlainScope ps; Hoist ho(ProtocolExecution::prot_exec, a, b, {}); ProtocolExecution *keep = ProtocolExecution::prot_exec; ProtocolExecution::prot_exec = &ho; std::vector<std::string> o; program(o); ProtocolExecution::prot_exec = keep; if (dry) { dry[0] = ho.dry[0]; dry[1] = ho.dry[1]; } return ho.revealed;
}
void record(const Bits &a, const Bits &b) {
  setup_plain_prot(true, PATH);
  { Hoist ho(ProtocolExecution::prot_exec, &a, &b, chunks); ProtocolExecution *keep = ProtocolExecution::prot_exec; ProtocolExecution::prot_exec = &ho; std::vector<std::string> o; program(o); ProtocolExecution::prot_exec = keep; }
  recorded_and = CircuitExecution::circ_exec->num_and();
  finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
}
// ---- loading
struct Run { Bits in, out; bool done = false; }; 
const char *SRC[2] = {"/sim/gen0.h", "/sim/gen1.h"}; bool faulty = false;
struct Load { bool fashion = false; int how = 0; bool inplace = false; int who = 0; bool loaded = false; Circ hdr; std::vector<Run> runs; bool threw = false; bool bad = false; } ld[2];
int server; Ideal ideal; std::vector<Bits> inputs; bool garbled, privfree; size_t n1_, n2_;
struct Any {   // the loaded circuit behind one interface
  std::unique_ptr<BristolFormat> f; std::unique_ptr<BristolFashion> s;
  bool direct = false, inplace = false;
  void compute(block *o, const block *a, const block *b, size_t n1, size_t n2) { if (f && direct) { std::vector<block> w(f->num_wire + 1); std::copy(a, a + n1, w.begin()); std::copy(b, b + n2, w.begin() + n1); execute_circuit<int>(w.data(), f->gates.data(), f->num_gate); std::copy(w.begin() + (f->num_wire - f->n3), w.begin() + f->num_wire, o); return; } if (f) { if (inplace && n1 >= (size_t)f->n3) { std::vector<block> x(a, a + n1); f->compute(x.data(), x.data(), b); std::copy(x.begin(), x.begin() + f->n3, o); } else f->compute(o, a, b); return; } std::vector<block> x(a, a + n1); x.insert(x.end(), b, b + n2); x.push_back(zero_block); if (inplace && x.size() > (size_t)s->num_output) { s->compute(x.data(), x.data()); std::copy(x.begin(), x.begin() + s->num_output, o); } else s->compute(o, x.data()); }
};
Any load(Load &L) {
  Any c; 
  auto file = [&](auto fn) { FILE *f = fopen(PATH, "r"); if (!f) exit(3); fn(f); fclose(f); };
  if (!L.fashion) { if (L.how == 0 || L.how >= 3) c.f.reset(new BristolFormat(PATH)); else if (L.how == 1) file([&](FILE *f) { c.f.reset(new BristolFormat(f)); }); else { c.f.reset(new BristolFormat(PATH)); c.f->from_file(PATH); }
    if (L.how == 3) { std::vector<int> g = c.f->gates; g.push_back(0);
      if (!faulty) { // through the generated-source form
        c.f->to_file(SRC[L.who], "gen"); Harness h; std::string t = disk.files[SRC[L.who]]->data; std::map<std::string, int> v; size_t p0 = t.find('{'); std::istringstream hs(t.substr(0, p0)); std::string w, last; while (hs >> w) { if (w == "=") { std::string nm = last; hs >> w; v[nm] = atoi(w.c_str()); } last = w; }
        std::vector<int> ga; std::string bt = t.substr(p0 + 1); for (auto &x : bt) if (x == ',' || x == '}' || x == ';') x = ' '; std::istringstream bs(bt); int x; while (bs >> x) ga.push_back(x);
        if ((size_t)v["gen_num_gate"] * 4 != ga.size()) fail("wrong-source", "the generated source states %d gates and lists %zu numbers", v["gen_num_gate"], ga.size());
        ga.push_back(0); g = ga; c.f->num_gate = v["gen_num_gate"]; c.f->num_wire = v["gen_num_wire"]; c.f->n1 = v["gen_n1"]; c.f->n2 = v["gen_n2"]; c.f->n3 = v["gen_n3"]; }
      c.f.reset(new BristolFormat(c.f->num_gate, c.f->num_wire, c.f->n1, c.f->n2, c.f->n3, g.data())); }
    L.hdr.ng = c.f->num_gate; L.hdr.nw = c.f->num_wire; L.hdr.n1 = c.f->n1; L.hdr.n2 = c.f->n2; L.hdr.n3 = c.f->n3; }
  else { if (L.how == 0 || L.how >= 3) c.s.reset(new BristolFashion(PATH)); else if (L.how == 1) file([&](FILE *f) { c.s.reset(new BristolFashion(f)); }); else { c.s.reset(new BristolFashion(PATH)); c.s->from_file(PATH); }
    L.hdr.ng = c.s->num_gate; L.hdr.nw = c.s->num_wire; L.hdr.n1 = c.s->num_input; L.hdr.n2 = 0; L.hdr.n3 = c.s->num_output; }
  c.direct = L.how == 4; c.inplace = L.inplace; L.loaded = true; return c;
}
void use(Any &c, Load &L, int who) {   // who: 0 in the clear, ALICE, BOB
  size_t no = (size_t)L.hdr.n3; if ((size_t)L.hdr.n1 + L.hdr.n2 != n1_ + n2_ || (!L.fashion && (size_t)L.hdr.n1 != n1_)) { L.bad = true; return; }
  for (auto &in : inputs) {
    std::vector<block> a(n1_ + 1), b(n2_ + 1), o(no + 3, makeBlock(0xC7C7C7C7, 0xC7C7C7C7)); std::unique_ptr<bool[]> va(new bool[n1_ + 1]), vb(new bool[n2_ + 1]), vo(new bool[no + 1]);
    for (size_t i = 0; i < n1_; i++) va[i] = who == BOB ? false : in[i]; for (size_t i = 0; i < n2_; i++) vb[i] = who == ALICE ? false : in[n1_ + i];
    if (n1_) ProtocolExecution::prot_exec->feed(a.data(), ALICE, va.get(), (int)n1_); if (n2_) ProtocolExecution::prot_exec->feed(b.data(), BOB, vb.get(), (int)n2_);
    c.compute(o.data(), a.data(), b.data(), n1_, n2_);
    for (int k = 0; k < 2; k++) { block x = o[no + k] ^ makeBlock(0xC7C7C7C7, 0xC7C7C7C7); if (!_mm_testz_si128(x, x)) fail("out-of-bounds", "the loaded circuit writes more outputs than its header states"); }
    if (no) ProtocolExecution::prot_exec->reveal(vo.get(), PUBLIC, o.data(), (int)no); Run r; r.in = in; for (size_t i = 0; i < no; i++) r.out.push_back(vo[i]); r.done = true; L.runs.push_back(r);
  }
}
void loader(int me, bool tolerate) {
  auto body = [&] {
    Load &L = ld[me];
    if (!garbled) { Any c = load(L); { Harness h; setup_plain_prot(false, ""); } use(c, L, 0); { Harness h; delete CircuitExecution::circ_exec; delete ProtocolExecution::prot_exec; } }
    else {
      Any c = load(L); NetIO io(me == server ? nullptr : "10.0.0.1", 12345, true); block delta = zero_block; std::unique_ptr<CircuitExecution> ce; if (me == 0 && privfree) { auto *x = new PrivacyFreeGen<NetIO>(&io); delta = x->delta; ce.reset(x); } else if (privfree) ce.reset(new PrivacyFreeEva<NetIO>(&io)); else if (me == 0) { auto *x = new HalfGateGen<NetIO>(&io); delta = x->delta; ce.reset(x); } else ce.reset(new HalfGateEva<NetIO>(&io));
      StubProt<NetIO> pr(&io, me == 0, privfree, false, 1, true, delta, &ideal); CircuitExecution::circ_exec = ce.get(); ProtocolExecution::prot_exec = &pr; use(c, L, me == 0 ? ALICE : BOB);
    }
    CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
  };
  if (!tolerate) { body(); return; }
  try { body(); } catch (const std::exception &) { ld[me].threw = true; }
}
// ---- circuits written by somebody else
std::string spaces() { static const char *s[] = {" ", "  ", "\t", " "}; return s[plan(4)]; }
Circ foreign(bool unsupported, bool nots) {
  Circ c; c.n1 = 1 + plan(12); c.n2 = plan(12); c.ng = 1 + plan(40); c.nw = c.n1 + c.n2 + c.ng; c.n3 = 1 + plan(std::min(c.ng, 16)); std::vector<int> perm; for (int i = 0; i < c.ng; i++) perm.push_back(c.n1 + c.n2 + i);
  if (plan(2)) for (int i = c.ng - 1; i > 0; i--) std::swap(perm[i], perm[plan(i + 1)]);      // wires need not be numbered in gate order
  std::vector<int> have; for (int i = 0; i < c.n1 + c.n2; i++) have.push_back(i); int bad = unsupported ? (int)plan(c.ng) : -1;
  for (int i = 0; i < c.ng; i++) { G g; g.a = have[plan(have.size())]; g.b = have[plan(have.size())]; g.o = perm[i]; uint32_t x = plan(nots ? 5 : 4); g.k = x < 2 ? 0 : x < 4 ? 1 : 2; g.name = g.k == 0 ? "AND" : g.k == 1 ? "XOR" : plan(3) ? "INV" : "NOT"; if (i == bad) { static const char *nm[] = {"OR", "EQW", "EQ", "NAND", "NOR", "XNOR"}; g.k = 3 + plan(6); g.name = g.k == 4 && plan(2) ? "BUF" : nm[g.k - 3]; if (g.k == 5) g.a &= 1; } have.push_back(g.o); c.g.push_back(g); }
  return c;
}
std::string write_circ(const Circ &c, bool fashion) {
  std::ostringstream s; s << c.ng << spaces() << c.nw << "\n";
  if (!fashion) s << c.n1 << spaces() << c.n2 << spaces() << c.n3 << "\n\n";
  else { auto grp = [&](int n) { std::vector<int> v; while (n > 0) { int k = plan(3) ? n : 1 + (int)plan(n); v.push_back(k); n -= k; } s << v.size(); for (int x : v) s << spaces() << x; s << "\n"; }; if (plan(2)) { s << "2 " << c.n1 << " " << c.n2 << "\n"; } else grp(c.n1 + c.n2); grp(c.n3); if (plan(2)) s << "\n"; }
  for (auto &g : c.g) { bool one = g.k == 2 || g.k == 4 || g.k == 5; s << (one ? "1 1 " : "2 1 ") << g.a << spaces(); if (!one) s << g.b << spaces(); s << g.o << spaces() << g.name << "\n"; }
  return s.str();
}
// a gate that names a wire the header does not provide for, or a header that promises more gates than there are
bool damage_wires(std::string &t, const char *&what) {
  std::vector<std::pair<size_t, size_t>> gates; size_t at = 0; int line = 0; long nw = 0;
  while (at < t.size()) { size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size(); std::istringstream s(t.substr(at, e - at)); std::vector<std::string> w; std::string x; while (s >> x) w.push_back(x);
    if (line == 0 && w.size() == 2) nw = atol(w[1].c_str()); line++;
    if (w.size() >= 5 && isalpha((unsigned char)w.back()[0])) gates.push_back({at, e}); at = e + 1; }
  if (gates.empty() || nw <= 0) return false;
  if (plan(4) == 0) { std::istringstream s(t); long ng; s >> ng; size_t p = t.find_first_of("0123456789"), q = t.find_first_not_of("0123456789", p); t.replace(p, q - p, std::to_string(ng + 1 + plan(plan(2) ? 3 : 3000))); what = "file with fewer gates than its header states"; return true; }
  auto g = gates[plan((uint32_t)gates.size())]; std::istringstream s(t.substr(g.first, g.second - g.first)); std::vector<std::string> w; std::string x; while (s >> x) w.push_back(x);
  static const long bad[] = {0, 1, 7, 1000, 2000000000}; uint32_t b = plan(7); long v = b < 4 ? nw + bad[b] : b == 4 ? bad[4] : b == 5 ? -1 : -(long)(1 + plan(100000)); w[2 + plan((uint32_t)w.size() - 3)] = std::to_string(v);
  std::string n; for (auto &y : w) n += (n.empty() ? "" : " ") + y; t.replace(g.first, g.second - g.first, n); what = "file with a gate on a wire that does not exist"; return true;
}
// ---- the circuits that come with the library
struct Shipped { const char *name; bool fashion; int alg, n1, n2, n3; };   // alg: 0 AES (key in input 1), 1 AES (key in input 2), 2 SHA-256 compression, 3 SHA-1, 4 SHA-256 from its initial state
const Shipped shipped[] = {{"bristol_fashion/aes_128.txt", true, 0, 128, 128, 128}, {"bristol_fashion/aes_192.txt", true, 0, 192, 128, 128}, {"bristol_fashion/aes_256.txt", true, 0, 256, 128, 128}, {"bristol_fashion/sha256.txt", true, 2, 512, 256, 256},
  {"bristol_format/AES-non-expanded.txt", false, 1, 128, 128, 128}, {"bristol_format/sha-1.txt", false, 3, 512, 0, 160}, {"bristol_format/sha-256.txt", false, 4, 512, 0, 256}, {"bristol_format/adder_32bit.txt", false, 5, 32, 32, 33}};
std::string real_file(const std::string &p) {
  std::string t; int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (fd < 0) return t; char b[65536]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) t.append(b, n); syscall(SYS_close, fd); return t;
}
Bits shipped_want(const Shipped &f, const Bits &in) {
  bool rev = f.fashion; auto bytes = [&](size_t off, size_t n) { std::vector<unsigned char> v(n / 8); for (size_t i = 0; i < n; i++) { size_t k = rev ? n - 1 - i : i; if (in[off + k]) v[i / 8] |= 0x80 >> (i % 8); } return v; };
  if (f.alg == 5) { uint64_t a = 0, b = 0; for (int i = 0; i < 32; i++) { a |= (uint64_t)in[i] << i; b |= (uint64_t)in[32 + i] << i; } a += b; Bits o; for (int i = 0; i < 33; i++) o.push_back(a >> i & 1); return o; }
  auto x = bytes(0, f.n1), y = bytes(f.n1, f.n2); unsigned char r[64] = {0};
  if (f.alg <= 1) { auto &k = f.alg ? y : x; auto &m = f.alg ? x : y; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(c, k.size() == 16 ? EVP_aes_128_ecb() : k.size() == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), nullptr, k.data(), nullptr); EVP_EncryptUpdate(c, r, &l, m.data(), 16); EVP_CIPHER_CTX_free(c); }
  else if (f.alg == 3) { SHA_CTX c; SHA1_Init(&c); SHA1_Transform(&c, x.data()); uint32_t h[5] = {(uint32_t)c.h0, (uint32_t)c.h1, (uint32_t)c.h2, (uint32_t)c.h3, (uint32_t)c.h4}; for (int i = 0; i < 20; i++) r[i] = h[i / 4] >> (24 - 8 * (i % 4)); }
  else { SHA256_CTX c; SHA256_Init(&c); if (f.alg == 2) for (int i = 0; i < 8; i++) c.h[i] = (uint32_t)y[4 * i] << 24 | y[4 * i + 1] << 16 | y[4 * i + 2] << 8 | y[4 * i + 3]; SHA256_Transform(&c, x.data()); for (int i = 0; i < 32; i++) r[i] = c.h[i / 4] >> (24 - 8 * (i % 4)); }
  Bits o(f.n3); for (int i = 0; i < f.n3; i++) o[rev ? f.n3 - 1 - i : i] = r[i / 8] >> (7 - i % 8) & 1; return o;
}
}
void scenario_main() {
  on_proc_switch = swap_statics; server = plan(2); std::string d, text; uint32_t mode = plan(8); const Shipped *sh = plan(80) ? nullptr : &shipped[plan(8)]; if (sh) { mode = 5 + plan(2); text = real_file(std::string(REPO_DIR "/emp-tool/circuits/files/") + sh->name); if (text.empty()) sh = nullptr; } bool fault = false; const char *what = "recorded"; Circ ref; std::vector<Bits> want; bool must_load = true, must_refuse = false; bool recorded = mode < 5;
  garbled = false; ideal.seed = 1 + plan(1000); knobs.bb_budget = 2000000000; std::vector<Proc *> ps; Bits A, B; size_t nrev = 0;
  disk.cfg.short_rd = plan(2) ? 3 : 0; disk.cfg.short_wr = plan(2) ? 3 : 0;
  if (recorded) {
    GenCfg g; g.max_and = plan(6) ? 300 : 3000; g.floats = plan(10) == 0; g.max_w = plan(3) ? 16 : 128; Gen gen(prog, g, 7); gen.run(1 + log_uniform(S_PLAN, 14)); uint32_t nc = plan(4); for (uint32_t i = 0; i < nc; i++) chunks.push_back(plan(20));
    if (plan(400) == 0) { bulk = 9990 + plan(30); chunks.assign(1, 3000); probe("case:large-circuit"); }
    Bits dry[2]; Bits base = run_plain(nullptr, nullptr, dry); A = dry[0]; B = dry[1]; n1_ = A.size(); n2_ = B.size(); nrev = base.size(); if (n1_ + n2_ == 0) finish_skip("no private input");
    uint32_t ni = 1 + plan(3); for (uint32_t i = 0; i < ni; i++) { Bits in(A); in.insert(in.end(), B.begin(), B.end()); if (i) { uint64_t h = hash64(i, plan(1 << 16)); for (size_t k = 0; k < in.size(); k++) in[k] = hash64(h, k) & 1; } inputs.push_back(in); }
    for (auto &in : inputs) { Bits a(in.begin(), in.begin() + n1_), b(in.begin() + n1_, in.end()); want.push_back(run_plain(&a, &b, nullptr)); }
    ProcCfg c; c.name = "recorder"; Proc *p = spawn_proc(c, [&] { record(A, B); });
    uint32_t f = mode == 4 ? 1 + plan(3) : 0;
    if (f == 1) { uint64_t when = 1 + log_uniform(S_FAULT, 400); what = "recorder killed"; at_step(when, [p] { if (p->alive()) { probe("fault:process-killed"); kill_proc(p, 9); } }); fault = true; }
    if (f == 2) { disk.cfg.capacity = log_uniform(S_FAULT, 8000); what = "disk full while recording"; fault = true; }
    if (f == 3) { disk.cfg.fail_after = log_uniform(S_FAULT, 200); disk.cfg.fail_mask = 2 | 4 | 8 | 16; disk.cfg.fail_errno = 5; disk.cfg.sticky = plan(2); what = "disk error while recording"; fault = true; }
    RunResult r = run_world(); describe(p, d); if (r != R_DONE) fail("hang", "recording does not end");
    if (!fault && p->state != P_DONE) fail("unexpected-exit", "recording fails although nothing went wrong (%s)", d.c_str());
    disk.cfg.capacity = ~0ULL; disk.cfg.fail_after = -1; must_load = !fault; auto it = disk.files.find(PATH); text = it == disk.files.end() ? "" : it->second->data;
    if (!fault) {
      std::string why; if (!parse_format(text, ref, why)) fail("bad-file", "the recorded file is not a Bristol circuit: %s", why.c_str());
      if ((size_t)ref.ng != ref.g.size()) fail("header", "header states %d gates, the file has %zu", ref.ng, ref.g.size());
      if ((size_t)ref.n1 != n1_ || (size_t)ref.n2 != n2_) fail("header", "header states %d and %d inputs instead of %zu and %zu", ref.n1, ref.n2, n1_, n2_);
      if ((size_t)ref.n3 != nrev) fail("header", "header states %d outputs, %zu bits were revealed", ref.n3, nrev);
      std::vector<char> def(std::max(ref.nw, 0) + 1, 0); for (size_t i = 0; i < n1_ + n2_ && (int)i < ref.nw; i++) def[i] = 1; int mx = (int)(n1_ + n2_) - 1;
      for (auto &x : ref.g) { for (int w : {x.a, x.k == 2 ? x.a : x.b, x.o}) if (w < 0 || w >= ref.nw) fail("bad-file", "gate uses wire %d of %d", w, ref.nw); if (!def[x.a] || (x.k != 2 && !def[x.b])) fail("bad-file", "a gate reads a wire that is not computed before it"); if (def[x.o]) fail("bad-file", "wire %d is computed twice", x.o); def[x.o] = 1; mx = std::max(mx, x.o); }
      if (ref.nw != mx + 1) fail("header", "header states %d wires, the circuit has %d", ref.nw, mx + 1);
      for (size_t i = 0; i < inputs.size(); i++) if (eval(ref, inputs[i]) != want[i]) { Bits o = eval(ref, inputs[i]); size_t k = 0; while (o[k] == want[i][k]) k++; fail("wrong-function", "the recorded circuit does not compute what the program revealed: output %zu of %zu is %d instead of %d", k, want[i].size(), (int)o[k], (int)want[i][k]); }
      uint64_t na = 0; for (auto &x : ref.g) na += x.k == 0; if (na != recorded_and) fail("and-count", "the recording backend reports %llu AND gates, the file has %llu", (unsigned long long)recorded_and, (unsigned long long)na);
      if (mode == 2 && plan(2)) { ld[0].fashion = ld[1].fashion = true; disk.files[PATH]->data = text = write_circ(ref, true); }
    }
  } else if (sh) {
    what = sh->name; probe("case:shipped-circuit"); n1_ = sh->n1; n2_ = sh->n2; nrev = sh->n3; ld[0].fashion = ld[1].fashion = sh->fashion; auto in = std::make_shared<Inode>(); in->path = PATH; in->data = text; disk.files[PATH] = in; disk.used = text.size();
    uint32_t ni = 1 + plan(2); for (uint32_t i = 0; i < ni; i++) { Bits x(n1_ + n2_); uint64_t h = hash64(i, plan(1 << 16)); bool edge = plan(6) == 0; for (size_t k = 0; k < x.size(); k++) x[k] = edge ? h & 1 : hash64(h, k) & 1; inputs.push_back(x); want.push_back(shipped_want(*sh, x)); }
  } else {
    bool uns = mode == 7 && plan(2); bool fash = plan(2); Circ c = foreign(uns, true); ref = c; what = uns ? "file with another gate type" : "foreign file"; must_load = !uns; fault = uns; n1_ = c.n1; n2_ = c.n2; nrev = c.n3; ld[0].fashion = ld[1].fashion = fash; text = write_circ(c, fash);
    auto in = std::make_shared<Inode>(); in->path = PATH; in->data = text; disk.files[PATH] = in; disk.used = text.size();
    uint32_t ni = 1 + plan(4); for (uint32_t i = 0; i < ni; i++) { Bits x(n1_ + n2_); uint64_t h = hash64(i, plan(1 << 16)); for (size_t k = 0; k < x.size(); k++) x[k] = hash64(h, k) & 1; inputs.push_back(x); want.push_back(eval(c, x)); }
  }
  if (!fault && (mode == 3 || mode == 6)) {   // damage the file
    fault = true; must_load = false; uint32_t k = plan(11);
    if (k == 0) { disk.files.erase(PATH); what = "missing file"; } else if (k == 1) { disk.files[PATH]->data.clear(); what = "empty file"; }
    else if (k < 6) { size_t n = k == 2 ? plan((uint32_t)std::min<size_t>(text.size(), 60)) : k == 3 ? text.size() - 1 - plan((uint32_t)std::min<size_t>(text.size(), 40)) : plan((uint32_t)text.size()); disk.files[PATH]->data.resize(n); what = "truncated file"; }
    else if (k == 6) { disk.cfg.fail_after = log_uniform(S_FAULT, 6); disk.cfg.fail_mask = 1; disk.cfg.fail_errno = 5; disk.cfg.sticky = plan(2); what = "read error"; }
    else if (k >= 8 && damage_wires(disk.files[PATH]->data, what)) must_refuse = true;
    else { size_t l0 = text.find('\n', plan((uint32_t)text.size())); if (l0 != std::string::npos) { size_t l1 = text.find('\n', l0 + 1); if (l1 != std::string::npos) disk.files[PATH]->data.erase(l0, l1 - l0); } what = "file with a line missing"; }
    probe("fault:damaged-file");
  }
  garbled = !fault && plan(4) == 0; privfree = garbled && plan(3) == 0; if (privfree) probe("case:privacy-free"); if (garbled) { ld[0].how = plan(5); ld[1].how = plan(5); } else ld[0].how = plan(5); ld[1].who = 1; faulty = fault; ld[0].inplace = plan(4) == 0; ld[1].inplace = plan(4) == 0;
  pick_policy(); pick_net(200000); if (net_cfg.capacity < 4096) net_cfg.capacity = 4096;
  sample("%s%s, %zu+%zu inputs, %zu outputs, %zu bytes of text, %zu evaluations, %s", what, ld[0].fashion ? " (fashion)" : "", n1_, n2_, nrev, text.size(), inputs.size(), privfree ? "privacy-free" : garbled ? "half-gates" : "in the clear"); set_nontrivial(nrev > 0 || fault);
  ps.clear(); for (int i = 0; i < (garbled ? 2 : 1); i++) { ProcCfg c; c.name = i ? "bob" : "alice"; c.ip = i == server ? 0x0a000001 : 0x0a000002; ps.push_back(spawn_proc(c, [i, fault] { loader(i, fault); })); }
  RunResult r = run_world(); std::string all; for (auto *p : ps) { all += describe(p, d); all += "; "; }
  if (r == R_DEADLOCK || r == R_BUDGET) fail("hang", "loading (%s) does not end (%s)", what, all.c_str());
  for (size_t i = 0; i < ps.size(); i++) {
    Load &L = ld[i]; bool refused = ps[i]->failed() || L.threw;
    if (ps[i]->state == P_KILLED && ps[i]->status != 6) fail("crash", "loading (%s) crashes (%s)", what, all.c_str());
    if (must_load && refused) fail("refused", "an intact circuit file is not loaded (%s: %s)", what, all.c_str());
    if (must_refuse && !refused) fail("accepted", "%s: the circuit is accepted", what);
    if (refused) { probe("case:refused"); continue; }
    if (L.bad) { if (fault) fail("silent", "%s: the loader reports a circuit with other inputs", what); fail("wrong-header", "the loaded circuit states %d+%d inputs instead of %zu+%zu", L.hdr.n1, L.hdr.n2, n1_, n2_); }
    if ((size_t)L.hdr.n3 != nrev) fail(fault ? "silent" : "wrong-header", "%s: the loaded circuit states %d outputs instead of %zu", what, L.hdr.n3, nrev);
    if (L.runs.size() != inputs.size()) fail("missing-output", "%s: evaluation did not happen (%s)", what, all.c_str());
    for (size_t k = 0; k < inputs.size(); k++) if (L.runs[k].out != want[k]) fail(fault ? "silent" : "wrong-function", "%s: the loaded circuit computes another function", what);
    if (fault) probe("case:accepted-and-equal");
  }
}
