// Random typed programs, their reference semantics, and an execution of them as
// garbler/evaluator over any channel with ideal input and output functionalities.
#pragma once
#include "common.h"
#include "emp-tool/emp-tool.h"
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <memory>
#include <math.h>

namespace gc {
using namespace sim; using namespace emp;
typedef unsigned __int128 U; typedef __int128 I;
static inline U mask(int w) { return w >= 128 ? ~(U)0 : (((U)1 << w) - 1); }
static inline I sx(U v, int w) { U m = (U)1 << (w - 1); return (I)((v ^ m) - m) ; }
static inline I sgn(U v, int w) { v &= mask(w); return w == 128 ? (I)v : sx(v, w); }
static inline U rnd128(uint64_t id) { return ((U)hash64(id, 11) << 64) | hash64(id, 12); }
static inline U value_of(uint32_t pick, uint64_t id, int w) {   // interesting values
  U v; switch (pick) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = ~(U)0; break; case 3: v = (U)1 << (w - 1); break; case 4: v = ((U)1 << (w - 1)) - 1; break; case 5: v = rnd128(id) & 15; break; default: v = rnd128(id); }
  return v & mask(w);
}
enum K { BIN, IIN, FIN,            // inputs
  BAND, BOR, BXOR, BNOT, BEQ, BNEQ, BSEL, BXEQ, BIF, BSWAP,
  IADD, ISUB, INEG, IMUL, IDIV, IMOD, IAND, IOR, IXOR, IXEQ, ISHL, ISHR, ISHLS, ISHRS, IGEQ, ILT, ILE, IGT, IEQ, INE, ISEL, IIF, IABS, IRESIZE, IHW, ILZ, ISWAP, ISORT, IIDX, IFROMB, IMODEXP, ISETBIT,
  FADD, FSUB, FMUL, FDIV, FNEG, FABS, FEQ, FLE, FLT, FIF, FSQ, FSQRT, FFN, FXOR,
  CADDER, CAES, CSHA3, WIN, WOP, RWIDE,
  RBIT, RINT, RFLOAT, FLUSH };
struct Op { int k; int a = 0, b = 0, c = 0, w = 0, party = 0, kind = 0; U v = 0; std::string s; };
struct Prog { std::vector<Op> ops; std::vector<std::string> out; size_t approx_and = 0, inputs = 0, reveals = 0; };
struct GenCfg { uint32_t max_ops = 40; bool floats = true, circuits = false, oneway = false, mid_reveal = true; size_t max_and = 40000; bool only_bits = false; int max_w = 128; bool wide = false, keccak = false; };

static inline std::string bits_str(U v, int w) { std::string s; for (int i = 0; i < w; i++) s += (v >> i & 1) ? '1' : '0'; return s; }
static inline std::string wide_str(const std::string &bytes, int w) { std::string s; for (int i = 0; i < w; i++) s += ((uint8_t)bytes[i / 8] >> (i % 8) & 1) ? '1' : '0'; return s; }
static inline float fbits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline uint32_t bitsf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }

// float operations: the value in the clear is the plaintext back end's; it has to agree with IEEE up to rounding
struct PlainScope { CircuitExecution *c; ProtocolExecution *p; PlainScope() { c = CircuitExecution::circ_exec; p = ProtocolExecution::prot_exec; setup_plain_prot(false, ""); } ~PlainScope() { delete CircuitExecution::circ_exec; delete ProtocolExecution::prot_exec; CircuitExecution::circ_exec = c; ProtocolExecution::prot_exec = p; } };
static inline Float apply_f(int k, int fn, const Float &a, const Float &b) {
  switch (k) { case FADD: return a + b; case FSUB: return a - b; case FMUL: return a * b; case FDIV: return a / b; case FNEG: return -a; case FABS: return a.abs(); case FSQ: return a.sqr(); case FSQRT: return a.sqrt(); case FXOR: { Float x = (a ^ b) ^ b; x ^= a; x ^= a; return x & x; }
    case FFN: switch (fn) { case 0: return a.sin(); case 1: return a.cos(); case 2: return a.exp2(); case 3: return a.exp(); case 4: return a.ln(); default: return a.log2(); } }
  return a;
}
static inline float plain_f(int k, int fn, float x, float y) { Harness h; PlainScope s; Float a(x, ALICE), b(y, BOB); Float r = apply_f(k, fn, a, b); uint32_t o = 0; for (int i = 0; i < 32; i++) o |= (uint32_t)r[i].reveal<bool>() << i; return fbits(o); }
static inline bool plain_fb(int k, float x, float y) { Harness h; PlainScope s; Float a(x, ALICE), b(y, BOB); Bit r = k == FEQ ? a.equal(b) : k == FLE ? a.less_equal(b) : a.less_than(b); return r.reveal<bool>(); }

static const char *kname(int k) {
  static const char *n[] = {"bit input", "int input", "float input", "bit &", "bit |", "bit ^", "bit !", "bit ==", "bit !=", "bit select", "bit ^=", "bit If", "bit swap", "int +", "int -", "int neg", "int *", "int /", "int %", "int &", "int |", "int ^", "int ^=", "int << n", "int >> n", "int << int", "int >> int", "int >=", "int <", "int <=", "int >", "int ==", "int !=", "int select", "int If", "int abs", "int resize", "int hamming_weight", "int leading_zeros", "int swap", "int sort", "int []", "int from bits", "int modExp", "int set bit", "float +", "float -", "float *", "float /", "float neg", "float abs", "float ==", "float <=", "float <", "float If", "float sqr", "float sqrt", "float function", "float ^", "adder circuit", "AES circuit", "wide input", "wide operation", "reveal wide", "reveal bit", "reveal int", "reveal float", "flush"};
  return n[k];
}
// integers of any width: bit strings, least significant bit first
namespace wide {
typedef std::string S;
static inline S rnd(int w, uint32_t pick, uint64_t id) { S s(w, '0'); switch (pick) { case 0: break; case 1: s.assign(w, '1'); break; case 2: s[w - 1] = '1'; break; case 3: s[0] = '1'; break; case 4: s.assign(w, '1'); s[w - 1] = '0'; break; default: for (int i = 0; i < w; i++) s[i] = '0' + (hash64(id, i) >> 13 & 1); } return s; }
static inline S add(const S &a, const S &b, int c = 0) { S r = a; for (size_t i = 0; i < a.size(); i++) { int t = (a[i] - '0') + (b[i] - '0') + c; r[i] = '0' + (t & 1); c = t >> 1; } return r; }
static inline S inv(const S &a) { S r = a; for (auto &x : r) x ^= 1; return r; }
static inline S zero(size_t w) { return S(w, '0'); }
static inline S sub(const S &a, const S &b) { return add(a, inv(b), 1); }
static inline S shl(const S &a, size_t n) { S r = zero(a.size()); for (size_t i = n; i < a.size(); i++) r[i] = a[i - n]; return r; }
static inline S shr(const S &a, size_t n) { S r = zero(a.size()); for (size_t i = n; i < a.size(); i++) r[i - n] = a[i]; return r; }
static inline S mul(const S &a, const S &b) { S r = zero(a.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] == '1') r = add(r, shl(a, i)); return r; }
static inline bool ult(const S &a, const S &b) { for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i]; return false; }
static inline bool sge(const S &a, const S &b) { char x = a.back(), y = b.back(); if (x != y) return x < y; return !ult(a, b); }
static inline S absv(const S &a) { return a.back() == '1' ? sub(zero(a.size()), a) : a; }
static inline void udiv(const S &a, const S &b, S &q, S &r) { q = r = zero(a.size()); for (size_t i = a.size(); i-- > 0;) { S r2 = r + '0'; for (size_t k = r2.size() - 1; k > 0; k--) r2[k] = r2[k - 1]; r2[0] = a[i]; S b2 = b + '0'; if (!ult(r2, b2)) { r2 = sub(r2, b2); q[i] = '1'; } r = r2.substr(0, a.size()); } }
enum { ADD, SUB, NEG, XOR, AND, OR, SHL, SHR, SHLI, SHRI, GEQ, LT, EQ, NE, SEL, IF, ABS, RESIZE, HW, LZ, MUL, DIV, MOD, SWAP, CUT, XEQ, N };
static inline size_t cost(int k, size_t w) { return k == MUL ? w * w : k == DIV || k == MOD ? 2 * w * w + 4 * w : k == HW || k == LZ ? 4 * w : k == SHLI || k == SHRI ? 11 * w : 2 * w; }
}
struct IV { int w; U v; };
struct Gen {
  Prog &p; GenCfg g; std::vector<bool> B; std::vector<IV> N; std::vector<float> F; std::vector<std::string> W; uint64_t ctr; bool have_circ = false;
  Gen(Prog &p, GenCfg g, uint64_t salt) : p(p), g(g), ctr(salt * 100000) {}
  int party() { uint32_t x = plan(5); return x < 2 ? ALICE : x < 4 ? BOB : PUBLIC; }
  int width() { switch (plan(8)) { case 0: return 1 + plan(4); case 1: return 32; case 2: return 64; case 3: return std::min(g.max_w, 65 + (int)plan(64)); case 4: return 8; default: return 2 + (int)plan(std::min(46, g.max_w - 2)); } }
  int rb() { if (B.empty() || plan(8) == 0) { Op o; o.k = BIN; o.party = party(); o.v = hash64(++ctr, plan(2)) & 1; p.ops.push_back(o); B.push_back((bool)o.v); p.inputs++; } return plan(3) ? (int)plan(B.size()) : (int)B.size() - 1; }
  int new_int(int w) { Op o; o.k = IIN; o.w = w; o.party = party(); o.v = value_of(plan(9), ++ctr, w); o.kind = plan(2) ? 0 : 1; if (o.kind == 0 && (w == 8 || w == 16 || w == 32 || w == 64) && plan(2)) o.kind = 2; if (o.kind == 0 && w > 64) o.v = (U)(I)(int64_t)o.v & mask(w); p.ops.push_back(o); N.push_back({w, o.v}); p.inputs++; return (int)N.size() - 1; }
  int ri() { if (N.empty() || plan(8) == 0) return new_int(width()); return plan(3) ? (int)plan(N.size()) : (int)N.size() - 1; }
  int ri_w(int w) { std::vector<int> c; for (size_t i = 0; i < N.size(); i++) if (N[i].w == w) c.push_back(i); if (c.empty() || plan(6) == 0) return new_int(w); return c[plan(c.size())]; }
  float fval() { uint32_t x = plan(7); int32_t r = (int32_t)hash64(++ctr, 3); switch (x) { case 0: return 0.0f; case 1: return 1.0f; case 2: return -2.5f; default: return (float)r / 1000000.0f / (1 << plan(8)); } }
  int rf() { if (F.empty() || plan(5) == 0) { Op o; o.k = FIN; o.party = party(); float f = fval(); o.v = bitsf(f); p.ops.push_back(o); F.push_back(f); p.inputs++; return (int)F.size() - 1; } return plan(F.size()); }
  static bool nice(float f) { return f == 0 || (std::isfinite(f) && fabsf(f) > 1e-6 && fabsf(f) < 1e6); }
  void out(const std::string &s) { p.out.push_back(s); p.reveals++; }
  int rparty() { return g.oneway ? BOB : (int[]){PUBLIC, PUBLIC, ALICE, BOB}[plan(4)]; }
  void emit_reveal(int t, int i) {
    Op o; o.party = rparty();
    if (t == 0) { o.k = RBIT; o.a = i; o.kind = plan(2); out(B[i] ? "1" : "0"); }
    else if (t == 1) { o.k = RINT; o.a = i; o.kind = plan(7); int w = N[i].w; U v = N[i].v;
      if (o.kind == 6 && w % 8) o.kind = 0;
      if (o.kind == 2 || o.kind == 4) { w = 32; v &= mask(std::min(32, N[i].w)); } if (o.kind == 3 || o.kind == 5) { w = 64; v &= mask(std::min(64, N[i].w)); }
      out(bits_str(v, w)); }
    else { o.k = RFLOAT; o.a = i; out(bits_str(bitsf(F[i]), 32)); }
    p.ops.push_back(o);
  }
  void step() {
    Op o; uint32_t t = g.only_bits ? 0 : plan(g.floats ? 13 : 10);
    if (t < 3) {
      o.k = BAND + plan(10); o.a = rb(); o.b = rb(); if (o.k == BSEL || o.k == BIF || o.k == BSWAP) o.c = rb();
      bool a = B[o.a], b = B[o.b], c = B[o.c], r = false;
      switch (o.k) { case BAND: r = a & b; break; case BOR: r = a | b; break; case BXOR: case BNEQ: case BXEQ: r = a ^ b; break; case BNOT: r = !a; break; case BEQ: r = a == b; break; case BSEL: r = c ? b : a; break; case BIF: r = c ? a : b; break; case BSWAP: r = c ? b : a; break; }
      p.approx_and++; B.push_back(r); if (o.k == BSWAP) B.push_back(c ? a : b);
    } else if (t < 10) {
      o.k = IADD + plan(ISETBIT - IADD + 1); o.a = ri(); int w = N[o.a].w; U m = mask(w), a = N[o.a].v;
      size_t cost = (o.k == IMUL ? w * w : o.k == IDIV || o.k == IMOD ? 2 * w * w : 2 * w);
      if (p.approx_and + cost > g.max_and || (o.k == IMODEXP && plan(4))) { o.k = IXOR; }
      auto two = [&] { o.b = ri_w(w); return N[o.b].v; };
      auto close = [&] { if (plan(3)) return two(); Op q; q.k = IIN; q.w = w; q.party = party(); uint32_t z = plan(4); q.v = (z == 0 ? a : z == 1 ? a + 1 : z == 2 ? a - 1 : a ^ ((U)1 << (plan(2) ? w - 1 - plan(std::min(w, 3)) : plan(w)))) & m; q.kind = w > 64 ? 1 : plan(2); p.ops.push_back(q); N.push_back({w, q.v}); o.b = (int)N.size() - 1; p.inputs++; probe("case:close-operands"); return q.v; };   // operands that differ in one place
      switch (o.k) {
        case IADD: N.push_back({w, (a + two()) & m}); break;
        case ISUB: N.push_back({w, (a - two()) & m}); break;
        case INEG: N.push_back({w, (-a) & m}); break;
        case IMUL: N.push_back({w, (a * two()) & m}); break;
        case IDIV: case IMOD: {
          if (w < 2) { o.k = IXOR; N.push_back({w, (a ^ two()) & m}); break; }
          U b = two(); if (!b) { o.k = IXOR; N.push_back({w, a ^ b}); break; }
          bool sa = a >> (w - 1) & 1, sb = b >> (w - 1) & 1; U ua = sa ? (-a) & m : a, ub = sb ? (-b) & m : b;
          U r = o.k == IDIV ? ua / ub : ua % ub; bool neg = o.k == IDIV ? sa != sb : sa; N.push_back({w, (neg ? -r : r) & m}); break; }
        case IAND: N.push_back({w, a & two()}); break;
        case IOR: N.push_back({w, a | two()}); break;
        case IXOR: case IXEQ: N.push_back({w, a ^ two()}); break;
        case ISHL: o.w = plan(w + 3); N.push_back({w, o.w >= w ? 0 : (a << o.w) & m}); break;
        case ISHR: o.w = plan(w + 3); N.push_back({w, o.w >= w ? 0 : a >> o.w}); break;
        case ISHLS: case ISHRS: {
          if (w < 4) { o.k = IXOR; N.push_back({w, a ^ two()}); break; }
          int lg = 0; while ((1 << lg) < w) lg++; int kw = plan(2) ? w : 2 + (int)plan(lg + 3); Op q; q.k = IIN; q.w = kw; q.party = party(); q.v = plan(1u << std::min(lg, kw - 1)); q.kind = 1; p.ops.push_back(q); N.push_back({kw, q.v}); o.b = (int)N.size() - 1; p.inputs++;
          unsigned sh = (unsigned)q.v; N.push_back({w, sh >= (unsigned)w ? 0 : o.k == ISHLS ? (a << sh) & m : a >> sh}); break; }
        case IGEQ: { U b = close(); B.push_back(sgn(a, w) >= sgn(b, w)); break; }
        case ILT: { U b = close(); B.push_back(sgn(a, w) < sgn(b, w)); break; }
        case ILE: { U b = close(); B.push_back(sgn(a, w) <= sgn(b, w)); break; }
        case IGT: { U b = close(); B.push_back(sgn(a, w) > sgn(b, w)); break; }
        case IEQ: { U b = plan(3) == 0 ? (o.b = o.a, a) : close(); B.push_back(a == b); break; }
        case INE: { U b = plan(3) == 0 ? (o.b = o.a, a) : close(); B.push_back(a != b); break; }
        case ISEL: { U b = two(); o.c = rb(); N.push_back({w, B[o.c] ? b : a}); break; }
        case IIF: { U b = two(); o.c = rb(); N.push_back({w, B[o.c] ? a : b}); break; }
        case IABS: N.push_back({w, (a >> (w - 1) & 1) ? (-a) & m : a}); break;
        case IRESIZE: { int nw = 1 + plan(std::min(127, w + 20)); o.w = nw; o.kind = plan(2); U v = o.kind ? (U)sgn(a, w) : a; N.push_back({nw, v & mask(nw)}); break; }
        case IHW: case ILZ: { int c = 0; if (o.k == IHW) { for (int i = 0; i < w; i++) c += (int)(a >> i & 1); } else { while (c < w && !(a >> (w - 1 - c) & 1)) c++; }
          int rw = 2, n = w; while (n > 1) { n = (n + 1) / 2; rw++; } N.push_back({rw, (U)c}); break; }
        case ISWAP: { U b = two(); o.c = rb(); bool s = B[o.c]; N.push_back({w, s ? b : a}); N.push_back({w, s ? a : b}); break; }
        case ISORT: { // sort n copies of fresh registers of one width
          int sw = 2 + (int)plan(5), sn = g.max_and >= 40000 && plan(2) ? 60 + (int)plan(76) : 8 + (int)plan(75), lg = 1; while ((1 << lg) < sn) lg++; size_t sc = (size_t)sn * lg * (lg + 1) / 4 * (3 * sw + 2); bool many = plan(g.max_and >= 40000 ? 2 : 4) == 0 && p.approx_and + sc < g.max_and; if (many) { w = sw; m = mask(w); p.approx_and += sc; probe("case:many-sorted"); }
          int n = many ? sn : plan(10) == 0 ? (int)plan(2) : 2 + (int)plan(6); if (!many && plan(12) == 0 && p.approx_and + 40 * 36 * (3 * w + 2) < g.max_and) { n = 8 + plan(33); p.approx_and += n * 36 * (3 * w + 2); } o.w = n; std::vector<U> v; std::string idx; for (int i = 0; i < n; i++) { int r = ri_w(w); idx += (char)(r & 255); idx += (char)(r >> 8); v.push_back(N[r].v); }
          o.s = idx; o.kind = plan(2); std::sort(v.begin(), v.end(), [&](U x, U y) { return o.kind ? sgn(x, w) > sgn(y, w) : sgn(x, w) < sgn(y, w); }); for (U x : v) N.push_back({w, x}); o.c = plan(2); if (o.c) for (U x : v) N.push_back({w, x ^ m}); break; }
        case IIDX: o.w = plan(w + 2); B.push_back(a >> std::min(o.w, w - 1) & 1); break;
        case IFROMB: { int n = 1 + plan(12); U v = 0; for (int i = 0; i < n; i++) { int r = rb(); o.s += (char)(r & 255); o.s += (char)(r >> 8); v |= (U)B[r] << i; } N.push_back({n, v}); break; }
        case IMODEXP: { // 16 bit, q < 128
          auto in = [&](int ww, U v) { Op q; q.k = IIN; q.w = ww; q.party = party(); q.v = v; q.kind = 1; p.ops.push_back(q); N.push_back({ww, v}); p.inputs++; return (int)N.size() - 1; };
          bool nar = plan(2); int ww = nar ? 9 : 16, ew = 3; if (plan(2)) { size_t left = p.approx_and < g.max_and ? g.max_and - p.approx_and : 0; ew = 1 + (int)plan((uint32_t)std::min<size_t>(14, 1 + left / (6 * ww * ww))); }
          U top = nar ? 15 : 127, bv = plan((uint32_t)top + 1), ev = plan(2) ? plan(1u << ew) : (1u << ew) - 1 - plan(2), qv = 1 + plan((uint32_t)top); o.a = in(ww, bv); o.b = in(ew, ev); o.c = in(ww, qv); U r = 1; for (int i = 0; i < ew; i++) { if (ev >> i & 1) r = r * bv % qv; bv = bv * bv % qv; } N.push_back({ww, r}); p.approx_and += ew * 6 * ww * ww; break; }
        case ISETBIT: { o.c = rb(); o.w = plan(w); U bit = (U)1 << o.w; N.push_back({w, B[o.c] ? a | bit : a & ~bit}); break; }
      }
      p.approx_and += cost;
    } else {
      o.k = FADD + plan(FXOR - FADD + 1); o.a = rf(); float a = F[o.a], r; 
      if (o.k == FFN) { o.kind = plan(6); if (plan(6) || p.approx_and + 12000 > g.max_and) o.k = FNEG; else { p.approx_and += 12000; probe("op:float-function"); } }
      bool two = o.k == FADD || o.k == FSUB || o.k == FMUL || o.k == FDIV || o.k == FEQ || o.k == FLE || o.k == FLT || o.k == FIF || o.k == FXOR; if (two) { o.b = rf(); a = F[o.a]; } float b = two ? F[o.b] : 0;
      if (o.k == FEQ || o.k == FLE || o.k == FLT) {
        bool v = plain_fb(o.k, a, b), nat = o.k == FEQ ? a == b : o.k == FLE ? a <= b : a < b;
        if (nice(a) && nice(b) && v != nat && !(a == 0 || b == 0)) fail("plain-float", "%s on %g and %g gives %d in the clear", kname(o.k), a, b, v);
        B.push_back(v); p.approx_and += 200;
      } else if (o.k == FIF) { o.c = rb(); F.push_back(B[o.c] ? b : a); p.approx_and += 32; }
      else {
        r = plain_f(o.k, o.kind, a, b); double nat; bool chk = nice(a) && nice(b); double tol = 1e-5;
        switch (o.k) { case FADD: nat = (double)a + b; break; case FSUB: nat = (double)a - b; break; case FMUL: nat = (double)a * b; break; case FDIV: nat = (double)a / b; if (b == 0) chk = false; break; case FNEG: nat = -a; break; case FABS: nat = fabs(a); break; case FSQ: nat = (double)a * a; break; case FSQRT: nat = sqrt(a); if (a < 0) chk = false; tol = 1e-3; break; case FXOR: nat = a; break; default: chk = false; nat = 0; }
        if (chk && fabs(nat) < 1e9 && (nat == 0 || fabs(nat) > 1e-9)) { double scale = std::max({fabs(nat), o.k == FADD || o.k == FSUB ? std::max(fabs((double)a), fabs((double)b)) : 0.0, 1e-20}); if (!(fabs(r - nat) <= tol * scale)) fail("plain-float", "%s on %.9g and %.9g gives %.9g in the clear instead of %.9g", kname(o.k), a, b, r, nat); }
        F.push_back(r); p.approx_and += 2500;
      }
    }
    p.ops.push_back(o);
  }
  int new_wide(int w) { Op o; o.k = WIN; o.w = w; o.party = party(); o.s = wide::rnd(w, plan(9), ++ctr); o.kind = plan(2); p.ops.push_back(o); W.push_back(o.s); p.inputs++; return (int)W.size() - 1; }
  int rw_() { if (W.empty() || plan(5) == 0) { int w; switch (plan(6)) { case 0: w = 129 + plan(8); break; case 1: w = 250 + plan(12); break; case 2: w = 256 * (1 + plan(3)) + plan(5) - 2; break; case 3: w = 2000 + plan(100); break; default: w = 129 + plan(600); } return new_wide(w); } return plan(W.size()); }
  int rw_w(int w) { std::vector<int> c; for (size_t i = 0; i < W.size(); i++) if ((int)W[i].size() == w) c.push_back(i); if (c.empty() || plan(4) == 0) return new_wide(w); return c[plan(c.size())]; }
  void step_wide() {
    using namespace wide; Op o; o.k = WOP; o.kind = plan(wide::N); bool heavy = o.kind == MUL || o.kind == DIV || o.kind == MOD; bool vast = o.kind == MUL && g.max_and >= 40000 && plan(4) == 0; o.a = vast ? new_wide(254 + plan(10)) : heavy ? new_wide(129 + plan(20)) : rw_(); std::string a = W[o.a]; int w = (int)a.size();
    if (!vast && p.approx_and + cost(o.kind, w) > g.max_and) o.kind = XOR; p.approx_and += cost(o.kind, w);
    auto two = [&] { o.b = rw_w(w); return W[o.b]; };
    auto close = [&] { if (plan(2)) return two(); Op q; q.k = WIN; q.w = w; q.party = party(); q.s = a; char &c = q.s[plan(2) ? w - 1 - plan(std::min(w, 40)) : plan(w)]; c = c == '0' ? '1' : '0'; q.kind = plan(2); p.ops.push_back(q); W.push_back(q.s); p.inputs++; o.b = (int)W.size() - 1; return q.s; };
    switch (o.kind) {
      case ADD: W.push_back(add(a, two())); break; case SUB: W.push_back(sub(a, two())); break; case NEG: W.push_back(sub(zero(w), a)); break;
      case wide::XOR: case XEQ: case AND: case OR: { std::string b = two(), r = a; for (int i = 0; i < w; i++) r[i] = '0' + (o.kind == AND ? (a[i] & b[i] & 1) : o.kind == OR ? ((a[i] | b[i]) & 1) : ((a[i] ^ b[i]) & 1)); W.push_back(r); break; }
      case SHL: case SHR: o.w = plan(w + 3); W.push_back(o.w >= w ? zero(w) : o.kind == SHL ? shl(a, o.w) : shr(a, o.w)); break;
      case SHLI: case SHRI: { int lg = 0; while ((1 << lg) < w) lg++; int kw = plan(2) ? lg + 1 + (int)plan(4) : 2 + (int)plan(lg + 3); Op q; q.k = IIN; q.w = kw; q.party = party(); q.v = plan(1u << std::min(lg, kw - 1)); q.kind = 1; p.ops.push_back(q); N.push_back({kw, q.v}); o.b = (int)N.size() - 1; p.inputs++; size_t n = (size_t)q.v; W.push_back(n >= (size_t)w ? zero(w) : o.kind == SHLI ? shl(a, n) : shr(a, n)); break; }
      case GEQ: { std::string b = close(); B.push_back(sge(a, b)); break; } case LT: { std::string b = close(); B.push_back(!sge(a, b)); break; }
      case wide::EQ: case NE: { std::string b = plan(2) ? (o.b = o.a, a) : close(); B.push_back((a == b) == (o.kind == wide::EQ)); break; }
      case SEL: case IF: { std::string b = two(); o.c = rb(); W.push_back(B[o.c] == (o.kind == SEL) ? b : a); break; }
      case ABS: W.push_back(absv(a)); break;
      case RESIZE: { int nw = 129 + plan(w + 200); o.w = nw; o.c = plan(2); std::string r = a; r.resize(nw, o.c ? a.back() : '0'); W.push_back(r); break; }
      case CUT: { o.w = 1 + plan(128); U v = 0; for (int i = 0; i < o.w; i++) v |= (U)(a[i] & 1) << i; N.push_back({o.w, v}); break; }
      case HW: case LZ: { int c = 0; if (o.kind == HW) for (char x : a) c += x & 1; else while (c < w && a[w - 1 - c] == '0') c++; int rw = 2, n = w; while (n > 1) { n = (n + 1) / 2; rw++; } N.push_back({rw, (U)c}); break; }
      case MUL: W.push_back(mul(a, two())); break;
      case DIV: case MOD: { std::string b = two(); if (b.find('1') == std::string::npos) { o.kind = wide::XOR; W.push_back(a); break; } std::string q, r; udiv(absv(a), absv(b), q, r); bool neg = o.kind == DIV ? a.back() != b.back() : a.back() == '1'; std::string &x = o.kind == DIV ? q : r; W.push_back(neg ? sub(zero(w), x) : x); break; }
      case SWAP: { std::string b = two(); o.c = rb(); W.push_back(B[o.c] ? b : a); W.push_back(B[o.c] ? a : b); break; }
    }
    probe("op:wide-integer"); p.ops.push_back(o);
  }
  static std::string aes_ctr_ref(const std::string &key, const std::string &iv, uint64_t chunk, const std::string &in) {
    std::string ivc = iv; unsigned __int128 c = 0; for (int i = 0; i < 16; i++) c = c << 8 | (uint8_t)iv[i]; c += chunk; for (int i = 15; i >= 0; i--) { ivc[i] = (char)c; c >>= 8; }
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, EVP_aes_128_ctr(), nullptr, (const uint8_t *)key.data(), (const uint8_t *)ivc.data()); std::string o(in.size(), 0); int l = 0; EVP_EncryptUpdate(x, (uint8_t *)&o[0], &l, (const uint8_t *)in.data(), (int)in.size()); EVP_CIPHER_CTX_free(x); return o;
  }
  void circuit() {
    Op o; have_circ = true;
    if (g.keccak) { // concatenation of pieces held by either party; lengths around the block size of the sponge
      o.k = CSHA3; o.kind = plan(6); o.c = plan(3) == 0; uint32_t t = plan(5); o.w = t == 0 ? (int)plan(3) : t < 3 ? 1 + (int)plan(60) : t == 3 ? 130 + (int)plan(10) : 270 + (int)plan(5); o.v = plan(1 << 16); o.s = Bytes::str(o.w, ++ctr); unsigned char dg[32]; unsigned int l = 32; EVP_Digest(o.s.data(), o.s.size(), dg, &l, EVP_sha3_256(), nullptr);
      probe("op:sha3"); for (int i = 0; i <= o.c; i++) out(wide_str(std::string((char *)dg, 32), 256)); p.approx_and += 38400 * (1 + o.c) * (1 + o.w / 136); p.ops.push_back(o); return;
    }
    if (plan(2)) { o.k = CADDER; o.a = new_int(32); o.b = new_int(32); N.push_back({33, (N[o.a].v + N[o.b].v) & mask(33)}); p.approx_and += 130; }
    else {
      o.k = CAES; o.kind = plan(3); o.w = 1 + plan(300); o.c = plan(2) ? 0 : plan(70000); o.party = (o.kind == 2 || o.kind == 1) ? PUBLIC : (int)PUBLIC; o.s = Bytes::str(16 + 16 + 40, ++ctr); o.a = plan(2); o.b = plan(3);
      if (plan(3) == 0) { for (int i = 8; i < 16; i++) o.s[16 + i] = (char)0xff; o.s[31] = (char)(255 - plan(4)); if (o.c > 2) { o.s[30] = (char)plan(256); o.s[29] = (char)(plan(2) ? 0xff : 0xfe); } if (plan(4) == 0) for (int i = plan(8); i < 8; i++) o.s[16 + i] = (char)0xff; probe("case:aes-counter-carry"); }   // the counter carries beyond 32 and 64 bits
      std::string in = o.s.substr(32, 40); if (o.b == 2) in.assign(40, 0); std::string r = aes_ctr_ref(o.s.substr(0, 16), o.s.substr(16, 16), o.c, in);
      out(wide_str(r, o.w)); p.approx_and += 6400 * (1 + o.w / 128); p.ops.push_back(o); return;
    }
    p.ops.push_back(o);
  }
  void run(uint32_t nops) {
    for (uint32_t i = 0; i < nops && p.approx_and < g.max_and; i++) {
      if (g.wide && plan(3) == 0) step_wide(); else step();
      if (g.circuits && plan(nops * 2) == 0) circuit();
      if (g.mid_reveal && plan(9) == 0) { uint32_t t = plan(3); if (t == 0 && !B.empty()) emit_reveal(0, plan(B.size())); else if (t == 1 && !N.empty()) emit_reveal(1, plan(N.size())); else if (!F.empty()) emit_reveal(2, plan(F.size())); }
      if (plan(12) == 0) { Op f; f.k = FLUSH; p.ops.push_back(f); }
    }
    // final reveals
    for (size_t i = 0; i < B.size(); i++) if (i + 3 > B.size() || plan(3) == 0) emit_reveal(0, i);
    for (size_t i = 0; i < N.size(); i++) if (i + 3 > N.size() || plan(3) == 0) emit_reveal(1, i);
    for (size_t i = 0; i < F.size(); i++) if (i + 2 > F.size()) emit_reveal(2, i);
    for (size_t i = 0; i < W.size(); i++) if (i + 3 > W.size() || plan(3) == 0) { Op o; o.k = RWIDE; o.a = (int)i; o.party = rparty(); o.kind = plan(3); out(W[i]); p.ops.push_back(o); }
  }
};
// run the program on the current back end; out: what this party was revealed ("-" where it is not entitled)
struct Hooks { std::function<void()> flush; std::function<void(int, const Op &)> after; };
static inline void execute(const Prog &p, int me, std::vector<std::string> &out, const Hooks &hk) {
  std::vector<Bit> B; std::vector<Integer> N, W; std::vector<Float> F; std::string tmp;
  auto own = [&](const Op &o, U v) { return me == 0 || o.party == PUBLIC || o.party == me ? v : rnd128((uint64_t)v + 5); };
  int n = 0;
  for (const Op &o : p.ops) {
    switch (o.k) {
      case BIN: B.push_back(Bit((bool)(own(o, o.v) & 1), o.party)); break;
      case IIN: { U v = own(o, o.v) & mask(o.w); if (o.kind == 0) N.push_back(Integer(o.w, (int64_t)v, o.party)); else if (o.kind == 2) { if (o.w == 8) { uint8_t x = (uint8_t)v; N.push_back(Integer(&x, o.party)); } else if (o.w == 16) { uint16_t x = (uint16_t)v; N.push_back(Integer(&x, o.party)); } else if (o.w == 32) { int32_t x = (int32_t)v; N.push_back(Integer(&x, o.party)); } else { uint64_t x = (uint64_t)v; N.push_back(Integer(&x, o.party)); } }
        else { U x[2] = {v, 0}; N.push_back(Integer(o.w, x, o.party)); } break; }
      case FIN: { uint32_t v = (uint32_t)own(o, o.v); F.push_back(Float(fbits(v), o.party)); break; }
      case BAND: B.push_back(B[o.a] & B[o.b]); break; case BOR: B.push_back(B[o.a] | B[o.b]); break; case BXOR: B.push_back(B[o.a] ^ B[o.b]); break; case BNOT: B.push_back(!B[o.a]); break;
      case BEQ: B.push_back(B[o.a] == B[o.b]); break; case BNEQ: B.push_back(B[o.a] != B[o.b]); break; case BSEL: B.push_back(B[o.a].select(B[o.c], B[o.b])); break; case BXEQ: { Bit x = B[o.a]; x ^= o.a == o.b ? x : B[o.b]; B.push_back(x); break; }
      case BIF: B.push_back(If(B[o.c], B[o.a], B[o.b])); break;
      case BSWAP: { Bit x = B[o.a], y = B[o.b]; emp::swap(B[o.c], x, y); B.push_back(x); B.push_back(y); break; }
      case IADD: N.push_back(N[o.a] + N[o.b]); break; case ISUB: N.push_back(N[o.a] - N[o.b]); break; case INEG: N.push_back(-N[o.a]); break; case IMUL: N.push_back(N[o.a] * N[o.b]); break;
      case IDIV: N.push_back(N[o.a] / N[o.b]); break; case IMOD: N.push_back(N[o.a] % N[o.b]); break; case IAND: N.push_back(N[o.a] & N[o.b]); break; case IOR: N.push_back(N[o.a] | N[o.b]); break;
      case IXOR: N.push_back(N[o.a] ^ N[o.b]); break; case IXEQ: { Integer x = N[o.a]; x ^= o.a == o.b ? x : N[o.b]; N.push_back(x); break; }
      case ISHL: N.push_back(N[o.a] << (size_t)o.w); break; case ISHR: N.push_back(N[o.a] >> (size_t)o.w); break; case ISHLS: N.push_back(N[o.a] << N[o.b]); break; case ISHRS: N.push_back(N[o.a] >> N[o.b]); break;
      case IGEQ: B.push_back(N[o.a] >= N[o.b]); break; case ILT: B.push_back(N[o.a] < N[o.b]); break; case ILE: B.push_back(N[o.a] <= N[o.b]); break; case IGT: B.push_back(N[o.a] > N[o.b]); break;
      case IEQ: B.push_back(N[o.a] == N[o.b]); break; case INE: B.push_back(N[o.a] != N[o.b]); break; case ISEL: N.push_back(N[o.a].select(B[o.c], N[o.b])); break; case IIF: N.push_back(If(B[o.c], N[o.a], N[o.b])); break;
      case IABS: N.push_back(N[o.a].abs()); break; case IRESIZE: { Integer x = N[o.a]; x.resize(o.w, o.kind); N.push_back(x); break; }
      case IHW: N.push_back(N[o.a].hamming_weight()); break; case ILZ: N.push_back(N[o.a].leading_zeros()); break;
      case ISWAP: { Integer x = N[o.a], y = N[o.b]; emp::swap(B[o.c], x, y); N.push_back(x); N.push_back(y); break; }
      case ISORT: { std::vector<Integer> v; for (int i = 0; i < o.w; i++) v.push_back(N[(uint8_t)o.s[2 * i] | (uint8_t)o.s[2 * i + 1] << 8]); std::vector<Integer> d; if (o.c) { U ones[2] = {~(U)0, 0}; for (auto &x : v) d.push_back(x ^ Integer((int)x.size(), ones, PUBLIC)); }   // a payload that has to move with its key
        if (o.c) emp::sort(v.data(), o.w, d.data(), Bit(o.kind ? false : true, PUBLIC)); else emp::sort(v.data(), o.w, (Bit *)nullptr, Bit(o.kind ? false : true, PUBLIC)); for (auto &x : v) N.push_back(x); for (auto &x : d) N.push_back(x); break; }
      case IIDX: { const Integer &x = N[o.a]; B.push_back(x[o.w]); break; }
      case IFROMB: { std::vector<Bit> v; for (size_t i = 0; i < o.s.size() / 2; i++) v.push_back(B[(uint8_t)o.s[2 * i] | (uint8_t)o.s[2 * i + 1] << 8]); N.push_back(Integer(v)); break; }
      case IMODEXP: N.push_back(N[o.a].modExp(N[o.b], N[o.c])); break;
      case ISETBIT: { Integer x = N[o.a]; x[o.w] = B[o.c]; N.push_back(x); break; }
      case FADD: case FSUB: case FMUL: case FDIV: case FNEG: case FABS: case FSQ: case FSQRT: case FFN: case FXOR: { Float r = apply_f(o.k, o.kind, F[o.a], F[o.b]); F.push_back(r); break; }
      case FEQ: B.push_back(F[o.a].equal(F[o.b])); break; case FLE: B.push_back(F[o.a].less_equal(F[o.b])); break; case FLT: B.push_back(F[o.a].less_than(F[o.b])); break;
      case FIF: { Float x = F[o.a]; F.push_back(x.If(B[o.c], F[o.b])); break; }
      case CADDER: { BristolFormat cf(REPO_DIR "/emp-tool/circuits/files/bristol_format/adder_32bit.txt"); Integer r; r.bits.resize(33, Bit(false, PUBLIC)); cf.compute((block *)r.bits.data(), (block *)N[o.a].bits.data(), (block *)N[o.b].bits.data()); N.push_back(r); break; }
      case CAES: {
        auto calc = std::make_unique<AES_128_CTR_Calculator>(); std::string key = o.s.substr(0, 16), iv = o.s.substr(16, 16), in = o.s.substr(32, 40); __m128i k, v; memcpy(&k, key.data(), 16); memcpy(&v, iv.data(), 16);
        auto sec = [&](std::string s, int w, int pty) { if (me != 0 && pty != PUBLIC && pty != me) s = Bytes::str(s.size(), 99); return Integer(w, (uint8_t *)&s[0], pty); };
        Integer ki = sec(key, 128, ALICE), vi = sec(iv, 128, BOB), ii = sec(in, o.w, o.a ? ALICE : BOB), oo = Integer(o.w, (int64_t)0, PUBLIC); block *ip = o.b == 2 ? nullptr : (block *)ii.bits.data(), *op = o.b == 1 ? nullptr : (block *)oo.bits.data();
        if (o.kind == 0) calc->aes_128_ctr((block *)ki.bits.data(), (block *)vi.bits.data(), ip, op, o.w, PUBLIC, o.c); else if (o.kind == 1) calc->aes_128_ctr((block *)ki.bits.data(), v, ip, op, o.w, PUBLIC, o.c); else calc->aes_128_ctr(k, v, ip, op, o.w, PUBLIC, o.c);
        Integer &r = o.b == 1 ? ii : oo; int rp = me == 0 ? (int)PUBLIC : (int)BOB; std::string s = r.reveal<std::string>(rp); out.push_back(me == 1 ? "-" : s); break; }
#ifdef HAVE_KECCAK
      case CSHA3: {
        auto calc = std::make_unique<SHA3_256_Calculator>(); std::vector<Integer> in; std::string bits = wide_str(o.s, o.w * 8); size_t at = 0; uint64_t h = (uint64_t)o.v; std::vector<block> all;
        while (at < bits.size()) { h = hash64(h, at); size_t n = std::min<size_t>(bits.size() - at, 1 + h % (h & 256 ? 9 : 300)); int pty = h & 512 ? ALICE : h & 1024 ? BOB : PUBLIC; std::unique_ptr<bool[]> v(new bool[n]); for (size_t i = 0; i < n; i++) v[i] = me != 0 && pty != PUBLIC && pty != me ? hash64(h, i) & 1 : bits[at + i] == '1'; Integer x; x.init(v.get(), (int)n, pty); in.push_back(x); at += n; for (auto &y : x.bits) all.push_back(y.bit); }
        std::vector<const block *> ps; std::vector<size_t> ns; for (auto &x : in) { ps.push_back((const block *)x.bits.data()); ns.push_back(x.bits.size()); } all.push_back(zero_block);
        for (int rep = 0; rep <= o.c; rep++) { Integer r(1 + (int)(h % 300), (int64_t)0, PUBLIC); std::vector<block> ob(257, makeBlock(7, 7)); bool blocks = o.kind < 3;
          switch (o.kind) { case 0: calc->sha3_256(ob.data(), ps.data(), ns.data(), ps.size()); break; case 1: calc->sha3_256(ob.data(), in.data(), in.size()); break; case 2: calc->sha3_256(ob.data(), all.data(), all.size() - 1); break; case 3: calc->sha3_256(&r, ps.data(), ns.data(), ps.size()); break; case 4: calc->sha3_256(&r, all.data(), all.size() - 1); break; default: calc->sha3_256(&r, in.data(), in.size()); }
          if (blocks) { r.bits.resize(256); memcpy((void *)r.bits.data(), ob.data(), 256 * sizeof(block)); block x = ob[256] ^ makeBlock(7, 7); if (!_mm_testz_si128(x, x)) fail("out-of-bounds", "SHA3 writes more than 256 output bits"); }
          std::string s = r.reveal<std::string>(me == 0 ? (int)PUBLIC : (int)BOB); out.push_back(me == 1 ? "-" : s); }
        break; }
#endif
      case WIN: { std::string b = me == 0 || o.party == PUBLIC || o.party == me ? o.s : wide::rnd(o.w, 9, 4242); std::vector<uint8_t> x(o.w / 8 + 2, 0); for (int i = 0; i < o.w; i++) x[i / 8] |= (b[i] & 1) << (i % 8);
        if (o.kind) W.push_back(Integer(o.w, x.data(), o.party)); else { x.resize((o.w + 63) / 64 * 8 + 8); std::vector<uint64_t> y(x.size() / 8); memcpy(y.data(), x.data(), y.size() * 8); W.push_back(Integer(o.w, y.data(), o.party)); } break; }
      case WOP: { using namespace wide; const Integer &a = W[o.a]; size_t w = a.size();
        switch (o.kind) {
          case ADD: W.push_back(a + W[o.b]); break; case SUB: W.push_back(a - W[o.b]); break; case NEG: W.push_back(-a); break; case wide::XOR: W.push_back(a ^ W[o.b]); break; case AND: W.push_back(a & W[o.b]); break; case OR: W.push_back(a | W[o.b]); break; case XEQ: { Integer x = a; x ^= o.a == o.b ? x : W[o.b]; W.push_back(x); break; }
          case SHL: W.push_back(a << (size_t)o.w); break; case SHR: W.push_back(a >> (size_t)o.w); break; case SHLI: W.push_back(a << N[o.b]); break; case SHRI: W.push_back(a >> N[o.b]); break;
          case GEQ: B.push_back(a >= W[o.b]); break; case LT: B.push_back(a < W[o.b]); break; case wide::EQ: B.push_back(a == W[o.b]); break; case NE: B.push_back(a != W[o.b]); break;
          case SEL: W.push_back(a.select(B[o.c], W[o.b])); break; case IF: { Integer r = If(B[o.c], a, W[o.b]); W.push_back(r); break; } case ABS: W.push_back(a.abs()); break;
          case RESIZE: { Integer x = a; x.resize(o.w, o.c); W.push_back(x); break; } case CUT: { Integer x = a; x.resize(o.w, true); N.push_back(x); break; }
          case HW: N.push_back(a.hamming_weight()); break; case LZ: N.push_back(a.leading_zeros()); break; case MUL: W.push_back(a * W[o.b]); break; case DIV: W.push_back(a / W[o.b]); break; case MOD: W.push_back(a % W[o.b]); break;
          case SWAP: { Integer x = a, y = W[o.b]; emp::swap(B[o.c], x, y); W.push_back(x); W.push_back(y); break; } } (void)w; break; }
      case RWIDE: { const Integer &x = W[o.a]; size_t w = x.size(); std::string s; if (o.kind == 0) s = x.reveal<std::string>(o.party); else if (o.kind == 1) { std::unique_ptr<bool[]> b(new bool[w + 1]); x.revealBools(b.get(), o.party); for (size_t i = 0; i < w; i++) s += b[i] ? '1' : '0'; } else { std::vector<uint8_t> b(w / 8 + 8, 0x77); x.reveal<uint8_t>(b.data(), o.party); for (size_t i = (w + 7) / 8; i < b.size(); i++) if (b[i] != 0x77) fail("overrun", "revealing %zu bits into memory writes behind them", w); s = wide_str(std::string((char *)b.data(), b.size()), (int)w); }
        out.push_back(me && o.party != PUBLIC && o.party != me ? "-" : s); break; }
      case RBIT: { bool v; if (o.kind) v = B[o.a].reveal<std::string>(o.party) == "true"; else v = B[o.a].reveal<bool>(o.party); out.push_back(me && o.party != PUBLIC && o.party != me ? "-" : v ? "1" : "0"); break; }
      case RINT: { const Integer &x = N[o.a]; int w = x.size(); std::string s;
        switch (o.kind) { case 0: { std::unique_ptr<bool[]> b(new bool[w + 1]); x.revealBools(b.get(), o.party); for (int i = 0; i < w; i++) s += b[i] ? '1' : '0'; break; }
          case 1: s = x.reveal<std::string>(o.party); break; case 2: s = bits_str(x.reveal<uint32_t>(o.party), 32); break; case 3: s = bits_str(x.reveal<uint64_t>(o.party), 64); break; case 4: s = bits_str((uint32_t)x.reveal<int32_t>(o.party), 32); break; case 5: s = bits_str((uint64_t)x.reveal<int64_t>(o.party), 64); break;
          default: { uint8_t buf[24]; memset(buf, 0x77, 24); x.reveal<uint8_t>(buf, o.party); s = wide_str(std::string((char *)buf, 24), w); } }
        out.push_back(me && o.party != PUBLIC && o.party != me ? "-" : s); break; }
      case RFLOAT: { double d = F[o.a].reveal<double>(o.party); float f = (float)d; std::string s = bits_str(bitsf(f), 32); out.push_back(me && o.party != PUBLIC && o.party != me ? "-" : s); break; }
      case FLUSH: if (hk.flush) hk.flush(); break;
    }
    if (hk.after) hk.after(n, o); n++;
  }
}
// ----------------------------------------------------------- ideal inputs and outputs
struct Ideal { std::deque<std::pair<block, block>> ot; std::vector<block> rev_gen, rev_eva; block delta; bool have_delta = false; Rng rng{1}; uint64_t seed = 1; };
static inline block rblock(Rng &r) { return makeBlock(r.next(), r.next()); }
template <typename IO> struct StubProt : ProtocolExecution {
  IO *io; bool garbler, privfree, oneway, auth; int otmode; block delta; Ideal *id; Rng rng, beaver;
  StubProt(IO *io, bool garbler, bool privfree, bool oneway, int otmode, bool auth, block delta, Ideal *id) : ProtocolExecution(garbler ? ALICE : BOB), io(io), garbler(garbler), privfree(privfree), oneway(oneway), auth(auth), otmode(otmode), delta(delta), id(id), rng(hash64(id->seed, 1)), beaver(hash64(id->seed, 2)) {}
  block fresh() { block b = rblock(rng); if (privfree) b = b & makeBlock(~0ULL, ~1ULL); return b; }
  block pick(block l0, bool v) { return v ? l0 ^ delta : l0; }
  void feed(block *l, int party, const bool *b, int n) override {
    if (party == PUBLIC) { for (int i = 0; i < n; i++) l[i] = CircuitExecution::circ_exec->public_label(b[i]); return; }
    if (party == ALICE) {
      std::vector<block> t(n + 1);
      if (garbler) { for (int i = 0; i < n; i++) { l[i] = fresh(); t[i] = pick(l[i], b[i]); } io->send_block(t.data(), n); }
      else { io->recv_block(t.data(), n); for (int i = 0; i < n; i++) l[i] = t[i]; }
      return;
    }
    if (otmode == 0 || oneway) {
      io->flush();
      if (garbler) { for (int i = 0; i < n; i++) { l[i] = fresh(); id->ot.push_back({l[i], l[i] ^ delta}); } }
      else { Ideal *q = id; size_t need = n; block_until("wait for the oblivious transfer", [q, need] { return q->ot.size() >= need; }); for (int i = 0; i < n; i++) { auto x = id->ot.front(); id->ot.pop_front(); l[i] = b[i] ? x.second : x.first; } }
    } else {   // precomputed oblivious transfers, derandomised over the channel
      std::vector<block> M0(n + 1), M1(n + 1), e(2 * n + 2); std::unique_ptr<bool[]> d(new bool[n + 1]), c(new bool[n + 1]);
      for (int i = 0; i < n; i++) { M0[i] = rblock(beaver); M1[i] = rblock(beaver); d[i] = beaver.next() & 1; }
      if (garbler) { io->recv_bool(c.get(), n); for (int i = 0; i < n; i++) { l[i] = fresh(); e[2 * i] = l[i] ^ (c[i] ? M1[i] : M0[i]); e[2 * i + 1] = l[i] ^ delta ^ (c[i] ? M0[i] : M1[i]); } io->send_block(e.data(), 2 * n); }
      else { for (int i = 0; i < n; i++) c[i] = b[i] ^ d[i]; io->send_bool(c.get(), n); io->recv_block(e.data(), 2 * n); for (int i = 0; i < n; i++) l[i] = e[2 * i + b[i]] ^ (d[i] ? M1[i] : M0[i]); }
    }
  }
  void reveal(bool *out, int party, const block *l, int n) override {
    std::vector<block> mine(l, l + n); for (auto &x : mine) (garbler ? id->rev_gen : id->rev_eva).push_back(x);
    std::unique_ptr<bool[]> t(new bool[n + 1]), u(new bool[n + 1]); mine.push_back(zero_block);
    for (int i = 0; i < n; i++) { out[i] = false; t[i] = getLSB(mine[i]); }
    if (oneway) { if (garbler) io->send_bool(t.get(), n); else { io->recv_bool(u.get(), n); for (int i = 0; i < n; i++) out[i] = t[i] ^ u[i]; } return; }
    if (auth) {  // the evaluator proves its output by its label
      if (garbler) {
        std::vector<block> r(n + 1); io->recv_block(r.data(), n);
        for (int i = 0; i < n; i++) { block x = r[i] ^ mine[i], y = x ^ delta; bool is0 = _mm_testz_si128(x, x), is1 = _mm_testz_si128(y, y); if (!is0 && !is1) fail("invalid-label", "the evaluator ends up with a label that is neither of the two labels of an output wire"); u[i] = is1; out[i] = is1; }
        if (party != ALICE) io->send_bool(u.get(), n); if (party == BOB) for (int i = 0; i < n; i++) out[i] = false;
      } else { io->send_block(mine.data(), n); if (party != ALICE) { io->recv_bool(u.get(), n); for (int i = 0; i < n; i++) out[i] = u[i]; } }
      return;
    }
    if (party != ALICE) {
      if (garbler) io->send_bool(t.get(), n); else { io->recv_bool(u.get(), n); for (int i = 0; i < n; i++) out[i] = t[i] ^ u[i]; }
      if (party == PUBLIC) { if (garbler) io->recv_bool(out, n); else { for (int i = 0; i < n; i++) u[i] = out[i]; io->send_bool(u.get(), n); } }
    } else { if (garbler) { io->recv_bool(u.get(), n); for (int i = 0; i < n; i++) out[i] = t[i] ^ u[i]; } else io->send_bool(t.get(), n); }
  }
};
// per-process values of the two static back-end pointers
__attribute__((no_sanitize("thread"))) static inline void swap_statics(Proc *from, Proc *to) {
#ifndef THREADING
  if (from) { from->statics[0] = CircuitExecution::circ_exec; from->statics[1] = ProtocolExecution::prot_exec; }
  if (to) { CircuitExecution::circ_exec = (CircuitExecution *)to->statics[0]; ProtocolExecution::prot_exec = (ProtocolExecution *)to->statics[1]; }
#endif
}
// put a back end where it would be after g hashes or gates, if it has such a counter (a long session)
template <typename T> auto forward_to(T *x, uint64_t g, int) -> decltype(x->mitccrh.renew_ks(g), void()) { x->mitccrh.renew_ks(g); }
template <typename T> auto forward_to(T *x, uint64_t g, long) -> decltype(x->prp, x->gid = 0, void()) { x->gid = g; }
template <typename T> void forward_to(T *, uint64_t, ...) {}
static inline uint64_t pick_ff(bool privfree) { return (uint64_t[]){1u << 14, 1ull << 15, 1ull << 30, 1ull << 31, 1ull << 32, 1ull << 40, 1ull << 62}[plan(privfree ? 6 : 7)] - 4 * plan(3); }
// ------------------------------------------------------- recording channel (seam: the IO template parameter)
template <typename T> struct RecIO : IOChannel<RecIO<T>> {
  T *in; std::string sent, rcvd; struct X { bool out; size_t n; }; std::vector<X> log; bool keep = true; uint64_t nsent = 0, nrcvd = 0;
  RecIO(T *in) : in(in) {}
  void send_data_internal(const void *d, int64_t n) { log.push_back({true, (size_t)n}); nsent += n; if (keep) sent.append((const char *)d, n); in->send_data(d, n); }
  void recv_data_internal(void *d, int64_t n) { in->recv_data(d, n); log.push_back({false, (size_t)n}); nrcvd += n; if (keep) rcvd.append((const char *)d, n); }
  void flush() { if constexpr (!std::is_same<T, MemIO>::value) in->flush(); }
};
template <typename T> void flush_io(T &io) { if constexpr (!std::is_same<T, MemIO>::value) io.flush(); }
struct FlushMem : MemIO { using MemIO::MemIO; void flush() {} };
}  // namespace gc
