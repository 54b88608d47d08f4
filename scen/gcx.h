// Gate-level observer: a back end that forwards to the real one and sees every gate.
#pragma once
#include "gc.h"
namespace gc {
struct Gate { int kind; block a, b, out; uint64_t sent, rcvd; };   // kind 0 and, 1 xor, 2 not, 3 public
struct SpyExec : CircuitExecution {
  CircuitExecution *in; std::function<void(std::pair<uint64_t, uint64_t> &)> traffic; uint64_t ands = 0, xors = 0, nots = 0; bool keep = false; std::vector<Gate> gates; std::function<void(SpyExec &, int kind)> after;
  SpyExec(CircuitExecution *in) : in(in) {}
  template <typename F> block go(int kind, const block &a, const block &b, F f) {
    block aa = a, bb = b; std::pair<uint64_t, uint64_t> t0{0, 0}; if (traffic) traffic(t0);
    block r = f(aa, bb);
    if (kind == 0) ands++; else if (kind == 1) xors++; else if (kind == 2) nots++;
    if (keep && kind == 0) gates.push_back({kind, aa, bb, r, t0.first, t0.second});
    if (after) after(*this, kind);
    return r;
  }
  block and_gate(const block &a, const block &b) override { return go(0, a, b, [&](const block &x, const block &y) { return in->and_gate(x, y); }); }
  block xor_gate(const block &a, const block &b) override { return go(1, a, b, [&](const block &x, const block &y) { return in->xor_gate(x, y); }); }
  block not_gate(const block &a) override { return go(2, a, a, [&](const block &x, const block &) { return in->not_gate(x); }); }
  block public_label(bool b) override { return go(3, zero_block, zero_block, [&](const block &, const block &) { return in->public_label(b); }); }
  uint64_t num_and() override { return in->num_and(); }
};
template <typename IO> struct Roles {
  static std::unique_ptr<CircuitExecution> make(bool pf, bool garbler, IO *io, block &delta) {
    if (pf) { if (garbler) { auto *x = new PrivacyFreeGen<IO>(io); delta = x->delta; return std::unique_ptr<CircuitExecution>(x); } return std::unique_ptr<CircuitExecution>(new PrivacyFreeEva<IO>(io)); }
    if (garbler) { auto *x = new HalfGateGen<IO>(io); delta = x->delta; return std::unique_ptr<CircuitExecution>(x); } return std::unique_ptr<CircuitExecution>(new HalfGateEva<IO>(io));
  }
};
static inline bool eqb(const block &a, const block &b) { block x = a ^ b; return _mm_testz_si128(x, x); }
}
