// One party of the typed-message conversation; compiled twice (second time with
// another namespace and without BMI2) to model peers built for different CPUs.
#pragma once
#include "common.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/utils/hash.h"

namespace c03 {
enum Kind { BLOCKS, BOOLS, BOOLS_ALIGNED, POINTS, RAW, KEX };
struct Msg { int dir; Kind kind; uint32_t n; std::vector<uint32_t> parts; uint32_t align_s, align_r; uint64_t id; uint32_t pre; };
struct Shared { std::vector<Msg> msgs; int chan; int server; std::string kdf[2][64]; std::string kpt[2][64]; int nkex[2]; bool got[64]; std::string pts[64]; };
extern Shared G;
void party_a(int me);
void party_b(int me);
void local_party();

// buffer with given misalignment and guard bytes around it
struct Buf {
  std::vector<uint8_t> m; size_t off, n;
  static uint8_t guard(size_t i) { return (uint8_t)(i * 197 + (i >> 8) + 0xC7); }
  Buf(size_t n, uint32_t align) : m(n + 128), n(n) { for (size_t i = 0; i < m.size(); i++) m[i] = guard(i); size_t a = ((size_t)m.data() + 32 + 15) & ~(size_t)15; off = a - (size_t)m.data() + align; }
  uint8_t *p() { return m.data() + off; }
  bool guards_ok() { for (size_t i = 0; i < off; i++) if (m[i] != guard(i)) return false; for (size_t i = off + n; i < m.size(); i++) if (m[i] != guard(i)) return false; return true; }
};
}
#ifdef C03_IMPL
namespace c03 {
namespace C03_IMPL {
using namespace sim; using namespace emp;
inline std::string point_bytes(Point &p) { std::string s(p.size(), 0); p.to_bin((unsigned char *)&s[0], s.size()); return s; }
inline Point make_point(Group &g, uint64_t id, uint32_t i) {
  uint64_t v = hash64(id, i);
  if (v % 11 == 0) { Point q(&g); EC_POINT_set_to_infinity(g.ec_group, q.point); return q; }
  unsigned char b[32]; Bytes::fill(b, 32, v); BigInt x; x.from_bin(b, v % 7 ? 32 : 1 + v % 4); return g.mul_gen(x);
}
template <typename IO> void do_send(IO &io, Group &g, int mi) {
  const Msg &m = G.msgs[mi];
  switch (m.kind) {
    case RAW: case BLOCKS: case BOOLS: case BOOLS_ALIGNED: {
      size_t es = m.kind == BLOCKS ? 16 : 1; Buf b(m.n * es, m.kind == BLOCKS ? 0 : m.align_s); Bytes::fill(b.p(), b.n, m.id);
      if (m.kind == BOOLS || m.kind == BOOLS_ALIGNED) for (size_t i = 0; i < b.n; i++) b.p()[i] &= 1;
      std::vector<uint8_t> copy(b.p(), b.p() + b.n);
      uint32_t off = 0;
      for (uint32_t k : m.parts) {
        if (m.kind == RAW) io.send_data(b.p() + off, k); else if (m.kind == BLOCKS) io.send_block((const block *)b.p() + off, k);
        else if (m.kind == BOOLS) io.send_bool((bool *)b.p() + off, k); else io.send_bool_aligned((const bool *)b.p() + off, k);
        off += k;
      }
      if (memcmp(copy.data(), b.p(), b.n) || !b.guards_ok()) fail("source-changed", "sending modified the caller's buffer");
      break; }
    case POINTS: {
      std::vector<Point> v; for (uint32_t i = 0; i < m.n; i++) v.push_back(make_point(g, m.id, i));
      std::string before; for (auto &p : v) before += point_bytes(p);
      if (m.n) { uint32_t off = 0; for (uint32_t k : m.parts) { if (k) io.send_pt(&v[off], k); off += k; } }
      std::string after; for (auto &p : v) after += point_bytes(p);
      if (before != after) fail("source-changed", "sending modified the caller's points");
      break; }
    default: break;
  }
}
template <typename IO> void do_recv(IO &io, Group &g, int mi) {
  const Msg &m = G.msgs[mi];
  switch (m.kind) {
    case RAW: case BLOCKS: case BOOLS: case BOOLS_ALIGNED: {
      size_t es = m.kind == BLOCKS ? 16 : 1; Buf b(m.n * es, m.kind == BLOCKS ? 0 : m.align_r); std::vector<uint8_t> want(b.n); Bytes::fill(want.data(), b.n, m.id);
      if (m.kind == BOOLS || m.kind == BOOLS_ALIGNED) for (auto &x : want) x &= 1;
      uint32_t off = 0;
      for (uint32_t k : m.parts) {
        if (m.kind == RAW) io.recv_data(b.p() + off, k); else if (m.kind == BLOCKS) io.recv_block((block *)b.p() + off, k);
        else if (m.kind == BOOLS) io.recv_bool((bool *)b.p() + off, k); else io.recv_bool_aligned((bool *)b.p() + off, k);
        off += k;
      }
      if (!b.guards_ok()) fail("overrun", "receiving message %d wrote outside the caller's buffer", mi);
      if (memcmp(b.p(), want.data(), b.n)) { size_t i = 0; while (b.p()[i] == want[i]) i++; fail(m.kind == RAW ? "following-message-disturbed" : m.kind == BLOCKS ? "blocks-differ" : "bools-differ", "message %d (%u elements, sender buffer offset %u, receiver buffer offset %u mod 16): element %zu decodes to %u instead of %u", mi, m.n, m.align_s, m.align_r, i / es, b.p()[i], want[i]); }
      break; }
    case POINTS: {
      std::vector<Point> v; for (uint32_t i = 0; i < m.n; i++) { if (hash64(m.id, 900 + i) & 1) v.push_back(Point()); else v.push_back(g.get_generator()); }
      if (m.n) { uint32_t off = 0; for (uint32_t k : m.parts) { if (k) io.recv_pt(&g, &v[off], k); off += k; } }
      for (uint32_t i = 0; i < m.n; i++) { Point w = make_point(g, m.id, i); if (!(v[i] == w) || point_bytes(v[i]) != point_bytes(w)) fail("points-differ", "point %u of message %d decodes to another point", i, mi); }
      break; }
    default: break;
  }
  G.got[mi] = true; trace("message %d received", mi);
}
template <typename IO> void run(IO &io, int me) {
  Group g;
  for (size_t i = 0; i < G.msgs.size(); i++) {
    const Msg &m = G.msgs[i];
    if (m.kind == KEX) {
      BigInt x; g.get_rand_bn(x); Point X = g.mul_gen(x), Y;
      if (m.dir == me) { io.send_pt(&X); io.recv_pt(&g, &Y); } else { io.recv_pt(&g, &Y); io.send_pt(&X); }
      Point Z = Y.mul(x); block k1 = Hash::KDF(Z, m.id), k2 = Hash::KDF(Z, m.id + 1);
      G.kpt[me][i] = point_bytes(Z); G.kdf[me][i] = std::string((char *)&k1, 16) + std::string((char *)&k2, 16);
      G.got[i] = true;
      continue;
    }
    if (m.dir == me) do_send(io, g, i); else do_recv(io, g, i);
  }
}
inline void party(int me) {
  if (G.chan == 0) { NetIO io(me == G.server ? nullptr : "10.0.0.1", 12345, true); run(io, me); }
  else { HighSpeedNetIO io(me == G.server ? nullptr : "10.0.0.1", 12345, 12346, true); run(io, me); }
}
inline void local() {
  Group g;
  if (G.chan == 2) { MemIO io(1 + (int64_t)(G.msgs[0].id % 3000)); for (size_t i = 0; i < G.msgs.size(); i++) do_send(io, g, i); for (size_t i = 0; i < G.msgs.size(); i++) do_recv(io, g, i); }
  else if (G.chan == 3) { FileIO io("/sim/typed", false); for (size_t i = 0; i < G.msgs.size(); i++) do_send(io, g, i); io.reset(); for (size_t i = 0; i < G.msgs.size(); i++) do_recv(io, g, i); }
  else { { FileIO io("/sim/typed", false); for (size_t i = 0; i < G.msgs.size(); i++) do_send(io, g, i); } FileIO io("/sim/typed", true); for (size_t i = 0; i < G.msgs.size(); i++) do_recv(io, g, i); }
}
}}
#endif
