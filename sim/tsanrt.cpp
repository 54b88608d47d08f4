// Own runtime for code compiled with -fsanitize=thread: every memory access is a
// possible preemption point of the seeded scheduler, and a vector-clock detector
// reports unordered conflicting accesses.  Not the tsan library: no real threads run.
#include "sim.h"
#include "internal.h"
#include <sys/mman.h>
#include <stdlib.h>
#include <unordered_map>
#include <string.h>
#include <malloc.h>
extern "C" char __ehdr_start;
using namespace sim;
namespace {
enum { MAXT = 96, REC = 4 };
struct VC { uint32_t c[MAXT]; };
struct Rec { uint32_t clk; uint8_t tid, mask, w, at; };
struct Cell { Rec r[REC]; uint64_t pc; };
struct Page { uint64_t key; Cell c[512]; };
VC clk[MAXT]; bool seen[MAXT];
std::unordered_map<uint64_t, Page *> *pages; std::unordered_map<void *, VC> *syncs;
bool fence_seen = false; int busy = 0;
struct Busy { Harness h; Busy() { busy++; } ~Busy() { busy--; } };
char *arena = nullptr; size_t arena_left = 0;
Page *new_page() { if (arena_left < sizeof(Page)) { size_t n = sizeof(Page) * 256; arena = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_left = n; } Page *p = (Page *)arena; arena += sizeof(Page); arena_left -= sizeof(Page); return p; }
uint64_t last_key = ~0ULL; Page *last_page;
Page *page(uint64_t k, bool make) {
  if (k == last_key) return last_page;
  if (!pages) { if (!make) return nullptr; pages = new std::unordered_map<uint64_t, Page *>(); }
  auto it = pages->find(k); Page *p; if (it == pages->end()) { if (!make) return nullptr; p = new_page(); (*pages)[k] = p; } else p = it->second;
  last_key = k; last_page = p; return p;
}
inline bool live() { Task *t = cur(); return !busy && g_cur_is_task() && t->harness_depth == 0 && t->id < MAXT; }
inline uint32_t &own(int t) { if (!seen[t]) { seen[t] = true; if (!clk[t].c[t]) clk[t].c[t] = 1; } return clk[t].c[t]; }
void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void report(uint64_t addr, size_t n, bool w, const Rec &o, uint64_t opc, void *pc) {
  busy++; Task *me = cur(); uint64_t base = (uint64_t)&__ehdr_start;
  fail("data-race", "data race: thread %d %s at binary+0x%llx what thread %d %s%s (near binary+0x%llx), with nothing ordering the two accesses", me->id, w ? "writes" : "reads", (unsigned long long)((uint64_t)pc - base - 1), (int)o.tid, o.w ? "writes" : "reads", o.at ? " atomically" : "", (unsigned long long)(opc ? opc - base - 1 : 0));
}
inline void cell_access(Cell &c, uint64_t addr, uint8_t mask, bool w, bool at, void *pc) {
  int me = cur()->id; uint32_t k = own(me); VC &v = clk[me]; int slot = -1, old = 0; uint32_t oldk = ~0u;
  for (int i = 0; i < REC; i++) {
    Rec &r = c.r[i];
    if (!r.clk) { if (slot < 0) slot = i; continue; }
    if (r.tid != me) { if ((r.mask & mask) && (w || r.w) && !(at && r.at) && r.clk > v.c[r.tid]) report(addr, 0, w, r, c.pc, pc); if (v.c[r.tid] >= r.clk && (r.mask & ~mask) == 0 && (w || !r.w)) { slot = i; r.clk = 0; continue; } }
    else if (!(r.mask & ~mask) && (w || !r.w) && (!at || r.at)) { slot = i; r.clk = 0; continue; }
    else if (r.clk == k && !(mask & ~r.mask) && (r.w || !w) && (!r.at || at)) return;   // already covered
    if (r.clk < oldk) { oldk = r.clk; old = i; }
  }
  if (slot < 0) slot = old;
  Rec &r = c.r[slot]; r.clk = k; r.tid = (uint8_t)me; r.mask = mask; r.w = w; r.at = at; c.pc = (uint64_t)pc;
}
void range(const void *p, size_t n, bool w, bool at, void *pc) {
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) { uint64_t g = a & ~7ULL, ge = g + 8; uint64_t hi = e < ge ? e : ge; uint8_t m = (uint8_t)(((1u << (hi - a)) - 1) << (a - g)); Page *pg = page(a >> 12, true); cell_access(pg->c[(a >> 3) & 511], a, m, w, at, pc); a = hi; }
}
inline void access(const void *p, size_t n, bool w, void *pc) { if (!live()) return; if (g_mem_preempt) { mem_point(); } Busy b; range(p, n, w, false, pc); }
void clear(const void *p, size_t n) {
  uint64_t a = (uint64_t)p & ~7ULL, e = ((uint64_t)p + n + 7) & ~7ULL; if (!pages) return;
  for (; a < e;) { uint64_t pe = (a | 4095) + 1; uint64_t hi = e < pe ? e : pe; Page *pg = page(a >> 12, false); if (pg) memset(&pg->c[(a >> 3) & 511], 0, ((hi - a) >> 3) * sizeof(Cell)); a = hi; }
}
}  // namespace
extern "C" {
int simtsan_on = 1;
void simtsan_acquire(void *p) { if (!g_cur_is_task() || cur()->id >= MAXT) return; Busy b; int t = cur()->id; own(t); if (!syncs) return; auto it = syncs->find(p); if (it != syncs->end()) join(clk[t], it->second); }
void simtsan_release(void *p) { if (!g_cur_is_task() || cur()->id >= MAXT) return; Busy b; int t = cur()->id; own(t); if (!syncs) syncs = new std::unordered_map<void *, VC>(); auto it = syncs->find(p); if (it == syncs->end()) it = syncs->emplace(p, VC{}).first; join(it->second, clk[t]); clk[t].c[t]++; }
void simtsan_create(int parent, int child) { if (parent < 0 || parent >= MAXT || child >= MAXT) return; own(parent); own(child); join(clk[child], clk[parent]); clk[parent].c[parent]++; }
// a process is started by the harness: everything that happened before is ordered before it
void simtsan_proc(int child) { if (child >= MAXT) return; own(child); for (int i = 0; i < MAXT; i++) if (i != child && seen[i]) { join(clk[child], clk[i]); clk[i].c[i]++; } }
void simtsan_join(int me, int other) { if (me < 0 || me >= MAXT || other >= MAXT) return; own(me); join(clk[me], clk[other]); }
void simtsan_alloc(void *p, size_t n) { size_t u = malloc_usable_size(p); Busy b; clear(p, u > n ? u : n); }
void simtsan_free(void *p, size_t n) { if (!live()) return; Busy b; range(p, n > 4096 ? 4096 : n, true, false, __builtin_return_address(0)); }
void simtsan_access(const void *p, size_t n, int w, void *pc) { if (n && pc < (void *)&sim::hash64) access(p, n, w, pc); }
void simtsan_new(void *p) { Busy b; clear(p, 8); }
void simtsan_reset() { memset(clk, 0, sizeof clk); memset(seen, 0, sizeof seen); if (pages) pages->clear(); last_key = ~0ULL; if (syncs) syncs->clear(); }
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define ACC(N) void __tsan_read##N(void *p) { access(p, N, false, PC); } void __tsan_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); } void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); } \
  void __tsan_read##N##_pc(void *p, void *pc) { access(p, N, false, pc); } void __tsan_write##N##_pc(void *p, void *pc) { access(p, N, true, pc); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **v, void *nv) { if (*v != nv) access(v, 8, true, PC); }
void __tsan_vptr_read(void **v) { access(v, 8, false, PC); }
static void pre(volatile void *p, size_t n, bool w, int mo, bool isload, bool isstore, void *pc) {
  if (!live()) return; if (g_mem_preempt) mem_point();
  Busy b; range((const void *)p, n, w, true, pc); (void)mo; (void)isload; (void)isstore;
}
static bool acq(int mo) { return fence_seen || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return fence_seen || mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void do_acq(volatile void *p, int mo) { if (g_cur_is_task() && acq(mo)) simtsan_acquire((void *)p); }
static void do_rel(volatile void *p, int mo) { if (g_cur_is_task() && rel(mo)) simtsan_release((void *)p); }
#define RMW(B, T, NAME, OP) T __tsan_atomic##B##_##NAME(volatile T *a, T v, int mo) { pre(a, sizeof(T), true, mo, true, true, PC); T r = OP(a, v, __ATOMIC_SEQ_CST); do_acq(a, mo); do_rel(a, mo); return r; }
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { pre((volatile void *)a, sizeof(T), false, mo, true, false, PC); T r = __atomic_load_n(a, __ATOMIC_SEQ_CST); do_acq((volatile void *)a, mo); return r; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { pre(a, sizeof(T), true, mo, false, true, PC); do_rel(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  RMW(B, T, exchange, __atomic_exchange_n) RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub) RMW(B, T, fetch_and, __atomic_fetch_and) RMW(B, T, fetch_or, __atomic_fetch_or) RMW(B, T, fetch_xor, __atomic_fetch_xor) RMW(B, T, fetch_nand, __atomic_fetch_nand) \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { pre(a, sizeof(T), true, mo, true, true, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); do_acq(a, ok ? mo : fmo); if (ok) do_rel(a, mo); return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { pre(a, sizeof(T), true, mo, true, true, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); do_acq(a, ok ? mo : fmo); if (ok) do_rel(a, mo); return ok; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { pre(a, sizeof(T), true, mo, true, true, PC); T e = c; bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); do_acq(a, ok ? mo : fmo); if (ok) do_rel(a, mo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { fence_seen = true; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
static inline bool instrumented(void *ret) { return ret < (void *)&sim::hash64; }   // harness and repository objects are linked before the simulator
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (live() && instrumented(PC) && n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (live() && instrumented(PC) && n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (live() && instrumented(PC) && n) access(d, n, true, PC); return __real_memset(d, v, n); }
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *);
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); simtsan_acquire(g); return r; }
void __wrap___cxa_guard_release(void *g) { simtsan_release(g); __real___cxa_guard_release(g); }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) simtsan_alloc(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) simtsan_alloc(p, a * b); return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (p) simtsan_alloc(p, n); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p && p != o) simtsan_alloc(p, n); return p; }
}
