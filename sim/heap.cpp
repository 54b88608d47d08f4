// Heap ledger (linked into C20 only): every allocation of a simulated task outside harness
// code is remembered with the round it was made in until it is freed.  Replaces malloc, so
// that allocations inside glibc (streams) and OpenSSL are seen as well.
#include "sim.h"
#include "internal.h"
#include <stdlib.h>
#include <errno.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sched.h>
#include <atomic>
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
namespace sim {
int heap_round = -1; static bool busy = false; static std::atomic_flag lk = ATOMIC_FLAG_INIT;   // ending threads free without holding the token
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)) sched_yield(); } ~Lock() { lk.clear(std::memory_order_release); } };
struct Ent { void *p; size_t n; int round; int depth; void *bt[12]; };
static const size_t N = 1 << 18; static Ent *tab; static size_t used = 0;
static bool want_bt() { static int v = -1; if (v < 0) v = getenv("SIM_HEAP_BT") ? 1 : 0; return v; }
static size_t slot(void *p) { uint64_t h = (uint64_t)p * 0x9E3779B97F4A7C15ULL; return h >> 46; }
void heap_start() { if (!tab) tab = (Ent *)mmap(nullptr, N * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); heap_round = 0; }
static void note(void *p, size_t n) {
  if (heap_round < 0 || !p || busy || !g_cur_is_task() || cur()->harness_depth || cur()->in_sim || used > N / 2) return;
  void *bt[12]; int depth = 0; if (want_bt()) { busy = true; depth = backtrace(bt, 12); busy = false; }
  Lock l; size_t i = slot(p); while (tab[i].p && tab[i].p != (void *)1) i = (i + 1) & (N - 1); Ent &e = tab[i]; if (!e.p) used++; e.p = p; e.n = n; e.round = heap_round; e.depth = depth; memcpy(e.bt, bt, sizeof bt);
}
static void gone(void *p) {
  if (!tab || !p) return; Lock l; size_t i = slot(p); while (tab[i].p) { if (tab[i].p == p) { tab[i].p = (void *)1; return; } i = (i + 1) & (N - 1); }
}
// blocks and bytes made in a round of [from, to] and still there
void heap_live(int from, int to, std::vector<uint64_t> &blocks, std::vector<uint64_t> &bytes) {
  blocks.assign(to - from + 1, 0); bytes.assign(to - from + 1, 0); Lock l;
  for (size_t i = 0; i < N; i++) if (tab[i].p && tab[i].p != (void *)1 && tab[i].round >= from && tab[i].round <= to) { blocks[tab[i].round - from]++; bytes[tab[i].round - from] += tab[i].n; }
}
void heap_dump(int round) { if (!want_bt()) return; for (size_t i = 0; i < N; i++) if (tab[i].p && tab[i].p != (void *)1 && tab[i].round == round) { fprintf(stderr, "-- %zu bytes\n", tab[i].n); backtrace_symbols_fd(tab[i].bt, tab[i].depth, 2); } }
}
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); sim::note(p, n); return p; }
void free(void *p) { sim::gone(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); sim::note(p, a * b); return p; }
void *realloc(void *p, size_t n) { void *q = __libc_realloc(p, n); if (q || !n) { sim::gone(p); sim::note(q, n); } return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); sim::note(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
