// Simulated threads, mutexes, condition variables, futexes.
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <stdarg.h>
#include <malloc.h>
extern "C" void simtsan_reset();

namespace sim {
struct Mx { Task *owner = nullptr; int depth = 0; };
struct Waiter { Task *t; bool signaled = false; };
static std::map<void *, Mx> mx;
static std::map<void *, std::vector<Waiter *>> cvs;
struct FW { void *addr; bool woken = false; };
static std::vector<FW *> fws;
static std::map<unsigned long, Task *> by_pth;
struct Rw { int readers = 0; Task *writer = nullptr; };
static std::map<void *, Rw> rws;
uint32_t g_spurious = 0;  // 1/n
void set_spurious(uint32_t n) { g_spurious = n; }
static int64_t g_thread_fail = -1;
void set_thread_fail(int64_t n) { g_thread_fail = n; }
void sync_reset() { mx.clear(); cvs.clear(); fws.clear(); by_pth.clear(); rws.clear(); simtsan_reset(); }
static bool active() { return g_cur_is_task(); }
// race-detector hooks (weak: only in tsan-instrumented builds)
}
extern "C" {
void __attribute__((weak)) simtsan_acquire(void *) {}
void __attribute__((weak)) simtsan_release(void *) {}
void __attribute__((weak)) simtsan_create(int, int) {}
void __attribute__((weak)) simtsan_join(int, int) {}
void __attribute__((weak)) simtsan_proc(int) {}
void __attribute__((weak)) simtsan_fclose(FILE *, void *) {}
void __attribute__((weak)) simtsan_free(void *, size_t) {}
void __attribute__((weak)) simtsan_reset() {}
int __attribute__((weak)) simtsan_on = 0;
}
namespace sim {
void on_free(void *p) { if (simtsan_on && p) simtsan_free(p, malloc_usable_size(p)); }
static void lock_mx(void *m, const char *what) {
  Task *me = cur();
  Mx &x = mx[m];
  if (x.owner == me) { block_until("mutex relock by its owner (self-deadlock)", [] { return false; }); }
  while (mx[m].owner) { probe("sync:mutex-contended"); block_until(what, [m] { return mx[m].owner == nullptr; }); }
  mx[m].owner = me; simtsan_acquire(m);
}
static uint64_t abs_to_virtual(const struct timespec *ts) {
  uint64_t v = (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec, base = 1600000000000000000ULL;
  v = v > base ? v - base : 1; return v > now() ? v : now() + 1;
}
static int cond_wait(void *c, void *m, uint64_t deadline) {
  Harness h; point("cond_wait");
  Task *me = cur();
  if (mx[m].owner != me) fail("sync-misuse", "condition wait without holding the mutex");
  Waiter w; w.t = me; cvs[c].push_back(&w);
  uint64_t dl = deadline; bool spur = false;
  if (g_spurious && chance(S_FAULT, 1, g_spurious)) { uint64_t d = now() + 1000 + choose(S_FAULT, 64) * 1000; if (!dl || d < dl) { dl = d; spur = true; } }
  simtsan_release(m); mx[m].owner = nullptr;
  Waiter *wp = &w;
  block_until("cond_wait", [wp] { return wp->signaled; }, dl);
  bool sig = w.signaled;
  auto &v = cvs[c]; for (size_t i = 0; i < v.size(); i++) if (v[i] == &w) { v.erase(v.begin() + i); break; }
  if (!sig && spur) probe("fault:spurious-wakeup");
  lock_mx(m, "cond_wait(reacquire)");
  return (!sig && !spur && deadline) ? ETIMEDOUT : 0;
}
}  // namespace sim
using namespace sim;
#define REAL(r, n, ...) extern "C" r __real_##n(__VA_ARGS__); extern "C" r __wrap_##n(__VA_ARGS__)
REAL(int, pthread_mutex_lock, pthread_mutex_t *m) { if (!active()) return __real_pthread_mutex_lock(m); Harness h; point("mutex_lock", 20); lock_mx(m, "mutex_lock"); return 0; }
REAL(int, pthread_mutex_trylock, pthread_mutex_t *m) { if (!active()) return __real_pthread_mutex_trylock(m); Harness h; point("mutex_trylock", 20); if (mx[m].owner) return EBUSY; mx[m].owner = cur(); simtsan_acquire(m); return 0; }
REAL(int, pthread_mutex_unlock, pthread_mutex_t *m) {
  if (!active()) return __real_pthread_mutex_unlock(m);
  Harness h; auto it = mx.find(m);
  if (it == mx.end() || it->second.owner != cur()) fail("sync-misuse", "mutex unlocked by a thread that does not hold it");
  simtsan_release(m); mx.erase(it); point("mutex_unlock", 20); return 0;
}
REAL(int, pthread_mutex_destroy, pthread_mutex_t *m) { if (!active()) return __real_pthread_mutex_destroy(m); mx.erase(m); return 0; }
REAL(int, pthread_cond_wait, pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) return __real_pthread_cond_wait(c, m); return cond_wait(c, m, 0); }
REAL(int, pthread_cond_timedwait, pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!active()) return __real_pthread_cond_timedwait(c, m, t); return cond_wait(c, m, abs_to_virtual(t)); }
REAL(int, pthread_cond_clockwait, pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!active()) return __real_pthread_cond_clockwait(c, m, k, t); return cond_wait(c, m, abs_to_virtual(t)); }
REAL(int, pthread_cond_signal, pthread_cond_t *c) {
  if (!active()) return __real_pthread_cond_signal(c);
  Harness h; point("cond_signal", 20); std::vector<Waiter *> u; for (auto *w : cvs[c]) if (!w->signaled) u.push_back(w);
  if (u.empty()) { probe("sync:signal-without-waiter"); return 0; }
  u[u.size() > 1 ? choose(S_SCHED, u.size()) : 0]->signaled = true; return 0;
}
REAL(int, pthread_cond_broadcast, pthread_cond_t *c) { if (!active()) return __real_pthread_cond_broadcast(c); Harness h; point("cond_broadcast", 20); for (auto *w : cvs[c]) w->signaled = true; return 0; }
REAL(int, pthread_cond_destroy, pthread_cond_t *c) {
  if (!active()) return __real_pthread_cond_destroy(c);
  Harness h; auto it = cvs.find(c); if (it != cvs.end()) { for (auto *w : it->second) if (!w->signaled) fail("sync-misuse", "condition variable destroyed while a thread waits on it"); cvs.erase(it); } return 0;
}
REAL(int, pthread_once, pthread_once_t *o, void (*f)(void)) {
  if (!active()) return __real_pthread_once(o, f);
  Harness h; point("once", 20); int *s = (int *)o;
  // 0 = fresh, 1 = running, 2 = done
  for (;;) {
    if (*s == 2) { simtsan_acquire(o); return 0; }
    if (*s == 1) { block_until("once", [s] { return *s != 1; }); continue; }
    *s = 1; cur()->harness_depth--; 
    try { f(); } catch (...) { cur()->harness_depth++; *s = 0; throw; }
    cur()->harness_depth++;
    *s = 2; simtsan_release(o); return 0;
  }
}
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *r) { if (!active()) return __real_pthread_rwlock_rdlock(r); Harness h; point("rdlock", 20); while (rws[r].writer) block_until("rdlock", [r] { return !rws[r].writer; }); rws[r].readers++; simtsan_acquire(r); return 0; }
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *r) { if (!active()) return __real_pthread_rwlock_wrlock(r); Harness h; point("wrlock", 20); while (rws[r].writer || rws[r].readers) block_until("wrlock", [r] { return !rws[r].writer && !rws[r].readers; }); rws[r].writer = cur(); simtsan_acquire(r); return 0; }
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *r) { if (!active()) return __real_pthread_rwlock_unlock(r); Harness h; simtsan_release(r); if (rws[r].writer == cur()) rws[r].writer = nullptr; else if (rws[r].readers) rws[r].readers--; point("rwunlock", 20); return 0; }
extern "C" int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!active()) return __real_pthread_create(th, a, fn, arg);
  Harness h; point("pthread_create");
  if (g_thread_fail >= 0 && g_thread_fail-- == 0) { probe("fault:thread-creation-fails"); return EAGAIN; }
  Task *parent = cur();
  Task *t = spawn_task(cur_proc(), [fn, arg] {
    Task *me = cur(); me->ret = fn(arg);
    for (auto *w : std::vector<int *>()) (void)w;
  });
  simtsan_create(parent->id, t->id);
  *th = (pthread_t)t->pth; by_pth[t->pth] = t; probe("sync:thread-created"); return 0;
}
REAL(int, pthread_join, pthread_t th, void **r) {
  if (!active()) return __real_pthread_join(th, r);
  Harness h; point("pthread_join"); auto it = by_pth.find((unsigned long)th); if (it == by_pth.end()) return ESRCH;
  Task *t = it->second; block_until("pthread_join", [t] { return t->finished; }); simtsan_join(cur()->id, t->id); if (r) *r = t->ret; by_pth.erase((unsigned long)th); return 0;
}
REAL(int, pthread_detach, pthread_t th) { if (!active()) return __real_pthread_detach(th); auto it = by_pth.find((unsigned long)th); if (it == by_pth.end()) return ESRCH; it->second->detached = true; return 0; }
REAL(int, sched_yield, void) { if (!active()) return __real_sched_yield(); Harness h; point("sched_yield"); return 0; }
extern "C" ssize_t __wrap_getrandom(void *, size_t, unsigned);
extern "C" long __wrap_syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (!active()) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (n == SYS_getrandom) return __wrap_getrandom((void *)a[0], a[1], a[2]);
  if (n != SYS_futex) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  Harness h; point("futex", 20);
  int op = a[1] & FUTEX_CMD_MASK; int *addr = (int *)a[0];
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
    uint64_t dl = 0; const struct timespec *ts = (const struct timespec *)a[3];
    if (ts) dl = op == FUTEX_WAIT ? now() + (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec + 1 : abs_to_virtual(ts);
    FW w; w.addr = addr; fws.push_back(&w); FW *wp = &w;
    bool ok = block_until("futex_wait", [wp] { return wp->woken; }, dl);
    for (size_t i = 0; i < fws.size(); i++) if (fws[i] == &w) { fws.erase(fws.begin() + i); break; }
    if (!ok) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { long k = 0; for (auto *w : fws) if (w->addr == addr && !w->woken && k < a[2]) { w->woken = true; k++; } return k; }
  errno = ENOSYS; return -1;
}
