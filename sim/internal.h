#pragma once
#include "sim.h"
#include <pthread.h>
extern "C" long __real_syscall(long, ...);
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
namespace sim {
enum { LOGCAP = 1 << 20, MAXPROBE = 160, TRACECAP = 1 << 18 };
enum Outcome { O_NONE, O_OK, O_FAIL, O_SKIP };
struct Shared {
  uint32_t outcome; char cls[160]; char msg[2048]; uint64_t thash, shash; char sample[1024]; uint32_t nontrivial; uint32_t overflow;
  struct { char name[56]; uint64_t n; } probes[MAXPROBE]; uint32_t nprobe;
  uint64_t steps, vtime, switches;
  size_t nlog[S_N], used[S_N]; size_t tlen;
  uint32_t log[S_N][LOGCAP];
  char trace[TRACECAP];
};
extern Shared *sh;
void begin_run(uint64_t seed, uint64_t poison, bool replay, bool trace);
void make_root();
[[noreturn]] void syscall_exit(int code);
void proc_teardown(Proc *, bool killed);
void flush_streams(Proc *);
void io_reset();
void sync_reset();
void sig_install_thread();
std::vector<Proc *> &all_procs();
bool g_cur_is_task();
void on_free(void *p);
int64_t thread_by_pth(unsigned long);
}
