// Deterministic simulator core: choice streams, token-passing scheduler, virtual
// time, simulated processes.  See DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 0) { reseed(seed); }
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32); }
};
uint64_t hash64(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567);

// ------------------------------------------------------------ choice streams
// Every decision of a run is one entry of one of these streams; entry 0 is the
// simplest alternative.  A run is a pure function of the four streams.
enum Stream { S_PLAN, S_SCHED, S_FAULT, S_NET, S_N };
uint32_t choose(Stream s, uint32_t n);                       // uniform in [0,n)
uint32_t draw(Stream s, uint32_t n, const std::function<uint32_t(Rng &)> &f); // own distribution, logged
bool chance(Stream s, uint32_t num, uint32_t den);           // 1 with probability num/den
uint32_t log_uniform(Stream s, uint32_t max);                // in [0,max], log-uniform
struct StreamMark { size_t pos[S_N]; };
StreamMark mark_streams();
void rewind_streams(const StreamMark &m);                    // replay what was drawn since the mark

// ------------------------------------------------------------ outcome of a run
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
[[noreturn]] void finish_skip(const char *why);              // run says nothing (budget)
void probe(const char *name, uint64_t n = 1);                // reach probe, fault counters ("fault:...")
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_hash(uint64_t v);                                 // fold a value into the run's trace hash
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // description of this case
void set_nontrivial(bool b);
bool tracing();

// ------------------------------------------------------------------ the world
struct Proc; struct Task; struct OFD;
typedef std::function<void()> Fn;

struct ProcCfg { std::string name; uint32_t ip = 0x0a000001; bool sigpipe_ignored = false; uint32_t socket_fail = 0; int stream_fail = -1; bool no_stdin = false; /* descriptor 0 is free */ };
enum ProcState { P_RUNNING, P_DONE, P_EXITED, P_KILLED };

struct Proc {
  int id; ProcCfg cfg; ProcState state = P_RUNNING; int status = 0; bool exiting = false;
  std::string note;
  std::vector<Task *> tasks;
  std::map<int, std::shared_ptr<OFD>> fds;
  std::map<FILE *, uint64_t> files; std::map<FILE *, int> file_fd; std::set<int> real_fds;
  void *statics[4] = {0, 0, 0, 0};
  uint64_t ended_step = 0;
  // descriptor book-keeping (C04)
  uint64_t bad_closes = 0, foreign_closes = 0; std::string bad_close_note;
  bool failed() const { return state == P_KILLED || (state == P_EXITED && status != 0); }
  bool alive() const { return state == P_RUNNING; }
  uint64_t write_errors = 0;   // failed writes this process was told about
};
enum TaskState { T_READY, T_BLOCKED, T_DEAD };
struct Task {
  int id; Proc *proc; TaskState st = T_READY; std::function<bool()> pred; uint64_t deadline = 0;
  int run = 0; Fn fn; const char *what = ""; int prio = 0; bool timed_out = false;
  bool finished = false; unsigned long pth = 0; void *ret = nullptr; bool detached = false;
  int harness_depth = 0; uint64_t alloc_count = 0, last_run = 0;
  bool in_sim = false;
};

Proc *spawn_proc(const ProcCfg &, Fn main);
Task *spawn_task(Proc *, Fn);
Task *cur();
Proc *cur_proc();
uint64_t now();
uint64_t steps();
uint64_t rnd_step();
void point(const char *what, uint64_t cost_ns = 1000);       // scheduling point
bool block_until(const char *what, std::function<bool()> pred, uint64_t deadline = 0); // false: deadline passed
void sleep_ns(uint64_t ns);
void at(uint64_t when, Fn f);                                // event
void at_step(uint64_t step, Fn f);                           // fault trigger on the step counter
void kill_proc(Proc *, int sig);
[[noreturn]] void exit_self(int code, int sig, const char *why);
[[noreturn]] void park_self();

enum RunResult { R_DONE, R_DEADLOCK, R_BUDGET };
RunResult run_world();        // root: until every process ended, deadlock, or step budget
std::string blocked_report();
void reset_world();
extern void (*on_proc_switch)(Proc *from, Proc *to);

struct Knobs {
  uint64_t step_budget = 1000000;
  uint64_t bb_budget = 400000000;   // instrumented basic blocks without a scheduling point
  int policy = 0;
};
extern Knobs knobs;
void pick_policy();                                          // swarm: scheduling policy of this run

// spin detector (called from instrumented code)
extern uint64_t g_bb;
// memory-access preemption (tsan-instrumented builds)
extern bool g_mem_preempt;
void mem_point();
void set_thread_fail(int64_t n);                             // the n-th thread creation from now fails (EAGAIN); -1: none
void set_spurious(uint32_t n);                               // spurious wake-ups of condition waits, 1/n

// allocation
struct AllocCfg { uint64_t poison = 1; bool fail_armed = false; int64_t fail_after = -1; int fail_task = -1; uint64_t count = 0; uint64_t failed = 0; bool counting = false; };
extern AllocCfg alloc_cfg; extern bool g_stream_failed;
struct Harness { Harness(); ~Harness(); };                   // marks harness code: no allocation faults inside

// ---------------------------------------------------------------- simulated IO
struct NetCfg {
  size_t capacity = 1 << 20; uint64_t latency = 50000; uint64_t jitter = 0; uint32_t seg = 0;   // 0 whole, else max segment
  uint32_t short_read = 0;     // 0 never, else 1/n chance
  uint32_t short_write = 0; uint32_t stall = 0; uint64_t stall_max = 30000000000ULL;
  uint32_t connect_fail = 0; uint32_t accept_fail = 0; uint32_t eintr = 0;
  bool log_wire = false;
};
extern NetCfg net_cfg;
void pick_net(size_t volume);                                // swarm: network behaviour for this run
struct ByteQ {
  std::string b; size_t h = 0;
  size_t size() const { return b.size() - h; }
  bool empty() const { return size() == 0; }
  void push(const char *p, size_t n) { if (h > 65536 && h * 2 > b.size()) { b.erase(0, h); h = 0; } b.append(p, n); }
  void pop(void *p, size_t n) { memcpy(p, b.data() + h, n); h += n; if (h == b.size()) { b.clear(); h = 0; } }
};
struct Pipe { // one direction
  ByteQ rcv; size_t inflight = 0; uint64_t last_deliver = 0; bool fin_sent = false, fin_rcvd = false;
  bool rst = false; uint64_t written = 0, delivered = 0, consumed = 0; std::string wire; uint64_t wire_hash = 0x77; size_t cap = 1 << 20;
  bool reader_closed = false, writer_closed = false; bool frozen = false;
};
struct Conn {
  int id; Pipe p[2];           // p[0]: client->server, p[1]: server->client
  Proc *proc[2] = {nullptr, nullptr}; int sport = 0; bool aborted = false; bool established[2] = {false, false};
  bool err_pending[2] = {false, false}; int err_no[2] = {0, 0}; bool reset[2] = {false, false};
  uint64_t closed_at[2] = {0, 0}; bool closed[2] = {false, false}; bool time_wait_server = false; uint64_t user_timeout[2] = {0, 0};
};
std::vector<std::shared_ptr<Conn>> &conns();
void reset_conn(Conn *c);                                    // RST both ways (network fault)

enum OfdKind { K_SOCK, K_LISTEN, K_CONN, K_FILE, K_URANDOM, K_DECOY };
struct Inode { std::string path; std::string data; bool exists = true; uint64_t gen = 0; };
struct OFD {
  OfdKind kind = K_SOCK; bool reuse = false; int port = 0; bool bound = false; std::shared_ptr<Conn> conn; int side = 0;
  std::deque<std::shared_ptr<Conn>> backlog; int backlog_max = 0;
  std::shared_ptr<Inode> ino; uint64_t off = 0, last_off = ~0ULL; bool rd = false, wr = false, app = false;
  Proc *owner = nullptr; bool harness_owned = false; uint64_t seq = 0; bool closed = false; bool nonblock = false;
  int fd_refs = 0; FILE *stream = nullptr; bool shut_wr = false;
  uint64_t rcvtimeo = 0, sndtimeo = 0, user_timeout = 0; bool linger0 = false;   // socket options that change what the owner sees
};
struct DiskCfg {
  uint32_t short_rd = 0, short_wr = 0; uint64_t capacity = ~0ULL; int64_t fail_after = -1; int fail_errno = 0; // fail the n-th disk op
  uint32_t fail_mask = 0;   // 1 read,2 write,4 close,8 open,16 seek
  bool sticky = false;
};
struct Disk {
  std::map<std::string, std::shared_ptr<Inode>> files; DiskCfg cfg; uint64_t ops = 0; uint64_t used = 0; uint64_t faults = 0; bool dead = false;
};
extern Disk disk;
extern double cpu_limit;                                     // CPU seconds a run may use
bool is_sim_path(const char *p);                             // everything under /sim/
struct EntropyCfg {
  uint64_t seed = 1; uint64_t pos = 0; int64_t flip_byte = -1; uint8_t flip_mask = 0;
  int fail_mode = 0;   // 0 ok, 1 open fails, 2 read error, 3 EOF
  uint64_t fail_at = ~0ULL;  // byte position at which failure starts
  uint32_t short_rd = 0, eintr = 0; bool stuck = false; bool used = false;
  std::vector<uint8_t> log; std::vector<int> owner; uint64_t opens = 0;
};
extern EntropyCfg entropy;
uint64_t rdseed_calls();
int open_decoy(Proc *);                                      // descriptor owned by unrelated code of the process
bool decoy_intact(Proc *, int fd, uint64_t seq);
uint64_t fd_seq(Proc *, int fd);
extern uint64_t g_socket_calls;
size_t open_fd_count(Proc *, bool harness_too = false);

// -------------------------------------------------------------------- scenario
struct ScenarioInfo { const char *property; const char *variant; };
}  // namespace sim

extern "C" void scenario_main();      // one run; runs as the root task
extern const char *scenario_property;
