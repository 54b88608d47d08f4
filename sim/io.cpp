// Simulated sockets, files, entropy: the code under test reaches these through
// link-time interposition (--wrap) of the libc calls it already makes.
#include "sim.h"
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <algorithm>

namespace sim {
uint64_t g_socket_calls = 0;
NetCfg net_cfg; Disk disk; EntropyCfg entropy;
static std::vector<std::shared_ptr<Conn>> g_conns;
static uint64_t ofd_seq = 0;
static const int FDBASE = 512;
std::vector<std::shared_ptr<Conn>> &conns() { return g_conns; }
void io_reset() { g_conns.clear(); disk = Disk(); ofd_seq = 0; }

static bool active() { return g_cur_is_task(); }
static std::shared_ptr<OFD> get(int fd) {
  Proc *p = cur_proc(); auto it = p->fds.find(fd); return it == p->fds.end() ? nullptr : it->second;
}
static int install(Proc *p, std::shared_ptr<OFD> o, int minfd = FDBASE) {
  int fd = minfd == FDBASE && p->cfg.no_stdin && !p->fds.count(0) ? 0 : minfd; while (p->fds.count(fd)) fd++;
  p->fds[fd] = o; o->fd_refs++; if (!o->seq) o->seq = ++ofd_seq; o->owner = p; return fd;
}
static bool is_sim_fd(int fd) { return active() && (fd >= FDBASE || (fd == 0 && cur_proc()->cfg.no_stdin)); }
bool is_sim_path(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static bool is_urandom(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }

// ------------------------------------------------------------------ network
void pick_net(size_t volume) {
  NetCfg c;
  static const uint32_t caps[] = {1 << 20, 1 << 18, 1 << 16, 1 << 14, 4096, 4 << 20};
  c.capacity = caps[choose(S_PLAN, 6)];
  static const uint64_t lats[] = {50000, 0, 1000, 5000000, 150000000};
  c.latency = lats[choose(S_PLAN, 5)];
  static const uint64_t jits[] = {0, 10000, 1000000, 200000000};
  c.jitter = jits[choose(S_PLAN, 4)];
  uint32_t sg = choose(S_PLAN, 6);
  c.seg = sg == 0 ? 0 : sg == 1 ? 1460 : sg == 2 ? 536 : sg == 3 ? 65536 : sg == 4 ? 64 : 7;
  if (c.seg && volume / c.seg > 4000) c.seg = (uint32_t)(volume / 4000) | 1;
  if (volume / c.capacity > 3000) c.capacity = 1 << 16;
  static const uint32_t rates[] = {0, 2, 8, 64};
  c.short_read = rates[choose(S_PLAN, 4)];
  if (c.short_read == 2 && volume > 2000000) c.short_read = 8;
  c.short_write = rates[choose(S_PLAN, 4)];
  static const uint32_t st[] = {0, 50, 400};
  c.stall = st[choose(S_PLAN, 3)];
  static const uint64_t sm[] = {30000000000ULL, 30000000000ULL, 600000000000ULL, 20000000000000ULL};   // a stall may last hours
  c.stall_max = sm[choose(S_PLAN, 4)];
  net_cfg = c;
}
static bool nfault(const char *kind, uint32_t rate) {
  if (!rate) return false;
  if (!chance(S_FAULT, 1, rate)) return false;
  probe(kind); return true;
}
static uint64_t net_delay() {
  uint64_t d = net_cfg.latency;
  if (net_cfg.jitter) d += (uint64_t)choose(S_NET, 1024) * net_cfg.jitter / 1024;
  if (net_cfg.stall && chance(S_FAULT, 1, net_cfg.stall)) { probe("fault:net-stall"); d += 1000000ULL + net_cfg.stall_max / 64 * choose(S_NET, 64); }
  return d;
}
static void rst_to(std::shared_ptr<Conn> c, int side, bool in_order) {  // side receives RST
  uint64_t t = now() + net_cfg.latency;
  Pipe &in = c->p[1 - side];
  if (in_order && in.last_deliver > t) t = in.last_deliver;
  at(t, [c, side] {
    if (c->closed[side] || c->reset[side]) return;
    c->reset[side] = true; c->err_pending[side] = true; c->err_no[side] = c->p[1 - side].fin_rcvd ? EPIPE : ECONNRESET;
    c->p[side].inflight = 0;
    probe("net:rst-received");
  });
}
static void net_send(std::shared_ptr<Conn> c, int side, const char *b, size_t n) {
  Pipe &p = c->p[side];
  p.written += n; p.wire_hash = hash_bytes(b, n, p.wire_hash);
  if (net_cfg.log_wire) p.wire.append(b, n);
  size_t i = 0;
  while (i < n) {
    size_t k = n - i;
    if (net_cfg.seg && k > net_cfg.seg) k = net_cfg.seg;
    if (net_cfg.seg && k > 1 && net_cfg.seg >= 1460 && chance(S_NET, 1, 4)) k = 1 + choose(S_NET, (uint32_t)k);
    uint64_t t = now() + net_delay();
    if (t < p.last_deliver) t = p.last_deliver;
    if (c->user_timeout[side] && t - now() > c->user_timeout[side]) { probe("net:user-timeout"); uint64_t ut = c->user_timeout[side]; at(now() + ut, [c, side] { if (!c->closed[side] && !c->reset[side]) { c->reset[side] = true; c->err_pending[side] = true; c->err_no[side] = ETIMEDOUT; c->p[side].rst = true; } }); }
    p.last_deliver = t; p.inflight += k;
    std::string seg(b + i, k);
    at(t, [c, side, seg] {
      Pipe &q = c->p[side];
      q.inflight = q.inflight >= seg.size() ? q.inflight - seg.size() : 0;
      if (q.rst) return;
      if (c->closed[1 - side]) { rst_to(c, side, false); return; }
      if (c->reset[1 - side]) return;
      q.rcv.push(seg.data(), seg.size()); q.delivered += seg.size();
    });
    i += k;
  }
}
static void net_fin(std::shared_ptr<Conn> c, int side) {
  Pipe &p = c->p[side]; if (p.fin_sent) return; p.fin_sent = true;
  uint64_t t = now() + net_delay(); if (t < p.last_deliver) t = p.last_deliver; p.last_deliver = t;
  at(t, [c, side] { if (!c->p[side].rst) c->p[side].fin_rcvd = true; });
}
static void endpoint_close(std::shared_ptr<Conn> c, int side) {
  if (c->closed[side]) return;
  c->closed[side] = true; c->closed_at[side] = now();
  Pipe &in = c->p[1 - side];
  if (c->reset[side]) return;
  if (!in.rcv.empty()) { probe("net:close-with-unread"); c->p[side].fin_sent = true; rst_to(c, 1 - side, true); in.rcv = ByteQ(); }
  else net_fin(c, side);
}
void reset_conn(Conn *cp) {
  for (auto &c : g_conns) if (c.get() == cp) {
    for (int s = 0; s < 2; s++) if (!c->closed[s] && !c->reset[s]) {
      c->reset[s] = true; c->err_pending[s] = true; c->err_no[s] = c->p[1 - s].fin_rcvd ? EPIPE : ECONNRESET;
      c->p[s].inflight = 0; c->p[s].rst = true;
    }
    c->aborted = true;
  }
}
static void ofd_release(std::shared_ptr<OFD> o) {
  if (--o->fd_refs > 0) return;
  o->closed = true;
  if (o->kind == K_CONN && o->linger0 && !o->conn->closed[o->side] && !o->conn->reset[o->side]) {   // SO_LINGER with zero time: undelivered data is dropped and the peer is reset
    auto c = o->conn; int s = o->side; probe("net:linger-abort"); c->closed[s] = true; c->closed_at[s] = now(); c->p[s].rst = true; c->p[1 - s].rcv = ByteQ(); rst_to(c, 1 - s, false); return;
  }
  if (o->kind == K_CONN) endpoint_close(o->conn, o->side);
  else if (o->kind == K_LISTEN) { for (auto &c : o->backlog) { c->closed[1] = true; rst_to(c, 0, false); } o->backlog.clear(); }
}
void proc_teardown(Proc *p, bool killed) {
  (void)killed;
  auto m = p->fds; p->fds.clear();
  for (auto &kv : m) ofd_release(kv.second);
}
void flush_streams(Proc *p) {
  std::vector<std::pair<uint64_t, FILE *>> v; for (auto &kv : p->files) v.push_back({kv.second, kv.first});
  std::sort(v.begin(), v.end());
  for (auto &e : v) { FILE *f = e.second; if (p->files.count(f)) fflush_unlocked(f); if (!p->alive()) return; }
}
size_t open_fd_count(Proc *p, bool harness_too) {
  size_t n = 0; for (auto &kv : p->fds) if (harness_too || !kv.second->harness_owned) n++; return n;
}
int open_decoy(Proc *p) { auto o = std::make_shared<OFD>(); o->kind = K_DECOY; o->harness_owned = true; return install(p, o); }
uint64_t fd_seq(Proc *p, int fd) { auto it = p->fds.find(fd); return it == p->fds.end() ? 0 : it->second->seq; }
bool decoy_intact(Proc *p, int fd, uint64_t seq) { return fd_seq(p, fd) == seq; }

static int sigpipe() {
  Proc *p = cur_proc();
  if (!p->cfg.sigpipe_ignored) { probe("net:sigpipe"); exit_self(0, SIGPIPE, "SIGPIPE"); }
  errno = EPIPE; return -1;
}
static ssize_t conn_write(std::shared_ptr<OFD> o, const char *b, size_t n, int flags) {
  auto c = o->conn; int s = o->side; Pipe &p = c->p[s]; size_t done = 0;
  bool nb = o->nonblock || (flags & MSG_DONTWAIT);
  while (done < n || n == 0) {
    if (c->reset[s] || o->shut_wr) {
      if (done) return done;
      int e = EPIPE; if (c->reset[s] && c->err_pending[s]) { c->err_pending[s] = false; e = c->err_no[s]; }
      trace("write on broken connection -> errno %d", e);
      probe("net:write-error"); cur_proc()->write_errors++;
      if (e == EPIPE && !(flags & MSG_NOSIGNAL)) return sigpipe();
      errno = e; return -1;
    }
    if (n == 0) return 0;
    size_t used = p.rcv.size() + p.inflight, fr = p.cap > used ? p.cap - used : 0;
    if (!fr) {
      if (nb) { if (done) return done; errno = EAGAIN; return -1; }
      probe("net:write-blocked");
      if (!block_until("write(socket full)", [c, s, o] { Pipe &q = c->p[s]; return c->reset[s] || q.rcv.size() + q.inflight < q.cap; }, o->sndtimeo ? now() + o->sndtimeo : 0)) { probe("net:send-timeout"); if (done) return done; errno = EAGAIN; return -1; }
      continue;
    }
    size_t k = std::min(fr, n - done);
    net_send(c, s, b + done, k); done += k;
    if (done < n && nfault("fault:net-short-write", net_cfg.short_write)) return done;
    if (done < n && nb) return done;
  }
  return done;
}
static ssize_t conn_read(std::shared_ptr<OFD> o, char *b, size_t n, int flags) {
  auto c = o->conn; int s = o->side; Pipe &p = c->p[1 - s];
  if (n == 0) return 0;
  for (;;) {
    if (!p.rcv.empty()) {
      size_t k = std::min(n, p.rcv.size());
      if (k > 1 && nfault("fault:net-short-read", net_cfg.short_read)) k = 1 + choose(S_NET, (uint32_t)std::min<size_t>(k - 1, 4096));
      if (flags & MSG_PEEK) { memcpy(b, p.rcv.b.data() + p.rcv.h, k); return k; }
      p.rcv.pop(b, k); p.consumed += k;
      return k;
    }
    if (c->reset[s]) {
      if (c->err_pending[s]) { c->err_pending[s] = false; errno = ECONNRESET; probe("net:read-reset"); trace("read -> ECONNRESET"); return -1; }
      return 0;
    }
    if (p.fin_rcvd) { probe("net:read-eof"); trace("read -> EOF"); return 0; }
    if (o->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    if (nfault("fault:net-eintr", net_cfg.eintr)) { errno = EINTR; return -1; }
    if (!block_until("read(socket)", [c, s] { Pipe &q = c->p[1 - s]; return !q.rcv.empty() || q.fin_rcvd || c->reset[s]; }, o->rcvtimeo ? now() + o->rcvtimeo : 0)) { probe("net:recv-timeout"); errno = EAGAIN; return -1; }
  }
}

// --------------------------------------------------------------------- disk
static bool disk_fault(uint32_t kindbit, const char *what) {
  disk.ops++;
  if (disk.dead) { errno = disk.cfg.fail_errno ? disk.cfg.fail_errno : EIO; disk.faults++; return true; }
  if (disk.cfg.fail_after >= 0 && (disk.cfg.fail_mask & kindbit)) {
    if (disk.cfg.fail_after-- == 0) {
      if (disk.cfg.sticky) disk.dead = true;
      errno = disk.cfg.fail_errno ? disk.cfg.fail_errno : EIO; disk.faults++;
      std::string pn = std::string("fault:disk-") + what; probe(pn.c_str()); trace("disk fault injected: %s errno %d", what, errno); return true;
    }
  }
  return false;
}
static ssize_t file_write(std::shared_ptr<OFD> o, const char *b, size_t n) {
  if (!o->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (disk_fault(2, "write-error")) return -1;
  if (o->app) o->off = o->ino->data.size();
  size_t k = n;
  uint64_t end = o->off + n;
  if (end > o->ino->data.size()) {
    uint64_t grow = end - o->ino->data.size();
    if (disk.used + grow > disk.cfg.capacity) {
      uint64_t room = disk.cfg.capacity > disk.used ? disk.cfg.capacity - disk.used : 0;
      uint64_t over = grow - room; disk.faults++;
      probe("fault:disk-full"); trace("disk full");
      if (over >= n) { errno = ENOSPC; return -1; }
      k = n - over;
    }
  }
  if (k > 1 && nfault("fault:disk-short-write", disk.cfg.short_wr)) k = 1 + choose(S_FAULT, (uint32_t)(k - 1));
  end = o->off + k; o->last_off = o->off >= o->ino->data.size() ? o->ino->data.size() : ~0ULL;
  if (end > o->ino->data.size()) { disk.used += end - o->ino->data.size(); o->ino->data.resize(end, '\0'); }
  memcpy(&o->ino->data[o->off], b, k); o->off = end;
  return k;
}
static ssize_t file_read(std::shared_ptr<OFD> o, char *b, size_t n) {
  if (!o->rd) { errno = EBADF; return -1; }
  if (disk_fault(1, "read-error")) return -1;
  if (o->off >= o->ino->data.size()) return 0;
  size_t k = std::min<uint64_t>(n, o->ino->data.size() - o->off);
  if (k > 1 && nfault("fault:disk-short-read", disk.cfg.short_rd)) k = 1 + choose(S_FAULT, (uint32_t)(k - 1));
  memcpy(b, o->ino->data.data() + o->off, k); o->off += k;
  return k;
}
static uint8_t entropy_byte(uint64_t pos) {
  if (entropy.stuck) return 0xff;
  uint8_t v = (uint8_t)(hash64(entropy.seed, pos) >> 13);
  if ((int64_t)pos == entropy.flip_byte) v ^= entropy.flip_mask;
  return v;
}
static ssize_t entropy_read(char *b, size_t n) {
  if (n == 0) return 0;
  if (entropy.eintr && nfault("fault:entropy-eintr", entropy.eintr)) { errno = EINTR; return -1; }
  if (entropy.fail_mode >= 2 && entropy.pos >= entropy.fail_at) {
    probe(entropy.fail_mode == 2 ? "fault:entropy-read-error" : "fault:entropy-eof");
    if (entropy.fail_mode == 2) { errno = EIO; return -1; }
    return 0;
  }
  size_t k = n;
  if (entropy.fail_mode >= 2 && entropy.pos + k > entropy.fail_at) k = entropy.fail_at - entropy.pos;
  if (k > 1 && entropy.short_rd && nfault("fault:entropy-short-read", entropy.short_rd)) k = 1 + choose(S_FAULT, (uint32_t)(k - 1));
  for (size_t i = 0; i < k; i++) { uint8_t v = entropy_byte(entropy.pos++); b[i] = v; entropy.log.push_back(v); entropy.owner.push_back(cur()->id); }
  entropy.used = true;
  return k;
}
static uint64_t g_rdseed_calls = 0;
uint64_t rdseed_calls() { return g_rdseed_calls; }

static ssize_t ofd_read(std::shared_ptr<OFD> o, char *b, size_t n, int flags = 0) {
  switch (o->kind) {
    case K_CONN: return conn_read(o, b, n, flags);
    case K_FILE: return file_read(o, b, n);
    case K_URANDOM: return entropy_read(b, n);
    case K_SOCK: case K_LISTEN: errno = ENOTCONN; return -1;
    default: errno = EIO; return -1;
  }
}
static ssize_t ofd_write(std::shared_ptr<OFD> o, const char *b, size_t n, int flags = 0) {
  switch (o->kind) {
    case K_CONN: return conn_write(o, b, n, flags);
    case K_FILE: return file_write(o, b, n);
    case K_SOCK: case K_LISTEN: if (!(flags & MSG_NOSIGNAL)) return sigpipe(); errno = EPIPE; return -1;
    default: errno = EBADF; return -1;
  }
}
static int do_close(Proc *p, int fd, bool via_stream) {
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) {
    p->bad_closes++; if (p->bad_close_note.empty()) p->bad_close_note = "close of descriptor " + std::to_string(fd) + " that is not open";
    trace("close(%d) EBADF", fd); errno = EBADF; return -1;
  }
  auto o = it->second;
  if (o->harness_owned && !(cur() && cur()->harness_depth > 1)) {
    p->foreign_closes++; if (p->bad_close_note.empty()) p->bad_close_note = "close of descriptor " + std::to_string(fd) + " that belongs to unrelated code";
    trace("close(%d) hits a foreign descriptor", fd);
  }
  if (!via_stream) for (auto &kv : p->file_fd) if (kv.second == fd) {
    p->bad_closes++; if (p->bad_close_note.empty()) p->bad_close_note = "raw close of a descriptor still owned by an open stream";
  }
  int r = 0;
  if (o->kind == K_FILE && o->wr && disk_fault(4, "close-error")) {   // a deferred write failed: the last transfer is lost
    r = -1; if (o->last_off <= o->ino->data.size()) o->ino->data.resize(o->last_off); }
  int e = errno;
  p->fds.erase(it); ofd_release(o);
  errno = e;
  return r;
}
// ------------------------------------------------- stdio streams over sim fds
struct Cookie { Proc *p; int fd; uint64_t seq; };
static bool cookie_ok(Cookie *c, std::shared_ptr<OFD> &o) {
  auto it = c->p->fds.find(c->fd); if (it == c->p->fds.end()) { errno = EBADF; return false; }
  o = it->second; return true;
}
static ssize_t ck_read(void *k, char *b, size_t n) {
  Cookie *c = (Cookie *)k; Harness h; point("read"); std::shared_ptr<OFD> o; if (!cookie_ok(c, o)) return -1;
  ssize_t r = ofd_read(o, b, n); int e = errno; trace("read fd%d want %zu -> %zd", c->fd, n, r); trace_hash(r); errno = e; return r;
}
static ssize_t ck_write(void *k, const char *b, size_t n) {  // as glibc's own loop: until complete or error
  Cookie *c = (Cookie *)k; Harness h; size_t done = 0;
  while (done < n) {
    point("write"); std::shared_ptr<OFD> o; if (!cookie_ok(c, o)) return done;
    ssize_t r = ofd_write(o, b + done, n - done); int e = errno;
    trace("write fd%d want %zu -> %zd", c->fd, n - done, r); trace_hash(r); errno = e;
    if (r < 0) return done; // glibc: short count, error flag set by the stream layer
    done += r;
  }
  return done;
}
static int ck_seek(void *k, off64_t *off, int wh) {
  Cookie *c = (Cookie *)k; Harness h; std::shared_ptr<OFD> o; if (!cookie_ok(c, o)) return -1;
  if (o->kind != K_FILE) { errno = ESPIPE; return -1; }
  point("lseek");
  if (disk_fault(16, "seek-error")) return -1;
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->off : (int64_t)o->ino->data.size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  o->off = base + *off; *off = o->off; return 0;
}
static int ck_close(void *k) {
  Cookie *c = (Cookie *)k; Harness h; point("close");
  int r = do_close(c->p, c->fd, true); trace("fclose fd%d -> %d", c->fd, r); delete c; return r;
}
static FILE *wrap_stream(int fd, const char *mode) {
  Proc *p = cur_proc(); Cookie *c = new Cookie{p, fd, 0};
  cookie_io_functions_t f; f.read = ck_read; f.write = ck_write; f.seek = ck_seek; f.close = ck_close;
  FILE *s = fopencookie(c, mode, f);
  if (!s) { delete c; return nullptr; }
  p->files[s] = ++ofd_seq; p->file_fd[s] = fd; return s;
}
static int fd_of(FILE *f) {
  for (Proc *p : all_procs()) { auto it = p->file_fd.find(f); if (it != p->file_fd.end()) return it->second; }
  return -1;
}
static int do_open(const char *path, int flags) {
  Proc *p = cur_proc(); point("open");
  if (is_urandom(path)) {
    entropy.opens++;
    if (entropy.fail_mode == 1) { probe("fault:entropy-open"); errno = ENOENT; return -1; }
    auto o = std::make_shared<OFD>(); o->kind = K_URANDOM; o->rd = true; return install(p, o);
  }
  if (disk_fault(8, "open-error")) return -1;
  int acc = flags & O_ACCMODE; auto it = disk.files.find(path); std::shared_ptr<Inode> ino;
  if (it == disk.files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; trace("open %s -> ENOENT", path); return -1; }
    ino = std::make_shared<Inode>(); ino->path = path; disk.files[path] = ino;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    ino = it->second;
    if (flags & O_TRUNC) { disk.used -= std::min<uint64_t>(disk.used, ino->data.size()); ino->data.clear(); }
  }
  auto o = std::make_shared<OFD>(); o->kind = K_FILE; o->ino = ino; o->rd = acc != O_WRONLY; o->wr = acc != O_RDONLY; o->app = flags & O_APPEND;
  int fd = install(p, o); trace("open %s -> fd%d", path, fd); return fd;
}
static int mode_flags(const char *m) {
  int f = 0; bool plus = strchr(m, '+');
  if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
static std::shared_ptr<OFD> find_listener(uint32_t ip, int port) {
  for (Proc *p : all_procs()) if (p->alive() && p->cfg.ip == ip)
    for (auto &kv : p->fds) if (kv.second->kind == K_LISTEN && kv.second->port == port) return kv.second;
  return nullptr;
}
}  // namespace sim
using namespace sim;

#define REAL(r, n, ...) extern "C" r __real_##n(__VA_ARGS__); extern "C" r __wrap_##n(__VA_ARGS__)
REAL(int, socket, int d, int t, int pr) {
  if (!active()) return __real_socket(d, t, pr);
  Harness h; point("socket"); g_socket_calls++;
  if (cur_proc()->cfg.socket_fail && nfault("fault:socket-emfile", cur_proc()->cfg.socket_fail)) { errno = EMFILE; return -1; }
  auto o = std::make_shared<OFD>(); o->nonblock = t & SOCK_NONBLOCK; int fd = install(cur_proc(), o); trace("socket -> fd%d", fd); return fd;
}
REAL(int, setsockopt, int fd, int l, int n, const void *v, socklen_t len) {
  if (!is_sim_fd(fd)) { if (active()) { errno = EBADF; return -1; } return __real_setsockopt(fd, l, n, v, len); }
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (l == SOL_SOCKET && n == SO_REUSEADDR && len >= 4) o->reuse = *(const int *)v;
  if (l == SOL_SOCKET && (n == SO_RCVTIMEO || n == SO_SNDTIMEO) && len >= sizeof(timeval)) { const timeval *tv = (const timeval *)v; (n == SO_RCVTIMEO ? o->rcvtimeo : o->sndtimeo) = (uint64_t)tv->tv_sec * 1000000000ULL + (uint64_t)tv->tv_usec * 1000ULL; }
  if (l == SOL_SOCKET && n == SO_LINGER && len >= sizeof(struct linger)) { const struct linger *g = (const struct linger *)v; o->linger0 = g->l_onoff && g->l_linger == 0; }
  if (l == IPPROTO_TCP && n == TCP_USER_TIMEOUT && len >= 4) { o->user_timeout = (uint64_t)*(const unsigned *)v * 1000000ULL; if (o->conn) o->conn->user_timeout[o->side] = o->user_timeout; }
  return 0;
}
REAL(int, getsockopt, int fd, int l, int n, void *v, socklen_t *len) {
  if (!is_sim_fd(fd)) return __real_getsockopt(fd, l, n, v, len);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int val = 0; if (l == SOL_SOCKET && n == SO_ERROR && o->conn && o->conn->err_pending[o->side]) { val = o->conn->err_no[o->side]; o->conn->err_pending[o->side] = false; }
  if (*len >= 4) { memcpy(v, &val, 4); *len = 4; } return 0;
}
REAL(int, bind, int fd, const struct sockaddr *a, socklen_t len) {
  if (!active()) return __real_bind(fd, a, len);
  Harness h; point("bind"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  int port = ntohs(((const sockaddr_in *)a)->sin_port);
  if (net_cfg.accept_fail == 999001) { probe("fault:bind-fail"); errno = EADDRINUSE; return -1; }
  for (Proc *p : all_procs()) if (p->alive() && p->cfg.ip == cur_proc()->cfg.ip)
    for (auto &kv : p->fds) if ((kv.second->kind == K_LISTEN || kv.second->bound) && kv.second->port == port && (kv.second->kind == K_LISTEN || !(o->reuse && kv.second->reuse))) { trace("bind port %d: in use", port); errno = EADDRINUSE; return -1; }
  if (!o->reuse) for (auto &c : g_conns) if (c->sport == port && c->proc[1] && c->proc[1]->cfg.ip == cur_proc()->cfg.ip) {
    // a connection on this local port that is alive, or was closed first by the server (TIME_WAIT, 60 s)
    bool both = c->closed[0] && c->closed[1];
    if (!both || (c->closed_at[1] <= c->closed_at[0] && now() < c->closed_at[0] + 60000000000ULL)) { trace("bind port %d: TIME_WAIT/established and no SO_REUSEADDR", port); errno = EADDRINUSE; return -1; }
  }
  o->bound = true; o->port = port; return 0;
}
REAL(int, listen, int fd, int bl) {
  if (!active()) return __real_listen(fd, bl);
  Harness h; point("listen"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (net_cfg.accept_fail == 999002) { probe("fault:listen-fail"); errno = EADDRINUSE; return -1; }
  for (Proc *p : all_procs()) if (p->alive() && p->cfg.ip == cur_proc()->cfg.ip) for (auto &kv : p->fds) if (kv.second != o && kv.second->kind == K_LISTEN && kv.second->port == o->port) { errno = EADDRINUSE; return -1; }
  o->kind = K_LISTEN; o->backlog_max = (bl < 0 ? 0 : bl) + 1; trace("listen on port %d", o->port); return 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *len) {
  Harness h; point("accept"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->kind != K_LISTEN) { errno = EINVAL; return -1; }
  for (;;) {
    if (net_cfg.accept_fail == 999003) { probe("fault:accept-fail-permanent"); errno = EMFILE; return -1; }
    if (net_cfg.accept_fail && net_cfg.accept_fail < 999000 && nfault("fault:accept-transient", net_cfg.accept_fail)) {
      static const int es[] = {EINTR, ECONNABORTED}; errno = es[choose(S_FAULT, 2)]; trace("accept -> errno %d", errno); return -1; }
    if (!o->backlog.empty()) break;
    if (!block_until("accept", [o] { return !o->backlog.empty() || o->closed; }, o->rcvtimeo ? now() + o->rcvtimeo : 0)) { errno = EAGAIN; return -1; }
    if (o->closed) { errno = EBADF; return -1; }
  }
  auto c = o->backlog.front(); o->backlog.pop_front();
  auto n = std::make_shared<OFD>(); n->kind = K_CONN; n->conn = c; n->side = 1; n->linger0 = o->linger0; n->rcvtimeo = o->rcvtimeo; n->sndtimeo = o->sndtimeo; c->user_timeout[1] = o->user_timeout; c->proc[1] = cur_proc(); c->established[1] = true;
  int nfd = install(cur_proc(), n);
  if (a && len && *len >= sizeof(sockaddr_in)) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(c->proc[0]->cfg.ip); memcpy(a, &s, sizeof s); *len = sizeof s; }
  trace("accept port %d -> fd%d conn %d", o->port, nfd, c->id); return nfd;
}
REAL(int, accept, int fd, struct sockaddr *a, socklen_t *len) { if (!active()) return __real_accept(fd, a, len); return do_accept(fd, a, len); }
REAL(int, accept4, int fd, struct sockaddr *a, socklen_t *len, int fl) { if (!active()) return __real_accept4(fd, a, len, fl); return do_accept(fd, a, len); }
REAL(int, connect, int fd, const struct sockaddr *a, socklen_t len) {
  if (!active()) return __real_connect(fd, a, len);
  Harness h; point("connect"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->kind == K_CONN) { errno = EISCONN; return -1; }
  const sockaddr_in *s = (const sockaddr_in *)a; int port = ntohs(s->sin_port); uint32_t ip = ntohl(s->sin_addr.s_addr);
  if ((ip >> 24) == 127) ip = cur_proc()->cfg.ip;
  if (net_cfg.connect_fail && nfault("fault:connect-fail", net_cfg.connect_fail)) {
    static const int es[] = {ECONNREFUSED, ETIMEDOUT, EINTR, ENETUNREACH, EADDRNOTAVAIL}; int e = es[choose(S_FAULT, 5)];
    if (e == ETIMEDOUT) sleep_ns(3000000000ULL);
    trace("connect -> errno %d (injected)", e); errno = e; return -1;
  }
  if (net_cfg.latency) sleep_ns(net_cfg.latency);
  auto l = find_listener(ip, port);
  if (!l) { probe("net:connect-refused"); errno = ECONNREFUSED; return -1; }
  if ((int)l->backlog.size() >= l->backlog_max) {
    probe("net:backlog-full");
    if (!block_until("connect(backlog full)", [l] { return l->closed || (int)l->backlog.size() < l->backlog_max; }, now() + 3000000000ULL)) { errno = ETIMEDOUT; return -1; }
    if (l->closed) { errno = ECONNREFUSED; return -1; }
  }
  auto c = std::make_shared<Conn>(); c->id = g_conns.size(); c->sport = port; c->proc[0] = cur_proc(); c->p[0].cap = c->p[1].cap = net_cfg.capacity; c->established[0] = true;
  c->proc[1] = l->owner;
  g_conns.push_back(c); l->backlog.push_back(c);
  o->kind = K_CONN; o->conn = c; o->side = 0; trace("connect port %d conn %d", port, c->id);
  if (net_cfg.latency) sleep_ns(net_cfg.latency);
  return 0;
}
REAL(int, shutdown, int fd, int how) {
  if (!is_sim_fd(fd)) return __real_shutdown(fd, how);
  Harness h; point("shutdown"); auto o = get(fd); if (!o || o->kind != K_CONN) { errno = ENOTCONN; return -1; }
  if (how == SHUT_WR || how == SHUT_RDWR) { o->shut_wr = true; net_fin(o->conn, o->side); }
  return 0;
}
REAL(int, getsockname, int fd, struct sockaddr *a, socklen_t *l) { if (!is_sim_fd(fd)) return __real_getsockname(fd, a, l); auto o = get(fd); if (!o) { errno = EBADF; return -1; } sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(o->port); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); return 0; }
REAL(int, getpeername, int fd, struct sockaddr *a, socklen_t *l) { if (!is_sim_fd(fd)) return __real_getpeername(fd, a, l); auto o = get(fd); if (!o || o->kind != K_CONN) { errno = ENOTCONN; return -1; } sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; memcpy(a, &s, std::min<size_t>(*l, sizeof s)); return 0; }
REAL(int, close, int fd) {
  if (!active()) return __real_close(fd);
  if (fd >= 0 && !is_sim_fd(fd)) {
    // real descriptors are never handed to the code under test
    Proc *p = cur_proc(); if (p->real_fds.count(fd)) { p->real_fds.erase(fd); return __real_close(fd); } if (cur()->harness_depth == 0) { p->bad_closes++; if (p->bad_close_note.empty()) p->bad_close_note = "close of descriptor " + std::to_string(fd) + " it never opened"; errno = EBADF; return -1; }
    return __real_close(fd);
  }
  if (fd < 0) { errno = EBADF; return -1; }
  Harness h; point("close"); int r = do_close(cur_proc(), fd, false); trace("close fd%d -> %d", fd, r); return r;
}
REAL(ssize_t, read, int fd, void *b, size_t n) {
  if (!is_sim_fd(fd)) { if (active() && fd < 0) { errno = EBADF; return -1; } return __real_read(fd, b, n); }
  Harness h; point("read"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  ssize_t r = ofd_read(o, (char *)b, n); int e = errno; trace("read fd%d want %zu -> %zd", fd, n, r); trace_hash(r); errno = e; return r;
}
REAL(ssize_t, write, int fd, const void *b, size_t n) {
  if (!is_sim_fd(fd)) return __real_write(fd, b, n);
  Harness h; point("write"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  ssize_t r = ofd_write(o, (const char *)b, n); int e = errno; trace("write fd%d want %zu -> %zd", fd, n, r); trace_hash(r); errno = e; return r;
}
REAL(ssize_t, recv, int fd, void *b, size_t n, int fl) {
  if (!is_sim_fd(fd)) return __real_recv(fd, b, n, fl);
  Harness h; size_t done = 0;
  do {
    point("recv"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
    ssize_t r = ofd_read(o, (char *)b + done, n - done, fl); int e = errno; trace("recv fd%d want %zu -> %zd", fd, n - done, r); trace_hash(r); errno = e;
    if (r <= 0) return done ? (ssize_t)done : r;
    done += r;
  } while ((fl & MSG_WAITALL) && done < n);
  return done;
}
REAL(ssize_t, send, int fd, const void *b, size_t n, int fl) {
  if (!is_sim_fd(fd)) return __real_send(fd, b, n, fl);
  Harness h; point("send"); auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  ssize_t r = ofd_write(o, (const char *)b, n, fl); int e = errno; trace("send fd%d want %zu -> %zd", fd, n, r); trace_hash(r); errno = e; return r;
}
REAL(ssize_t, recvfrom, int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (!is_sim_fd(fd)) return __real_recvfrom(fd, b, n, fl, a, l); return __wrap_recv(fd, b, n, fl); }
REAL(ssize_t, sendto, int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (!is_sim_fd(fd)) return __real_sendto(fd, b, n, fl, a, l); return __wrap_send(fd, b, n, fl); }
REAL(ssize_t, readv, int fd, const struct iovec *v, int n) {
  if (!is_sim_fd(fd)) return __real_readv(fd, v, n);
  ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = __wrap_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
REAL(ssize_t, writev, int fd, const struct iovec *v, int n) {
  if (!is_sim_fd(fd)) return __real_writev(fd, v, n);
  ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
REAL(ssize_t, sendmsg, int fd, const struct msghdr *m, int fl) {
  if (!is_sim_fd(fd)) return __real_sendmsg(fd, m, fl);
  ssize_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { ssize_t r = __wrap_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl); if (r < 0) return t ? t : r; t += r; if ((size_t)r < m->msg_iov[i].iov_len) break; } return t;
}
REAL(ssize_t, recvmsg, int fd, struct msghdr *m, int fl) {
  if (!is_sim_fd(fd)) return __real_recvmsg(fd, m, fl);
  ssize_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { ssize_t r = __wrap_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl); if (r < 0) return t ? t : r; t += r; if ((size_t)r < m->msg_iov[i].iov_len) break; } return t;
}
REAL(int, poll, struct pollfd *f, nfds_t n, int timeout) {
  if (!active()) return __real_poll(f, n, timeout);
  Harness h; point("poll");
  auto eval = [f, n]() -> int {
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++) {
      f[i].revents = 0; auto o = get(f[i].fd); if (f[i].fd < 0) continue; if (!o) { f[i].revents = POLLNVAL; cnt++; continue; }
      short r = 0;
      if (o->kind == K_CONN) { auto &c = *o->conn; Pipe &in = c.p[1 - o->side], &out = c.p[o->side];
        if (!in.rcv.empty() || in.fin_rcvd || c.reset[o->side]) r |= POLLIN; if (c.reset[o->side]) r |= POLLERR | POLLHUP | POLLOUT;
        if (out.rcv.size() + out.inflight < out.cap) r |= POLLOUT; }
      else if (o->kind == K_LISTEN) { if (!o->backlog.empty()) r |= POLLIN; } else r = POLLIN | POLLOUT;
      f[i].revents = r & (f[i].events | POLLERR | POLLHUP | POLLNVAL); if (f[i].revents) cnt++;
    }
    return cnt; };
  int c = eval(); if (c || timeout == 0) return c;
  Task *me = cur(); (void)me;
  // the predicate runs on behalf of another task: evaluate against this process
  Proc *p = cur_proc();
  block_until("poll", [f, n, p] {
    for (nfds_t i = 0; i < n; i++) { auto it = p->fds.find(f[i].fd); if (it == p->fds.end()) return true; auto o = it->second;
      if (o->kind == K_CONN) { auto &c = *o->conn; Pipe &in = c.p[1 - o->side], &out = c.p[o->side];
        if ((f[i].events & POLLIN) && (!in.rcv.empty() || in.fin_rcvd)) return true; if (c.reset[o->side]) return true;
        if ((f[i].events & POLLOUT) && out.rcv.size() + out.inflight < out.cap) return true; }
      else if (o->kind == K_LISTEN) { if (!o->backlog.empty()) return true; } else return true; }
    return false; }, timeout < 0 ? 0 : now() + (uint64_t)timeout * 1000000ULL);
  return eval();
}
REAL(int, select, int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (!active()) return __real_select(n, r, w, e, tv);
  std::vector<pollfd> v; for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (ev) v.push_back(pollfd{i, ev, 0}); }
  int t = tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1; __wrap_poll(v.data(), v.size(), t);
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int c = 0;
  for (auto &p : v) { if (r && (p.revents & (POLLIN | POLLHUP | POLLERR)) && (p.events & POLLIN)) { FD_SET(p.fd, r); c++; } if (w && (p.revents & (POLLOUT | POLLERR)) && (p.events & POLLOUT)) { FD_SET(p.fd, w); c++; } }
  return c;
}
extern "C" int __real_fcntl(int, int, ...);
static int do_fcntl(int fd, int cmd, long arg) {
  auto o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return (o->nonblock ? O_NONBLOCK : 0) | (o->rd && o->wr ? O_RDWR : o->wr ? O_WRONLY : o->kind == K_FILE ? O_RDONLY : O_RDWR);
  if (cmd == F_SETFL) { o->nonblock = arg & O_NONBLOCK; return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return install(cur_proc(), o, std::max<int>(FDBASE, arg));
  return 0;
}
extern "C" int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!is_sim_fd(fd)) return __real_fcntl(fd, cmd, a); return do_fcntl(fd, cmd, a); }
extern "C" int __real_fcntl64(int, int, ...);
extern "C" int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!is_sim_fd(fd)) return __real_fcntl64(fd, cmd, a); return do_fcntl(fd, cmd, a); }
extern "C" int __real_ioctl(int, unsigned long, ...);
extern "C" int __wrap_ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); void *a = va_arg(ap, void *); va_end(ap); if (!is_sim_fd(fd)) return __real_ioctl(fd, r, a); errno = ENOTTY; return -1; }
REAL(int, fstat, int fd, struct stat *st) {
  if (!is_sim_fd(fd)) return __real_fstat(fd, st);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; } memset(st, 0, sizeof *st);
  if (o->kind == K_FILE) { st->st_mode = S_IFREG | 0644; st->st_size = o->ino->data.size(); } else st->st_mode = S_IFSOCK; return 0;
}
REAL(int, fstat64, int fd, struct stat64 *st) {
  if (!is_sim_fd(fd)) return __real_fstat64(fd, st);
  auto o = get(fd); if (!o) { errno = EBADF; return -1; } memset(st, 0, sizeof *st);
  if (o->kind == K_FILE) { st->st_mode = S_IFREG | 0644; st->st_size = o->ino->data.size(); } else st->st_mode = S_IFSOCK; return 0;
}
REAL(int, stat, const char *path, struct stat *st) {
  if (!active() || !is_sim_path(path)) return __real_stat(path, st);
  auto it = disk.files.find(path); if (it == disk.files.end()) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = it->second->data.size(); return 0;
}
REAL(int, access, const char *path, int m) { if (!active() || !is_sim_path(path)) return __real_access(path, m); if (!disk.files.count(path)) { errno = ENOENT; return -1; } return 0; }
namespace sim { bool g_stream_failed = false; }
static bool stream_fault(const char *what, int err) { Proc *p = cur_proc(); if (p->cfg.stream_fail >= 0 && p->cfg.stream_fail-- == 0) { probe("fault:stream-setup-fails"); trace("%s fails", what); g_stream_failed = true; errno = err; return true; } return false; }
REAL(int, dup, int fd) { if (!is_sim_fd(fd)) { if (active()) { errno = EBADF; return -1; } return __real_dup(fd); } Harness h; point("dup"); auto o = get(fd); if (!o) { errno = EBADF; return -1; } if (stream_fault("dup", EMFILE)) return -1; int n = install(cur_proc(), o); trace("dup fd%d -> fd%d", fd, n); return n; }
REAL(int, dup2, int fd, int to) { if (!is_sim_fd(fd)) return __real_dup2(fd, to); Harness h; auto o = get(fd); if (!o || to < FDBASE) { errno = EBADF; return -1; } if (to == fd) return to; if (get(to)) do_close(cur_proc(), to, false); cur_proc()->fds[to] = o; o->fd_refs++; return to; }
REAL(off_t, lseek, int fd, off_t off, int wh) {
  if (!is_sim_fd(fd)) return __real_lseek(fd, off, wh);
  Harness h; point("lseek"); auto o = get(fd); if (!o) { errno = EBADF; return -1; } if (o->kind != K_FILE) { errno = ESPIPE; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->off : (int64_t)o->ino->data.size(); if (base + off < 0) { errno = EINVAL; return -1; } o->off = base + off; return o->off;
}
REAL(off64_t, lseek64, int fd, off64_t off, int wh) { if (!is_sim_fd(fd)) return __real_lseek64(fd, off, wh); return __wrap_lseek(fd, off, wh); }
REAL(ssize_t, pread, int fd, void *b, size_t n, off_t at) { if (!is_sim_fd(fd)) return __real_pread(fd, b, n, at); auto o = get(fd); if (!o || o->kind != K_FILE) { errno = o ? ESPIPE : EBADF; return -1; } auto keep = o->off; o->off = at; ssize_t r = __wrap_read(fd, b, n); o->off = keep; return r; }
REAL(ssize_t, pwrite, int fd, const void *b, size_t n, off_t at) { if (!is_sim_fd(fd)) return __real_pwrite(fd, b, n, at); auto o = get(fd); if (!o || o->kind != K_FILE) { errno = o ? ESPIPE : EBADF; return -1; } auto keep = o->off; o->off = at; ssize_t r = __wrap_write(fd, b, n); o->off = keep; return r; }
REAL(ssize_t, pread64, int fd, void *b, size_t n, off64_t at) { if (!is_sim_fd(fd)) return __real_pread64(fd, b, n, at); return __wrap_pread(fd, b, n, at); }
REAL(ssize_t, pwrite64, int fd, const void *b, size_t n, off64_t at) { if (!is_sim_fd(fd)) return __real_pwrite64(fd, b, n, at); return __wrap_pwrite(fd, b, n, at); }
REAL(int, dup3, int fd, int to, int fl) { if (!is_sim_fd(fd)) return __real_dup3(fd, to, fl); return __wrap_dup2(fd, to); }
REAL(int, fsync, int fd) { if (!is_sim_fd(fd)) return __real_fsync(fd); Harness h; point("fsync"); if (disk_fault(2, "fsync-error")) return -1; return 0; }
REAL(int, fdatasync, int fd) { if (!is_sim_fd(fd)) return __real_fdatasync(fd); return __wrap_fsync(fd); }
REAL(int, ftruncate, int fd, off_t n) { if (!is_sim_fd(fd)) return __real_ftruncate(fd, n); Harness h; point("ftruncate"); auto o = get(fd); if (!o || o->kind != K_FILE) { errno = EINVAL; return -1; } o->ino->data.resize(n, '\0'); return 0; }
REAL(int, unlink, const char *p) { if (!active()) return __real_unlink(p); if (!is_sim_path(p)) { errno = EACCES; return -1; } Harness h; point("unlink"); auto it = disk.files.find(p); if (it == disk.files.end()) { errno = ENOENT; return -1; } disk.used -= std::min<uint64_t>(disk.used, it->second->data.size()); disk.files.erase(it); return 0; }
REAL(int, remove, const char *p) { if (!active()) return __real_remove(p); return __wrap_unlink(p); }
REAL(int, rename, const char *a, const char *b) { if (!active()) return __real_rename(a, b); if (!is_sim_path(a) || !is_sim_path(b)) { errno = EACCES; return -1; } Harness h; point("rename"); auto it = disk.files.find(a); if (it == disk.files.end()) { errno = ENOENT; return -1; } disk.files[b] = it->second; disk.files.erase(a); return 0; }
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!active()) return __real_open(p, fl, m); if (!(is_sim_path(p) || is_urandom(p))) { int r = __real_open(p, fl, m); if (r >= 0) cur_proc()->real_fds.insert(r); return r; } Harness h; return do_open(p, fl); }
extern "C" int __real_open64(const char *, int, ...);
extern "C" int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (!active()) return __real_open64(p, fl, m); if (!(is_sim_path(p) || is_urandom(p))) { int r = __real_open64(p, fl, m); if (r >= 0) cur_proc()->real_fds.insert(r); return r; } Harness h; return do_open(p, fl); }
static FILE *do_fopen(const char *p, const char *m) { Harness h; int fd = do_open(p, mode_flags(m)); if (fd < 0) return nullptr; return wrap_stream(fd, m); }
REAL(FILE *, fopen, const char *p, const char *m) { if (!active() || !(is_sim_path(p) || is_urandom(p))) return __real_fopen(p, m); return do_fopen(p, m); }
REAL(FILE *, fopen64, const char *p, const char *m) { if (!active() || !(is_sim_path(p) || is_urandom(p))) return __real_fopen64(p, m); return do_fopen(p, m); }
REAL(FILE *, fdopen, int fd, const char *m) {
  if (!active()) return __real_fdopen(fd, m);
  if (!is_sim_fd(fd)) { errno = EBADF; return nullptr; }
  Harness h; if (!get(fd)) { errno = EBADF; return nullptr; } if (stream_fault("fdopen", ENOMEM)) return nullptr; return wrap_stream(fd, m);
}
extern "C" void simtsan_fclose(FILE *, void *);
REAL(int, fclose, FILE *f) {
  if (!active() || !f) return __real_fclose(f);
  simtsan_fclose(f, __builtin_return_address(0));
  Proc *p = cur_proc(); bool known = p->files.count(f);
  int r = __real_fclose(f);
  int e = errno; if (known) { Harness h; p->files.erase(f); p->file_fd.erase(f); } errno = e; return r;
}
REAL(int, fileno, FILE *f) { if (!active()) return __real_fileno(f); Proc *p = cur_proc(); if (p->files.count(f)) return fd_of(f); return __real_fileno(f); }
REAL(ssize_t, getrandom, void *b, size_t n, unsigned fl) { if (!active()) return __real_getrandom(b, n, fl); Harness h; point("getrandom"); if (entropy.fail_mode == 1) { errno = ENOSYS; return -1; } ssize_t r = entropy_read((char *)b, n); if (r == 0 && n) { errno = EIO; return -1; } return r; }
REAL(int, getentropy, void *b, size_t n) { if (!active()) return __real_getentropy(b, n); Harness h; size_t d = 0; while (d < n) { if (entropy.fail_mode == 1) { errno = ENOSYS; return -1; } ssize_t r = entropy_read((char *)b + d, n - d); if (r < 0 && errno == EINTR) continue; if (r <= 0) { errno = EIO; return -1; } d += r; } return 0; }
extern "C" int sim_rdseed_step(void *out, unsigned w) {
  Harness h; point("rdseed"); g_rdseed_calls++;
  if (entropy.fail_mode && entropy.pos >= entropy.fail_at) {
    probe("fault:rdseed-fail");
    if (entropy.fail_mode == 1) { memset(out, 0, w); return 0; }
    memset(out, entropy.fail_mode == 2 ? 0xff : 0, w); return 1;   // stuck, reports success
  }
  if (entropy.eintr && nfault("fault:rdseed-transient", entropy.eintr)) { uint32_t k = choose(S_FAULT, 3); memset(out, k == 1 ? 0xff : 0, w); return k != 0; }
  char *b = (char *)out; for (unsigned i = 0; i < w; i++) { uint8_t x = entropy_byte(entropy.pos++); b[i] = x; entropy.log.push_back(x); entropy.owner.push_back(cur()->id); } entropy.used = true; return 1;
}
// ------------------------------------------------------------------- process
extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int c) { if (!active()) __real_exit(c); Harness h; exit_self(c, 0, "exit()"); }
extern "C" [[noreturn]] void __real__exit(int);
extern "C" [[noreturn]] void __wrap__exit(int c) { if (!active()) __real__exit(c); Harness h; cur_proc()->files.clear(); exit_self(c, 0, "_exit()"); }
extern "C" [[noreturn]] void __real_abort();
extern "C" [[noreturn]] void __wrap_abort() { if (!active()) __real_abort(); Harness h; exit_self(0, SIGABRT, "abort()"); }
extern "C" [[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) { if (!active()) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); syscall_exit(3); } Harness h; trace("assertion failed: %s", e); probe("assert-failed"); exit_self(0, SIGABRT, "assertion failed"); }
REAL(int, usleep, useconds_t u) { if (!active()) return __real_usleep(u); Harness h; sleep_ns((uint64_t)u * 1000); return 0; }
REAL(unsigned, sleep, unsigned s) { if (!active()) return __real_sleep(s); Harness h; sleep_ns((uint64_t)s * 1000000000ULL); return 0; }
REAL(int, nanosleep, const struct timespec *t, struct timespec *r) { if (!active()) return __real_nanosleep(t, r); Harness h; sleep_ns((uint64_t)t->tv_sec * 1000000000ULL + t->tv_nsec); return 0; }
REAL(int, clock_nanosleep, clockid_t c, int fl, const struct timespec *t, struct timespec *r) { if (!active()) return __real_clock_nanosleep(c, fl, t, r); Harness h; uint64_t v = (uint64_t)t->tv_sec * 1000000000ULL + t->tv_nsec; if (fl & TIMER_ABSTIME) { uint64_t n = now() + 1600000000000000000ULL; v = v > n ? v - n : 1; } sleep_ns(v); return 0; }
REAL(int, clock_gettime, clockid_t c, struct timespec *t) { if (!active()) return __real_clock_gettime(c, t); uint64_t v = now() + 1600000000000000000ULL; t->tv_sec = v / 1000000000ULL; t->tv_nsec = v % 1000000000ULL; return 0; }
REAL(int, gettimeofday, struct timeval *t, void *z) { if (!active()) return __real_gettimeofday(t, z); uint64_t v = now() + 1600000000000000000ULL; t->tv_sec = v / 1000000000ULL; t->tv_usec = v % 1000000000ULL / 1000; return 0; }
REAL(time_t, time, time_t *o) { if (!active()) return __real_time(o); time_t v = (now() + 1600000000000000000ULL) / 1000000000ULL; if (o) *o = v; return v; }
typedef void (*sighandler)(int);
extern "C" sighandler __real_signal(int, sighandler);
extern "C" sighandler __wrap_signal(int s, sighandler h) { if (!active()) return __real_signal(s, h); if (s == SIGPIPE) cur_proc()->cfg.sigpipe_ignored = (h != SIG_DFL); return SIG_DFL; }

// fortified entry points (the static libstdc++ is built with them)
extern "C" ssize_t __wrap_read(int, void *, size_t);
extern "C" ssize_t __wrap_recv(int, void *, size_t, int);
extern "C" int __wrap_open64(const char *, int, ...);
extern "C" ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t m) { if (n > m) __builtin_trap(); return __wrap_read(fd, b, n); }
extern "C" ssize_t __wrap___recv_chk(int fd, void *b, size_t n, size_t m, int fl) { if (n > m) __builtin_trap(); return __wrap_recv(fd, b, n, fl); }
extern "C" int __wrap___open_2(const char *p, int fl) { return __wrap_open64(p, fl); }
extern "C" int __wrap___open64_2(const char *p, int fl) { return __wrap_open64(p, fl); }
extern "C" int __wrap_getentropy(void *, size_t);
extern "C" uint32_t __real_arc4random(); extern "C" void __real_arc4random_buf(void *, size_t);
extern "C" void __wrap_arc4random_buf(void *b, size_t n) { if (!active()) return __real_arc4random_buf(b, n); Harness h; size_t d = 0; while (d < n) { size_t k = n - d < 200 ? n - d : 200; if (__wrap_getentropy((char *)b + d, k)) exit_self(0, SIGABRT, "arc4random without entropy"); d += k; } }
extern "C" uint32_t __wrap_arc4random() { if (!active()) return __real_arc4random(); uint32_t v; __wrap_arc4random_buf(&v, 4); return v; }
