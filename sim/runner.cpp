// Seeded search, replay, minimisation.  One forked child per simulated run.
#include "sim.h"
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <algorithm>

using namespace sim;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __real_close(int);
extern "C" int __real_open(const char *, int, ...);
extern "C" int __real_usleep(unsigned);
static double wall() { timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// OpenSSL randomness (random scalars) comes from the simulator as well
static Rng ossl_rng(99);
static int r_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char)(ossl_rng.next() >> 17); return 1; }
static int r_status() { return 1; }
static RAND_METHOD rmeth = {nullptr, r_bytes, nullptr, nullptr, r_bytes, r_status};
namespace sim { void seed_openssl(uint64_t s) { ossl_rng.reseed(s); } }

static void on_sig(int s, siginfo_t *, void *) {
  const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGFPE ? "SIGFPE" : "SIGABRT";
  if (sh->outcome == O_NONE) {
    sh->outcome = O_FAIL; snprintf(sh->cls, sizeof sh->cls, "crash:%s", n);
    snprintf(sh->msg, sizeof sh->msg, "process %s crashes with %s (last call: %s)", cur() && cur()->proc ? cur()->proc->cfg.name.c_str() : "?", n, cur() ? cur()->what : "?");
    sh->steps += steps();
  }
  syscall_exit(0);
}
namespace sim {
void sig_install_thread() {}
}
extern "C" const char *__attribute__((weak)) __asan_get_report_description();
extern "C" void __attribute__((weak)) __asan_set_error_report_callback(void (*)(const char *));
extern "C" void __asan_on_error() {
  const char *d = __asan_get_report_description ? __asan_get_report_description() : "?";
  if (sh && sh->outcome == O_NONE) {
    sh->outcome = O_FAIL; snprintf(sh->cls, sizeof sh->cls, "memory:%s", d);
    snprintf(sh->msg, sizeof sh->msg, "address sanitizer: %s in process %s (last call: %s)", d, cur() && cur()->proc ? cur()->proc->cfg.name.c_str() : "?", cur() ? cur()->what : "?");
    sh->steps += steps();
  }
  if (getenv("SIM_ASAN_REPORT")) return;
  if (sh) syscall_exit(0);
}
static int quiet_fd = -1;
static bool show_out = false;
struct Case { uint64_t seed = 0, poison = 1; bool replay = false; std::vector<uint32_t> log[S_N]; };
struct Res { uint32_t outcome; std::string cls, msg; uint64_t thash; };
static std::string dummy;

namespace sim { double cpu_limit = 30; extern uint8_t *g_cov; extern size_t g_cov_len; }
static Res exec_case(const Case &c, bool tr, bool again = false) {
  double limit = cpu_limit;
  if (c.replay) for (int i = 0; i < S_N; i++) { sh->nlog[i] = c.log[i].size(); if (!c.log[i].empty()) memcpy(sh->log[i], c.log[i].data(), c.log[i].size() * 4); }
  begin_run(c.seed, c.poison, c.replay, tr);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    if (!show_out) { dup2(quiet_fd, 1); dup2(quiet_fd, 2); }
    if (!&__asan_get_report_description || !__asan_get_report_description) {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO;
      for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = (rlim_t)(limit < 1 ? 1 : limit); rl.rlim_max = rl.rlim_cur + 10; setrlimit(RLIMIT_CPU, &rl);
    ::alarm((unsigned)(limit * 3 < 120 ? 120 : limit * 3));   // far above the CPU limit: an endless loop ends with SIGXCPU first
    ossl_rng.reseed(hash64(c.seed, 0x0551));
    make_root();
    net_cfg = NetCfg(); entropy = EntropyCfg(); entropy.seed = hash64(c.seed, 0xE17);
    scenario_main();
    finish_ok();
  }
  int st = 0; struct rusage ru; memset(&ru, 0, sizeof ru);
  while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
  if (sh->outcome == O_NONE && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    double used = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) * 1e-6; Res r; r.thash = sh->thash;
    if (used > 5) { r.outcome = O_SKIP; r.msg = "the run was not finished in time (loaded machine)"; return r; }
    if (!again) return exec_case(c, tr, true);     // blocked for a minute without using the CPU: believed only if it happens twice
    r.outcome = O_FAIL; r.cls = "blocked"; r.msg = "the run blocks for ever outside simulated calls"; return r;
  }
  bool sane = sh->outcome <= O_SKIP && sh->nprobe <= MAXPROBE && sh->tlen <= TRACECAP && memchr(sh->cls, 0, sizeof sh->cls) && memchr(sh->msg, 0, sizeof sh->msg) && memchr(sh->sample, 0, sizeof sh->sample);
  for (int i = 0; i < S_N; i++) sane = sane && sh->used[i] <= LOGCAP && sh->nlog[i] <= LOGCAP;
  if (!sane) { begin_run(c.seed, c.poison, false, false); sh->outcome = O_FAIL; snprintf(sh->cls, sizeof sh->cls, "crash:corruption"); snprintf(sh->msg, sizeof sh->msg, "the run overwrote memory of the simulator"); }
  Res r; r.outcome = sh->outcome; r.cls = sh->cls; r.msg = sh->msg; r.thash = sh->thash;
  if (r.outcome == O_NONE) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.outcome = O_SKIP; r.msg = "the run was killed from outside (out of memory)"; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { r.outcome = O_FAIL; r.cls = "no-termination"; r.msg = "the run used more CPU time than any healthy run: code under test loops outside instrumented code"; }
    else if (WIFSIGNALED(st)) { r.outcome = O_FAIL; r.cls = "crash:signal"; r.msg = "run ended by signal " + std::to_string(WTERMSIG(st)); }
    else { r.outcome = O_FAIL; r.cls = "crash:exit"; r.msg = "run ended without verdict, exit status " + std::to_string(WEXITSTATUS(st)); }
  }
  return r;
}
static Case snapshot(const Case &c) {
  Case o; o.seed = c.seed; o.poison = c.poison; o.replay = true;
  for (int i = 0; i < S_N; i++) o.log[i].assign(sh->log[i], sh->log[i] + sh->used[i]);
  return o;
}
// Kernels free the stacks of finished threads lazily; runs with many threads can outpace that.
static void memory_brake() {
  for (int k = 0; k < 100; k++) {
    FILE *f = fopen("/proc/meminfo", "r"); if (!f) return; char l[128]; unsigned long long tot = 0, av = 0;
    while (fgets(l, sizeof l, f)) { sscanf(l, "MemTotal: %llu", &tot); if (sscanf(l, "MemAvailable: %llu", &av) == 1) break; }
    fclose(f); if (!tot || av * 2 > tot || av > (12ull << 20)) return;
    __real_usleep(30000);
  }
}
static const char *SN[] = {"PLAN", "SCHED", "FAULT", "NET"};
static void jstr(FILE *f, const char *s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
static void jstr(FILE *f, const std::string &s) { jstr(f, s.data(), s.size()); }
static bool save_case(const char *path, const Case &c, const Res &r) {
  FILE *f = fopen(path, "w"); if (!f) return false;
  fprintf(f, "simreplay 1\nproperty %s\nseed %llu\npoison %llu\nclass %s\nhash %016llx\nmessage %s\n", scenario_property, (unsigned long long)c.seed, (unsigned long long)c.poison, r.cls.c_str(), (unsigned long long)r.thash, r.msg.c_str());
  for (int i = 0; i < S_N; i++) { fprintf(f, "stream %s %zu", SN[i], c.log[i].size()); for (uint32_t v : c.log[i]) fprintf(f, " %u", v); fprintf(f, "\n"); }
  fprintf(f, "trace\n"); fwrite(sh->trace, 1, sh->tlen, f); fclose(f); return true;
}
static bool load_case(const char *path, Case &c, std::string &cls, uint64_t &h) {
  FILE *f = fopen(path, "r"); if (!f) return false; char key[64]; c.replay = true;
  while (fscanf(f, "%63s", key) == 1) {
    if (!strcmp(key, "seed")) { unsigned long long v; if (fscanf(f, "%llu", &v) == 1) c.seed = v; }
    else if (!strcmp(key, "poison")) { unsigned long long v; if (fscanf(f, "%llu", &v) == 1) c.poison = v; }
    else if (!strcmp(key, "class")) { char b[512]; if (fscanf(f, " %511[^\n]", b) == 1) cls = b; }
    else if (!strcmp(key, "hash")) { unsigned long long v; if (fscanf(f, "%llx", &v) == 1) h = v; }
    else if (!strcmp(key, "stream")) { char nm[32]; size_t n; if (fscanf(f, "%31s %zu", nm, &n) != 2) return false; for (int i = 0; i < S_N; i++) if (!strcmp(nm, SN[i])) { c.log[i].resize(n); for (auto &v : c.log[i]) if (fscanf(f, "%u", &v) != 1) return false; } }
    else if (!strcmp(key, "trace")) break;
    else { int ch; while ((ch = fgetc(f)) != EOF && ch != '\n') {} }
  }
  fclose(f); return true;
}
// ------------------------------------------------------------- minimisation
static Case shrink(Case best, const std::string &cls, double budget, int &tries) {
  double t0 = wall(); tries = 0;
  auto attempt = [&](const Case &c) -> bool {
    if (wall() - t0 > budget) return false;
    tries++;
    Res r = exec_case(c, false);
    if (r.outcome == O_FAIL && r.cls == cls) { Case s = snapshot(c); // keep only what was consumed
      for (int i = 0; i < S_N; i++) { while (!s.log[i].empty() && s.log[i].back() == 0) s.log[i].pop_back(); }
      best = s; return true; }
    return false;
  };
  auto size = [](const Case &c) { size_t n = 0; for (int i = 0; i < S_N; i++) for (auto v : c.log[i]) n += 1 + (v != 0) + (v > 1); return n; };
  bool progress = true;
  while (progress && wall() - t0 < budget) {
    progress = false; size_t before = size(best);
    // whole streams to zero
    for (int s : {S_FAULT, S_NET, S_SCHED}) { Case c = best; if (c.log[s].empty()) continue; c.log[s].clear(); attempt(c); }
    for (int s : {S_PLAN, S_FAULT, S_NET, S_SCHED}) {
      for (size_t blk = std::max<size_t>(1, best.log[s].size() / 2); ; blk /= 2) {
        for (size_t i = 0; i < best.log[s].size() && wall() - t0 < budget;) {
          size_t n = std::min(blk, best.log[s].size() - i);
          Case c = best; c.log[s].erase(c.log[s].begin() + i, c.log[s].begin() + i + n);
          size_t old = size(best);
          if (attempt(c) && size(best) < old) continue;
          bool nz = false; for (size_t k = i; k < i + n; k++) if (best.log[s][k]) nz = true;
          if (nz) { c = best; for (size_t k = i; k < i + n && k < c.log[s].size(); k++) c.log[s][k] = 0; attempt(c); }
          i += n;
        }
        if (blk <= 1) break;
      }
      // lower single values
      for (size_t i = 0; i < best.log[s].size() && i < 400 && wall() - t0 < budget; i++) {
        uint32_t lo = 0; while (i < best.log[s].size() && best.log[s][i] > lo + 1 && wall() - t0 < budget) {
          Case c = best; uint32_t mid = lo + (best.log[s][i] - lo) / 2; if (mid == best.log[s][i]) break; c.log[s][i] = mid; uint32_t old = best.log[s][i]; if (!attempt(c)) lo = mid; else if (i >= best.log[s].size() || best.log[s][i] >= old) break; }
      }
    }
    if (size(best) < before) progress = true;
  }
  return best;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 64 << 20); mallopt(M_TRIM_THRESHOLD, 512 << 20);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
  auto num = [&](const char *k, double d) { return o.count(k) ? strtod(o[k].c_str(), nullptr) : d; };
  auto u64 = [&](const char *k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 0) : d; };
  // results are shared with the runs; inaccessible memory around them stops stray writes of the code under test
  char *area = (char *)mmap(nullptr, sizeof(Shared) + (16ull << 30), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Shared *)mmap(area == (char *)MAP_FAILED ? nullptr : area + (8ull << 30), sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | (area == (char *)MAP_FAILED ? 0 : MAP_FIXED), -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  if (const char *cf = getenv("SIM_COV")) {   // a file with one byte per address of the text, shared by all runs
    int fd = __real_open(cf, O_RDWR | O_CREAT, 0644); g_cov_len = 64 << 20; if (fd >= 0 && ftruncate(fd, g_cov_len) == 0) { void *m = mmap(nullptr, g_cov_len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) g_cov = (uint8_t *)m; }
    if (fd >= 0) __real_close(fd);
  }
  quiet_fd = __real_open("/dev/null", O_WRONLY);
  show_out = getenv("SIM_SHOW") != nullptr;
  OPENSSL_init_crypto(OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS | OPENSSL_INIT_LOAD_CONFIG, nullptr);
  RAND_set_rand_method(&rmeth);
  if (o.count("pin")) { cpu_set_t cs; CPU_ZERO(&cs); int n = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(u64("pin", 0) % (n > 0 ? n : 1), &cs); sched_setaffinity(0, sizeof cs, &cs); }

  if (o.count("replay")) {
    Case c; std::string cls; uint64_t h = 0; if (!load_case(o["replay"].c_str(), c, cls, h)) { fprintf(stderr, "cannot load %s\n", o["replay"].c_str()); return 2; }
    Res r = exec_case(c, true);
    printf("replay: outcome=%u class=%s hash=%016llx (recorded class=%s hash=%016llx)\n%s\n", r.outcome, r.cls.c_str(), (unsigned long long)r.thash, cls.c_str(), (unsigned long long)h, r.msg.c_str());
    if (o.count("verbose")) fwrite(sh->trace, 1, sh->tlen, stdout);
    if (r.outcome == O_FAIL && r.cls == cls && r.thash == h) return 1;
    return r.outcome == O_FAIL ? 3 : 0;
  }
  if (o.count("shrink")) {
    Case c; std::string cls; uint64_t h = 0; if (!load_case(o["shrink"].c_str(), c, cls, h)) return 2;
    int tries = 0; Res r0 = exec_case(c, false); if (r0.outcome != O_FAIL || r0.cls != cls) { fprintf(stderr, "shrink: original does not reproduce\n"); return 3; }
    Case b = shrink(snapshot(c), cls, num("budget", 20), tries);
    Res r1 = exec_case(b, true); uint64_t h1 = r1.thash; Res r2 = exec_case(b, true);
    if (r1.outcome != O_FAIL || r2.outcome != O_FAIL || r1.cls != cls || r2.cls != cls || h1 != r2.thash) { fprintf(stderr, "shrink: minimised case not deterministic (%s/%s %016llx %016llx)\n", r1.cls.c_str(), r2.cls.c_str(), (unsigned long long)h1, (unsigned long long)r2.thash); return 3; }
    if (!save_case(o["out"].c_str(), b, r2)) return 2;
    size_t n0 = 0, n1 = 0; for (int i = 0; i < S_N; i++) { n0 += c.log[i].size(); n1 += b.log[i].size(); }
    printf("shrunk %zu -> %zu choices in %d tries\n", n0, n1, tries);
    return 0;
  }
  if (o.count("one")) {  // one seed, verbose
    Case c; c.seed = u64("one", 1); c.poison = hash64(c.seed, 7); Res r = exec_case(c, true);
    printf("outcome=%u class=%s hash=%016llx steps=%llu vtime=%.3fs\n%s\nsample: %s\n", r.outcome, r.cls.c_str(), (unsigned long long)r.thash, (unsigned long long)sh->steps, sh->vtime / 1e9, r.msg.c_str(), sh->sample);
    for (uint32_t i = 0; i < sh->nprobe; i++) printf("  %s=%llu\n", sh->probes[i].name, (unsigned long long)sh->probes[i].n);
    fwrite(sh->trace, 1, sh->tlen, stdout);
    return r.outcome == O_FAIL;
  }
  // ---- search: seeds start, start+stride, ...
  uint64_t base = u64("base", 1), start = u64("start", 0), stride = u64("stride", 1), count = u64("count", 100);
  double tlimit = num("time", 30); uint64_t dup = u64("dup", 40);
  std::string out = o["out"];
  double t0 = wall(); uint64_t runs = 0, ok = 0, skips = 0, dups = 0, dupbad = 0, steps_t = 0, nontriv = 0; double vt = 0; uint64_t sw = 0;
  std::map<std::string, uint64_t> probes, skipwhy; std::vector<std::string> samples; int nviol = 0; std::vector<std::pair<uint64_t, uint64_t>> hashes; std::map<std::string, int> seen_cls;
  FILE *hf = fopen((out + ".hashes").c_str(), "wb");
  FILE *vf = fopen((out + ".viol").c_str(), "w");
  FILE *df = o.count("dumphash") ? fopen(o["dumphash"].c_str(), "w") : nullptr;
  int maxviol = (int)u64("maxviol", 4);
  for (uint64_t i = start; i < count && wall() - t0 < tlimit; i += stride) {
    Case c; c.seed = hash64(base, i); c.poison = hash64(c.seed, 7);
    if (runs % 32 == 0) memory_brake();
    Res r = exec_case(c, false); runs++;
    if (df) fprintf(df, "%llu %u %s %016llx %016llx\n", (unsigned long long)i, r.outcome, r.cls.c_str(), (unsigned long long)r.thash, (unsigned long long)sh->shash);
    if (r.outcome == O_OK) ok++; else if (r.outcome == O_SKIP) { skips++; skipwhy[r.msg]++; }
    steps_t += sh->steps; vt += sh->vtime / 1e9; sw += sh->switches; if (sh->nontrivial && r.outcome != O_SKIP) { nontriv++; uint64_t h[2] = {sh->thash, sh->shash}; if (hf) fwrite(h, 8, 2, hf); }
    for (uint32_t k = 0; k < sh->nprobe; k++) probes[sh->probes[k].name] += sh->probes[k].n;
    if (samples.size() < 3 && sh->sample[0] && (runs % 37) == 1) samples.push_back(sh->sample);
    if (r.outcome == O_FAIL) {
      Case s = snapshot(c);
      if (seen_cls[r.cls]++ < 1) {
        std::string path = out + "." + std::to_string(nviol) + ".replay"; sh->tlen = 0; save_case(path.c_str(), s, r);
        fprintf(vf, "%s\t%llu\t%s\t%s\n", path.c_str(), (unsigned long long)c.seed, r.cls.c_str(), r.msg.c_str()); fflush(vf);
      }
      nviol++; if (nviol >= maxviol) break;
    } else if (dup && runs % dup == 0) {
      Res r2 = exec_case(c, false); dups++; if (r2.outcome != r.outcome || r2.thash != r.thash) { dupbad++; fprintf(stderr, "nondeterminism: seed index %llu\n", (unsigned long long)i); }
      Case s = snapshot(c); Res r3 = exec_case(s, false); if (r3.outcome != r.outcome || r3.thash != r.thash) { dupbad++; fprintf(stderr, "replay mismatch: seed index %llu\n", (unsigned long long)i); }
    }
  }
  if (hf) fclose(hf);
  if (df) fclose(df);
  fclose(vf);
  FILE *f = fopen(out.c_str(), "w"); if (!f) return 2;
  fprintf(f, "{\"runs\":%llu,\"ok\":%llu,\"skips\":%llu,\"nontrivial\":%llu,\"dups\":%llu,\"dupbad\":%llu,\"steps\":%llu,\"vtime\":%.3f,\"switches\":%llu,\"wall\":%.3f,\"violations\":%d,\"probes\":{",
    (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)skips, (unsigned long long)nontriv, (unsigned long long)dups, (unsigned long long)dupbad, (unsigned long long)steps_t, vt, (unsigned long long)sw, wall() - t0, nviol);
  bool first = true; for (auto &kv : probes) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long)kv.second); }
  fprintf(f, "},\"skipwhy\":{"); first = true; for (auto &kv : skipwhy) { if (!first) fputc(',', f); first = false; jstr(f, kv.first); fprintf(f, ":%llu", (unsigned long long)kv.second); }
  fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', f); jstr(f, samples[i]); } fprintf(f, "]}\n"); fclose(f);
  return 0;
}
