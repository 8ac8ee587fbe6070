#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>

namespace sim {

// ------------------------------------------------------------------ shared run state
constexpr uint32_t kMaxChoices = 1u << 18;
constexpr int kMaxNames = 96;
constexpr int kMaxFeat = 1 << 15;

enum Verdict : int { kOk = 0, kViolation = 1, kDiscard = 2, kCrashed = 3 };

struct Names {
  int n;
  char name[kMaxNames][48];
};

struct RunState {
  uint64_t run_seed;
  int verdict;
  int finished;
  int abort_ok;
  char abort_why[64];
  char cls[64];
  char msg[4096];
  uint64_t hash;
  uint64_t nevents;
  double sim_time;
  Names fnames;
  uint32_t fcount[kMaxNames];
  Names pnames;
  uint32_t pcount[kMaxNames];
  uint32_t nfeat;
  uint64_t feat[kMaxFeat];
  uint32_t nch[kNumStreams];
  uint32_t ch[kNumStreams][kMaxChoices];
};

static RunState* g_rs = nullptr;
static bool g_replay = false;
static const uint32_t* g_rep[kNumStreams];
static uint32_t g_repn[kNumStreams];
static uint64_t g_prng[kNumStreams];
static int g_trace_fd = -1;
static int g_cap_fd = -1;
static bool g_is_copy = false;
static RunState* g_shared_rs = nullptr;

static uint64_t splitmix(uint64_t& s) { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }

uint32_t choose(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  RunState* r = g_rs;
  if (!r) return 0;
  uint32_t i = r->nch[s];
  uint32_t v;
  if (g_replay) {
    v = i < g_repn[s] ? g_rep[s][i] : 0;
    if (v >= n) v = n - 1;
  } else {
    v = static_cast<uint32_t>((static_cast<unsigned __int128>(splitmix(g_prng[s])) * n) >> 64);
  }
  if (i < kMaxChoices) {
    r->ch[s][i] = v;
    r->nch[s] = i + 1;
  } else {
    v = 0;  // choice budget exhausted: simplest alternative from here on
  }
  return v;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    uint64_t w;
    __builtin_memcpy(&w, b, 8);
    h = mix64(h ^ w) + 0x9e3779b97f4a7c15ULL;
    b += 8; n -= 8;
  }
  uint64_t w = n;
  for (size_t i = 0; i < n; ++i) w = (w << 8) | b[i];
  return mix64(h ^ w) + 0x632be59bd9b4e019ULL;
}

void mix(uint64_t v) { if (g_rs) g_rs->hash = mix64(g_rs->hash ^ v) + 0x9e3779b97f4a7c15ULL; }

bool tracing() { return g_trace_fd >= 0 && !g_is_copy; }

void event(std::string_view t) {
  if (!g_rs) return;
  g_rs->hash = hash_bytes(t.data(), t.size(), g_rs->hash);
  g_rs->nevents++;
  if (tracing()) {
    char head[32];
    int k = snprintf(head, sizeof head, "%6llu ", static_cast<unsigned long long>(g_rs->nevents));
    (void)!write(g_trace_fd, head, k);
    (void)!write(g_trace_fd, t.data(), t.size());
    (void)!write(g_trace_fd, "\n", 1);
  }
}

void eventf(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (k < 0) k = 0;
  if (k > static_cast<int>(sizeof buf) - 1) k = sizeof buf - 1;
  event(std::string_view(buf, k));
}

uint64_t event_hash() { return g_rs ? g_rs->hash : 0; }
uint64_t seed() { return g_rs ? g_rs->run_seed : 0; }

[[noreturn]] static void leave(int code) {
  fflush(nullptr);
  _exit(code);
}

void violation(const char* cls, const char* fmt, ...) {
  if (g_rs) {
    strncpy(g_rs->cls, cls, sizeof g_rs->cls - 1);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_rs->msg, sizeof g_rs->msg, fmt, ap);
    va_end(ap);
    g_rs->verdict = kViolation;
    g_rs->finished = 1;
    eventf("VIOLATION %s: %s", cls, g_rs->msg);
    if (g_shared_rs) {  // inside a copy: hand the verdict to the run
      memcpy(g_shared_rs->cls, g_rs->cls, sizeof g_rs->cls);
      memcpy(g_shared_rs->msg, g_rs->msg, sizeof g_rs->msg);
      g_shared_rs->verdict = kViolation;
      g_shared_rs->finished = 1;
    }
  }
  _exit(g_is_copy ? 78 : 77);
}
void discard(const char* why) {
  if (g_rs) {
    strncpy(g_rs->msg, why, sizeof g_rs->msg - 1);
    g_rs->verdict = kDiscard;
    g_rs->finished = 1;
  }
  _exit(0);
}
void finish() {
  if (g_rs) g_rs->finished = 1;
  leave(0);
}
void allow_abort(bool on, const char* why) {
  if (!g_rs) return;
  g_rs->abort_ok = on;
  strncpy(g_rs->abort_why, why, sizeof g_rs->abort_why - 1);
}
bool abort_allowed() { return g_rs && g_rs->abort_ok; }

static int name_id(Names& N, const char* name) {
  for (int i = 0; i < N.n; ++i)
    if (!strcmp(N.name[i], name)) return i;
  if (N.n >= kMaxNames) return kMaxNames - 1;
  strncpy(N.name[N.n], name, 47);
  return N.n++;
}
int fault_kind(const char* name) { return g_rs ? name_id(g_rs->fnames, name) : 0; }
void fault_hit(int k) { if (g_rs) g_rs->fcount[k]++; }
void probe(const char* name) { if (g_rs) g_rs->pcount[name_id(g_rs->pnames, name)]++; }
void feature(uint64_t h) { if (g_rs && g_rs->nfeat < kMaxFeat) g_rs->feat[g_rs->nfeat++] = h; }
void add_sim_time(double s) { if (g_rs) g_rs->sim_time += s; }
double param(const char* name, double d) {
  char env[80];
  snprintf(env, sizeof env, "SIM_%s", name);
  const char* v = getenv(env);
  return v ? atof(v) : d;
}

std::string captured_output() {
  fflush(nullptr);
  std::string s;
  if (g_cap_fd < 0) return s;
  off_t n = lseek(g_cap_fd, 0, SEEK_END);
  if (n > 1 << 26) n = 1 << 26;
  s.resize(n);
  ssize_t k = pread(g_cap_fd, s.data(), n, 0);
  s.resize(k > 0 ? k : 0);
  return s;
}

bool in_copy(const std::function<std::string()>& fn, std::string* out, int* status) {
  int pfd[2];
  if (pipe(pfd)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    g_is_copy = true;
    // keep the run state private to the parent run
    RunState* mine = static_cast<RunState*>(mmap(nullptr, sizeof(RunState), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    memcpy(mine, g_rs, offsetof(RunState, ch));
    for (int s = 0; s < kNumStreams; ++s) memcpy(mine->ch[s], g_rs->ch[s], 4ul * g_rs->nch[s]);
    if (!g_shared_rs) g_shared_rs = g_rs;
    g_rs = mine;
    g_rs->verdict = kOk;
    g_rs->finished = 0;
    std::string r = fn();
    size_t off = 0;
    while (off < r.size()) {
      ssize_t k = write(pfd[1], r.data() + off, r.size() - off);
      if (k <= 0) break;
      off += k;
    }
    close(pfd[1]);
    _exit(0);
  }
  close(pfd[1]);
  out->clear();
  char buf[4096];
  ssize_t k;
  while ((k = read(pfd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR))
    if (k > 0) out->append(buf, k);
  close(pfd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (status) *status = st;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) _exit(g_is_copy ? 78 : 77);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// ------------------------------------------------------------------ worker / explore
static double now() {
  timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

constexpr uint32_t kExecTab = 1u << 21;
constexpr int kMaxViol = 16;
struct Global {
  std::atomic<uint64_t> next;
  std::atomic<uint64_t> runs, oks, discards, loud, viols, reruns, rerun_mismatch, total_events, total_choices;
  std::atomic<uint64_t> exec_distinct, feat_distinct, exec_full;
  std::atomic<uint64_t> sim_us;
  std::atomic<int> nviol;
  std::atomic<int> lock;
  Names fnames, pnames, lnames;
  uint64_t fcount[kMaxNames], pcount[kMaxNames], lcount[kMaxNames];
  uint64_t fruns[kMaxNames], pruns[kMaxNames];
  struct V { uint64_t run; char cls[64]; uint64_t count; } viol[kMaxViol];
  uint64_t sample_run[8];
  std::atomic<uint64_t> exec[kExecTab];
  std::atomic<uint64_t> feat[kExecTab];
};
static Global* G;

static bool tab_insert(std::atomic<uint64_t>* t, std::atomic<uint64_t>& cnt, uint64_t h) {
  if (!h) h = 1;
  uint32_t i = static_cast<uint32_t>(h) & (kExecTab - 1);
  for (int k = 0; k < 64; ++k, i = (i + 1) & (kExecTab - 1)) {
    uint64_t cur = t[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (t[i].compare_exchange_strong(cur, h)) { cnt++; return true; }
      if (cur == h) return false;
    }
  }
  return false;
}

static void init_run(uint64_t run_seed) {
  RunState* r = g_rs;
  memset(r, 0, offsetof(RunState, ch));
  r->run_seed = run_seed;
  r->hash = 0x1234;
  for (int s = 0; s < kNumStreams; ++s) g_prng[s] = mix64(run_seed * 8 + s + 1);
}

static uint64_t seed_of(uint64_t base, uint64_t run) { return mix64(mix64(base + 0x51) ^ (run * 0x9e3779b97f4a7c15ULL + 7)); }

// executes one run in a forked child; fills g_rs->verdict etc.
static void exec_run(double wall_limit) {
  ftruncate(g_cap_fd, 0);
  lseek(g_cap_fd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {60, 60};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    dup2(g_cap_fd, 1);
    dup2(g_cap_fd, 2);
    alarm(static_cast<unsigned>(wall_limit));
    kHarness.run();
    g_rs->finished = 1;
    leave(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  RunState* r = g_rs;
  if (r->verdict == kViolation || r->verdict == kDiscard) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r->finished) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && r->abort_ok) {
    r->finished = 2;  // loud failure
    return;
  }
  r->verdict = kViolation;
  static char tail[3000];
  off_t n = lseek(g_cap_fd, 0, SEEK_END);
  off_t from = 0;
  // for sanitizer reports the head matters, for asserts too
  ssize_t k = pread(g_cap_fd, tail, sizeof tail - 1, from);
  (void)n;
  if (k < 0) k = 0;
  tail[k] = 0;
  for (ssize_t i = 0; i < k; ++i) if ((unsigned char)tail[i] > 126 || ((unsigned char)tail[i] < 32 && tail[i] != '\n')) tail[i] = '?';
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
    snprintf(r->cls, sizeof r->cls, "memory-error");
    snprintf(r->msg, sizeof r->msg, "AddressSanitizer report: %s", tail);
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    snprintf(r->cls, sizeof r->cls, "hang");
    snprintf(r->msg, sizeof r->msg, "run did not finish (signal %d)", WTERMSIG(st));
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
    snprintf(r->cls, sizeof r->cls, "unexpected-abort");
    snprintf(r->msg, sizeof r->msg, "process aborted: %s", tail);
  } else if (WIFSIGNALED(st)) {
    snprintf(r->cls, sizeof r->cls, "crash");
    snprintf(r->msg, sizeof r->msg, "killed by signal %d: %s", WTERMSIG(st), tail);
  } else {
    snprintf(r->cls, sizeof r->cls, "unexpected-exit");
    snprintf(r->msg, sizeof r->msg, "exit status %d: %s", WIFEXITED(st) ? WEXITSTATUS(st) : -1, tail);
  }
}

static RunState* map_state() {
  void* p = mmap(nullptr, sizeof(RunState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return static_cast<RunState*>(p);
}

static void glock() { int e = 0; while (!G->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void gunlock() { G->lock = 0; }

static void worker(int w, uint64_t base, uint64_t nruns, double deadline) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_rs = map_state();
  g_cap_fd = memfd_create("cap", 0);
  for (;;) {
    uint64_t run = G->next.fetch_add(1);
    if (run >= nruns || now() > deadline || G->nviol.load() >= kMaxViol) break;
    init_run(seed_of(base, run));
    exec_run(120);
    RunState* r = g_rs;
    // determinism self check on a sample
    bool mism = false;
    if (r->verdict == kOk && run % 64 == 5) {
      uint64_t h = r->hash, e = r->nevents;
      int fin = r->finished;
      init_run(seed_of(base, run));
      exec_run(120);
      G->reruns++;
      if (r->hash != h || r->nevents != e || r->finished != fin || r->verdict != kOk) { mism = true; G->rerun_mismatch++; fprintf(stderr, "rerun mismatch: seed %llu run %llu\n", (unsigned long long)base, (unsigned long long)run); }
    }
    (void)mism;
    G->runs++;
    uint64_t nch = 0;
    for (int s = 0; s < kNumStreams; ++s) nch += r->nch[s];
    G->total_choices += nch;
    G->total_events += r->nevents;
    G->sim_us += static_cast<uint64_t>(r->sim_time * 1e6);
    glock();
    for (int i = 0; i < r->fnames.n; ++i) if (r->fcount[i]) {
      int k = name_id(G->fnames, r->fnames.name[i]);
      G->fcount[k] += r->fcount[i]; G->fruns[k]++;
    }
    for (int i = 0; i < r->pnames.n; ++i) if (r->pcount[i]) {
      int k = name_id(G->pnames, r->pnames.name[i]);
      G->pcount[k] += r->pcount[i]; G->pruns[k]++;
    }
    if (r->verdict == kOk && r->finished == 2) { int k = name_id(G->lnames, r->abort_why); G->lcount[k]++; }
    if (r->verdict == kViolation) {
      int found = -1;
      for (int i = 0; i < G->nviol.load(); ++i) if (!strcmp(G->viol[i].cls, r->cls)) found = i;
      // keep the lowest run index per class so that a report is a function of the seed
      if (found >= 0) { G->viol[found].count++; if (run < G->viol[found].run) G->viol[found].run = run; }
      else if (G->nviol.load() < kMaxViol) {
        int i = G->nviol.load();
        G->viol[i].run = run; G->viol[i].count = 1;
        strncpy(G->viol[i].cls, r->cls, 63);
        G->nviol++;
      }
    }
    gunlock();
    if (r->verdict == kOk) {
      G->oks++;
      if (r->finished == 2) G->loud++;
      if (nch) tab_insert(G->exec, G->exec_distinct, r->hash);
    } else if (r->verdict == kDiscard) G->discards++;
    else G->viols++;
    for (uint32_t i = 0; i < r->nfeat; ++i) tab_insert(G->feat, G->feat_distinct, r->feat[i]);
    (void)w;
  }
  _exit(0);
}

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static void print_result(FILE* f) {
  RunState* r = g_rs;
  fprintf(f, "{\"verdict\":%d,\"finished\":%d,\"hash\":\"%016llx\",\"events\":%llu,\"cls\":", r->verdict, r->finished, (unsigned long long)r->hash, (unsigned long long)r->nevents);
  json_str(f, r->cls);
  fprintf(f, ",\"msg\":");
  json_str(f, r->msg);
  fprintf(f, ",\"seed\":%llu,\"faults\":{", (unsigned long long)r->run_seed);
  bool c = false;
  for (int i = 0; i < r->fnames.n; ++i) if (r->fcount[i]) { fprintf(f, "%s", c ? "," : ""); json_str(f, r->fnames.name[i]); fprintf(f, ":%u", r->fcount[i]); c = true; }
  fprintf(f, "},\"streams\":[");
  for (int s = 0; s < kNumStreams; ++s) {
    fprintf(f, "%s[", s ? "," : "");
    for (uint32_t i = 0; i < r->nch[s]; ++i) fprintf(f, "%s%u", i ? "," : "", r->ch[s][i]);
    fprintf(f, "]");
  }
  fprintf(f, "]}\n");
}

static int explore(uint64_t base, uint64_t nruns, double secs, int jobs, const char* out) {
  void* p = mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  G = static_cast<Global*>(p);
  double t0 = now();
  pid_t pids[64];
  for (int w = 0; w < jobs; ++w) {
    pids[w] = fork();
    if (pids[w] == 0) worker(w, base, nruns, t0 + secs);
  }
  for (int w = 0; w < jobs; ++w) while (waitpid(pids[w], nullptr, 0) < 0 && errno == EINTR) {}
  double t1 = now();
  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) return 2;
  fprintf(f, "{\"harness\":\"%s\",\"base_seed\":%llu,\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"loud_failures\":%llu,\"violating_runs\":%llu,\"reruns\":%llu,\"rerun_mismatch\":%llu,\"events\":%llu,\"choices\":%llu,\"distinct_executions\":%llu,\"distinct_features\":%llu,\"sim_seconds\":%.3f,\"wall\":%.2f,\n",
          kHarness.name, (unsigned long long)base, (unsigned long long)G->runs, (unsigned long long)G->oks, (unsigned long long)G->discards, (unsigned long long)G->loud, (unsigned long long)G->viols, (unsigned long long)G->reruns, (unsigned long long)G->rerun_mismatch, (unsigned long long)G->total_events, (unsigned long long)G->total_choices, (unsigned long long)G->exec_distinct, (unsigned long long)G->feat_distinct, G->sim_us * 1e-6, t1 - t0);
  auto dump = [&](const char* key, Names& N, uint64_t* c, uint64_t* runs) {
    fprintf(f, "\"%s\":{", key);
    for (int i = 0; i < N.n; ++i) { fprintf(f, "%s", i ? "," : ""); json_str(f, N.name[i]); if (runs) fprintf(f, ":{\"hits\":%llu,\"runs\":%llu}", (unsigned long long)c[i], (unsigned long long)runs[i]); else fprintf(f, ":%llu", (unsigned long long)c[i]); }
    fprintf(f, "},\n");
  };
  dump("faults", G->fnames, G->fcount, G->fruns);
  dump("probes", G->pnames, G->pcount, G->pruns);
  dump("loud", G->lnames, G->lcount, nullptr);
  // re-execute one run per violation class to write out its choices
  g_rs = map_state();
  g_cap_fd = memfd_create("cap", 0);
  fprintf(f, "\"violations\":[");
  for (int i = 0; i < G->nviol.load(); ++i) {
    fflush(f);
    init_run(seed_of(base, G->viol[i].run));
    exec_run(120);
    bool same = g_rs->verdict == kViolation && !strcmp(g_rs->cls, G->viol[i].cls);
    fprintf(f, "%s{\"run\":%llu,\"count\":%llu,\"class\":", i ? "," : "", (unsigned long long)G->viol[i].run, (unsigned long long)G->viol[i].count);
    json_str(f, G->viol[i].cls);
    fprintf(f, ",\"reproduced\":%s,\"result\":", same ? "true" : "false");
    print_result(f);
    fprintf(f, "}");
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return 0;
}

// replay file: "stream K: v v v" lines
static int replay(const char* file, const char* trace) {
  FILE* f = fopen(file, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", file); return 2; }
  static char* line = nullptr;
  size_t cap = 0;
  uint64_t rseed = 0;
  uint32_t* data[kNumStreams] = {};
  while (getline(&line, &cap, f) > 0) {
    if (!strncmp(line, "seed ", 5)) rseed = strtoull(line + 5, nullptr, 10);
    if (!strncmp(line, "stream ", 7)) {
      char* q = line + 7;
      int s = strtol(q, &q, 10);
      if (*q == ':') ++q;
      if (s < 0 || s >= kNumStreams) continue;
      data[s] = static_cast<uint32_t*>(mmap(nullptr, 4ul * kMaxChoices, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      uint32_t n = 0;
      for (;;) {
        char* e;
        unsigned long v = strtoul(q, &e, 10);
        if (e == q) break;
        if (n < kMaxChoices) data[s][n++] = static_cast<uint32_t>(v);
        q = e;
      }
      g_rep[s] = data[s];
      g_repn[s] = n;
    }
  }
  fclose(f);
  g_replay = true;
  g_rs = map_state();
  g_cap_fd = memfd_create("cap", 0);
  if (trace) g_trace_fd = strcmp(trace, "-") ? open(trace, O_CREAT | O_TRUNC | O_WRONLY, 0644) : dup(1);
  init_run(rseed);
  exec_run(120);
  print_result(stdout);
  return 0;
}
static int one(uint64_t base, uint64_t run, const char* trace) {
  g_rs = map_state();
  g_cap_fd = memfd_create("cap", 0);
  if (trace) g_trace_fd = strcmp(trace, "-") ? open(trace, O_CREAT | O_TRUNC | O_WRONLY, 0644) : dup(1);
  init_run(seed_of(base, run));
  exec_run(120);
  print_result(stdout);
  if (getenv("SIM_SHOW")) { char b[65536]; lseek(g_cap_fd, 0, SEEK_SET); ssize_t k; while ((k = read(g_cap_fd, b, sizeof b)) > 0) (void)!write(1, b, k); }
  return 0;
}

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  if (!getenv("SIM_NOASLR_DONE")) {
    setenv("SIM_NOASLR_DONE", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string mode = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, runs = 1000, run = 0;
  double secs = 10;
  int jobs = 8;
  const char *out = nullptr, *trace = nullptr, *file = nullptr;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? argv[++i] : const_cast<char*>(""); };
    if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val(), nullptr, 10);
    else if (a == "--run") run = strtoull(val(), nullptr, 10);
    else if (a == "--seconds") secs = atof(val());
    else if (a == "--jobs") jobs = atoi(val());
    else if (a == "--out") out = val();
    else if (a == "--trace") trace = val();
    else file = argv[i];
  }
  if (kHarness.warmup) kHarness.warmup();
  if (mode == "explore") return explore(seed, runs, secs, jobs, out);
  if (mode == "replay" && file) return replay(file, trace);
  if (mode == "one") return one(seed, run, trace);
  fprintf(stderr, "usage: %s explore|replay|one ...\n", argv[0]);
  return 2;
}
