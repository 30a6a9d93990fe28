#include "sim.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <set>
#include <string>
#include <vector>
#include <exception>

namespace sim {
namespace {
const uint32_t MAXTAPE = 1u << 21, MAXTRACE = 1u << 22, MAXC = 384;
struct Shared {
  volatile uint32_t state;  // 0 running, 1 finished, 2 violation recorded
  uint64_t hash, sigv, nchoices;
  uint32_t nontriv, ntape, ntrace, nc;
  char     vclass[160], msg[6000], ctx[1024], desc[600];
  char     cname[MAXC][56];
  uint64_t cval[MAXC];
  uint32_t tape[MAXTAPE];
  char     trace[MAXTRACE];
};
Shared *               S;
bool                   g_trace = false, g_replay = false;
std::vector<uint32_t> *g_in = nullptr;
size_t                 g_pos = 0;
Rng                    g_rng(1);

struct Entry { std::string prop; RunFn fn, warm; unsigned weight; };
std::vector<Entry> &entries() { static std::vector<Entry> *e = new std::vector<Entry>; return *e; }

double now_real() {  // real clock of the outer loop only; runs never see it
  struct timespec ts;
  ::clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
}  // namespace

Register::Register(const char *prop, RunFn fn, RunFn warm, unsigned weight) {
  entries().push_back(Entry{prop, fn, warm, weight});
}
bool tracing() { return g_trace; }
bool replaying() { return g_replay; }

void event(uint64_t v) {
  uint64_t h = S->hash ^ (v + 0x9E3779B97F4A7C15ull + (S->hash << 6) + (S->hash >> 2));
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 29;
  S->hash = h;
}
void event_bytes(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  uint64_t h = 1469598103934665603ull ^ n;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  event(h);
}
void event_str(const char *s) { event_bytes(s, strlen(s)); }
void sig(uint64_t v) {
  uint64_t h = (S->sigv ^ v) * 0xff51afd7ed558ccdull;
  S->sigv = (h ^ (h >> 31)) + 0x9E3779B97F4A7C15ull;
}
void nontrivial() { S->nontriv = 1; }

uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (g_replay) {
    v = g_pos < g_in->size() ? (*g_in)[g_pos] % n : 0;
    ++g_pos;
  } else
    v = g_rng.below(n);
  if (S->ntape < MAXTAPE) S->tape[S->ntape++] = v;
  S->nchoices++;
  event(v * 2654435761u + n);
  return v;
}

void log(const char *fmt, ...) {
  if (!g_trace) return;
  va_list ap;
  va_start(ap, fmt);
  uint32_t left = MAXTRACE - S->ntrace;
  if (left > 400) {
    int k = vsnprintf(S->trace + S->ntrace, left > 4000 ? 4000 : left - 2, fmt, ap);
    if (k > 3990) k = 3990;
    if (k > 0) S->ntrace += k;
    S->trace[S->ntrace++] = '\n';
  }
  va_end(ap);
}
void count(const char *name, uint64_t v) {
  uint32_t i = 0;
  for (; i < S->nc; ++i)
    if (!strcmp(S->cname[i], name)) break;
  if (i == S->nc) {
    if (S->nc >= MAXC) return;
    strncpy(S->cname[i], name, 55);
    S->cname[i][55] = 0;
    S->cval[i]      = 0;
    S->nc++;
  }
  S->cval[i] += v;
}
void describe(const char *fmt, ...) {
  size_t l = strlen(S->desc);
  if (l + 60 > sizeof S->desc) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->desc + l, sizeof(S->desc) - l, fmt, ap);
  va_end(ap);
}
void set_context(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->ctx, sizeof S->ctx, fmt, ap);
  va_end(ap);
  if (g_trace) log("-- %s", S->ctx);
}
static void record_violation(const char *cls, const char *msg) {
  if (S->state == 2) return;
  strncpy(S->vclass, cls, sizeof(S->vclass) - 1);
  snprintf(S->msg, sizeof S->msg, "%s [context: %s]", msg, S->ctx);
  event_str(cls);
  S->state = 2;
}
void violate(const char *cls, const char *fmt, ...) {
  char    buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record_violation(cls, buf);
  _exit(3);
}

// ---- crash capture -------------------------------------------------------------------------
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:handle_abort=1:"
         "handle_sigfpe=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:malloc_fill_byte=203:max_malloc_fill_size=4096:"
         "symbolize=0:print_legend=0:print_full_thread_history=0:detect_odr_violation=0:"
         "quarantine_size_mb=0:thread_local_quarantine_size_kb=0:malloc_context_size=2:allocator_release_to_os_interval_ms=-1:intercept_tls_get_addr=0";
}
namespace {
void asan_cb(const char *text) {
  char        cls[96] = "asan:unknown";
  const char *p       = strstr(text, "AddressSanitizer: ");
  if (p) {
    p += 18;
    size_t k = 0;
    strcpy(cls, "asan:");
    k = 5;
    while (*p && *p != ' ' && *p != '\n' && k < 90) cls[k++] = *p++;
    cls[k] = 0;
  }
  char body[2500];
  strncpy(body, text, sizeof body - 1);
  body[sizeof body - 1] = 0;
  record_violation(cls, body);
  _exit(99);
}
void sig_handler(int s) {
  char cls[40];
  snprintf(cls, sizeof cls, s == SIGXCPU ? "hang" : "signal:%d", s);
  record_violation(cls, s == SIGXCPU ? "CPU budget of one run exhausted (no progress)" : "fatal signal");
  _exit(98);
}
void on_terminate() {
  std::string w = "std::terminate called";
  if (std::current_exception()) {
    try { throw; }
    catch (const std::exception &e) { w += ", exception: "; w += e.what(); }
    catch (...) { w += ", exception of an unknown type"; }
  }
  record_violation("terminate", w.c_str());
  _exit(97);
}

struct Outcome {
  int                   violated = 0;
  std::string           cls, msg, desc, trace;
  uint64_t              hash = 0, sigv = 0;
  bool                  nontriv = false;
  std::vector<uint32_t> tape;
  double                wall = 0;
};
int g_cpu_limit = 20, g_wall_limit = 90;

volatile sig_atomic_t g_alarm = 0;
void on_alarm(int) { g_alarm = 1; }

Outcome run_child(const Entry &e, uint64_t seed, uint64_t idx, const std::vector<uint32_t> *in, bool trace,
                  std::map<std::string, uint64_t> *counters) {
  S->state = 0;
  S->hash  = 0x51ED270B;
  S->sigv  = 0xABCDEF;
  S->nchoices = 0;
  S->nontriv = S->ntape = S->ntrace = S->nc = 0;
  S->vclass[0] = S->msg[0] = S->ctx[0] = S->desc[0] = 0;
  double t0 = now_real();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0 && !getenv("SIM_STDERR")) dup2(nul, 1), dup2(nul, 2);
    g_trace  = trace;
    g_replay = in != nullptr;
    std::vector<uint32_t> tp;
    if (in) tp = *in;
    g_in  = &tp;
    g_pos = 0;
    g_rng = Rng(seed * 1000003ull + idx * 7919ull + 17);
    struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGXCPU, sig_handler);
    if (__asan_set_error_report_callback)
      __asan_set_error_report_callback(asan_cb);
    else {
      for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, sig_handler);
    }
    std::set_terminate(on_terminate);
    e.fn();
    if (S->state == 0) S->state = 1;
    _exit(0);
  }
  int st = 0;
  g_alarm = 0;
  struct itimerval it = {{0, 0}, {g_wall_limit, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  while (waitpid(pid, &st, 0) < 0) {
    if (errno == EINTR && g_alarm) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (S->state == 0) record_violation("hang", "wall-clock limit of one run exceeded");
      break;
    }
    if (errno != EINTR) break;
  }
  it.it_value.tv_sec = 0;
  setitimer(ITIMER_REAL, &it, nullptr);
  if (S->state == 0) {
    char b[200], c[60];
    if (WIFSIGNALED(st))
      snprintf(c, sizeof c, "signal:%d", WTERMSIG(st)), snprintf(b, sizeof b, "run died of signal %d", WTERMSIG(st));
    else
      snprintf(c, sizeof c, "exit"), snprintf(b, sizeof b, "run exited early with status %d", WEXITSTATUS(st));
    record_violation(c, b);
  }
  Outcome o;
  o.wall     = now_real() - t0;
  o.violated = S->state == 2;
  o.hash     = S->hash;
  o.sigv     = S->sigv;
  o.nontriv  = S->nontriv;
  o.desc     = S->desc;
  o.tape.assign(S->tape, S->tape + S->ntape);
  if (o.violated) o.cls = S->vclass, o.msg = S->msg;
  if (trace) o.trace.assign(S->trace, S->ntrace);
  if (counters) {
    for (uint32_t i = 0; i < S->nc; ++i) (*counters)[S->cname[i]] += S->cval[i];
    (*counters)["sim.choices"] += S->nchoices;
  }
  return o;
}

std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
void write_tape(const std::string &path, const std::vector<uint32_t> &t, const std::string &extra) {
  FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "{%s\"tape\": [", extra.c_str());
  for (size_t i = 0; i < t.size(); ++i) fprintf(f, "%s%u", i ? "," : "", t[i]);
  fprintf(f, "]}\n");
  fclose(f);
}
bool read_tape(const char *path, std::vector<uint32_t> &t, std::string &cls, int &entry) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  std::string s;
  char        b[65536];
  size_t      k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  size_t p = s.find("\"class\": \"");
  if (p != std::string::npos) {
    p += 10;
    cls = s.substr(p, s.find('"', p) - p);
  }
  p = s.find("\"entry\": ");
  entry = p == std::string::npos ? 0 : atoi(s.c_str() + p + 9);
  p = s.find("\"tape\": [");
  if (p == std::string::npos) return false;
  p += 9;
  const char *c = s.c_str() + p;
  while (*c && *c != ']') {
    char *e;
    unsigned long v = strtoul(c, &e, 10);
    if (e == c) { ++c; continue; }
    t.push_back((uint32_t)v);
    c = e;
  }
  return true;
}
size_t last_nonzero(const std::vector<uint32_t> &t) {
  size_t n = t.size();
  while (n && !t[n - 1]) --n;
  return n;
}
}  // namespace

int main(int argc, char **argv) {
  if (!getenv("SIM_ASLR_OFF")) {  // addresses must not differ between replays
    setenv("SIM_ASLR_OFF", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string mode = argc > 1 ? argv[1] : "", prop, out = "/dev/stdout", tapef, cls, outdir = ".";
  uint64_t    seed = 1, start = 0, stride = 1, maxn = ~0ull;
  double      budget = 10;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    const char *v = argv[i + 1];
    if (k == "--prop") prop = v;
    else if (k == "--seed") seed = strtoull(v, 0, 10);
    else if (k == "--start") start = strtoull(v, 0, 10);
    else if (k == "--stride") stride = strtoull(v, 0, 10);
    else if (k == "--max") maxn = strtoull(v, 0, 10);
    else if (k == "--budget") budget = atof(v);
    else if (k == "--out") out = v;
    else if (k == "--outdir") outdir = v;
    else if (k == "--tape") tapef = v;
    else if (k == "--class") cls = v;
    else if (k == "--cpu") g_cpu_limit = atoi(v);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  std::vector<Entry> E;
  for (auto &e : entries())
    if (prop.empty() || e.prop == prop) E.push_back(e);
  if (E.empty()) { fprintf(stderr, "no entry for property %s\n", prop.c_str()); return 2; }
  std::vector<int> wheel;
  for (size_t i = 0; i < E.size(); ++i)
    for (unsigned w = 0; w < E[i].weight; ++w) wheel.push_back((int)i);
  for (auto &e : E) if (e.warm) e.warm();

  if (mode == "run") {
    double t0 = now_real();
    std::map<std::string, uint64_t> ctr;
    std::set<uint64_t>              sigs;
    std::vector<std::string>        viol, samples;
    std::map<std::string, int>      seen;
    uint64_t runs = 0, nontriv = 0, det_checked = 0, det_bad = 0;
    double   longest = 0;
    uint64_t longest_idx = 0;
    const std::string stop = outdir + "/STOP";
    for (uint64_t i = start, k = 0; k < maxn && now_real() - t0 < budget; i += stride, ++k) {
      if ((k & 7) == 7 && access(stop.c_str(), F_OK) == 0) break;
      int          en = wheel[i % wheel.size()];
      Outcome      o  = run_child(E[en], seed, i, nullptr, false, &ctr);
      ++runs;
      if (o.wall > longest) longest = o.wall, longest_idx = i;
      if (o.nontriv) { ++nontriv; sigs.insert(o.sigv); }
      if (samples.size() < 4 && !o.desc.empty() && (k % 37) == 0)
        samples.push_back("{\"run\": " + std::to_string(i) + ", \"case\": " + jstr(o.desc) + "}");
      if (k % 24 == 5 || o.violated) {  // the same seed twice must give the same event hash
        Outcome o2 = run_child(E[en], seed, i, nullptr, false, nullptr);
        ++det_checked;
        if (o2.hash != o.hash || o2.cls != o.cls) {
          ++det_bad;
          if (o.violated) o.msg += " (NOT REPRODUCED: second run gave '" + o2.cls + "')";
          else ctr["sim.nondeterministic_runs"]++;
        }
        if (o.violated && o2.cls == o.cls) {
          if (seen[o.cls]++ < 2) {
            std::string f = outdir + "/cand-" + std::to_string(i) + ".json";
            write_tape(f, o.tape, "\"seed\": " + std::to_string(seed) + ", \"run\": " + std::to_string(i) +
                                      ", \"entry\": " + std::to_string(en) + ", \"class\": " + jstr(o.cls) +
                                      ", \"message\": " + jstr(o.msg) + ",\n");
            viol.push_back("{\"run\": " + std::to_string(i) + ", \"class\": " + jstr(o.cls) + ", \"msg\": " +
                           jstr(o.msg) + ", \"file\": " + jstr(f) + ", \"tape_len\": " + std::to_string(o.tape.size()) + "}");
          }
          ctr["sim.violating_runs"]++;
          if (viol.size() >= 5 || ctr["sim.violating_runs"] > 60) break;
        } else if (o.violated)
          ctr["sim.unreproducible"]++;
      }
    }
    FILE *f = fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"det_checked\": %llu, \"det_bad\": %llu, \"wall\": %.3f, \"longest\": %.3f, \"longest_idx\": %llu,\n\"counters\": {",
            (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)det_checked,
            (unsigned long long)det_bad, now_real() - t0, longest, (unsigned long long)longest_idx);
    bool first = true;
    for (auto &c : ctr) fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(c.first).c_str(), (unsigned long long)c.second), first = false;
    fprintf(f, "},\n\"violations\": [");
    for (size_t i = 0; i < viol.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", viol[i].c_str());
    fprintf(f, "],\n\"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", samples[i].c_str());
    fprintf(f, "],\n\"sigs\": [");
    first = true;
    for (auto s : sigs) fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s), first = false;
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
  }
  std::vector<uint32_t> tape;
  std::string           fcls;
  int                   en = 0;
  if (!read_tape(tapef.c_str(), tape, fcls, en)) { fprintf(stderr, "cannot read tape %s\n", tapef.c_str()); return 2; }
  if (cls.empty()) cls = fcls;
  if (en < 0 || en >= (int)E.size()) en = 0;
  if (mode == "replay") {
    Outcome o = run_child(E[en], 0, 0, &tape, true, nullptr);
    FILE *  f = fopen(out.c_str(), "w");
    fprintf(f, "{\"violated\": %d, \"class\": %s, \"hash\": \"%llx\", \"msg\": %s,\n\"trace\": %s}\n", o.violated,
            jstr(o.cls).c_str(), (unsigned long long)o.hash, jstr(o.msg).c_str(), jstr(o.trace).c_str());
    fclose(f);
    return o.violated ? 1 : 0;
  }
  if (mode == "min") {
    double   t0 = now_real();
    uint64_t trials = 0;
    std::vector<uint32_t> best = tape;
    auto fails = [&](const std::vector<uint32_t> &t) {
      ++trials;
      Outcome o = run_child(E[en], 0, 0, &t, false, nullptr);
      return o.violated && o.cls == cls;
    };
    auto left = [&] { return now_real() - t0 < budget; };
    if (!fails(best)) { fprintf(stderr, "does not reproduce\n"); return 2; }
    best.resize(last_nonzero(best));
    for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2)  // drop tails
      while (best.size() > k && left()) {
        std::vector<uint32_t> c(best.begin(), best.end() - k);
        if (!fails(c)) break;
        best = c;
        best.resize(last_nonzero(best));
      }
    for (int round = 0; round < 3 && left(); ++round) {
      size_t before = best.size();
      bool   changed = false;
      for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) {  // delete / zero blocks
        for (size_t i = 0; i + k <= best.size() && left();) {
          std::vector<uint32_t> c(best);
          c.erase(c.begin() + i, c.begin() + i + k);
          if (fails(c)) { best = c; changed = true; continue; }
          bool nz = false;
          for (size_t j = i; j < i + k; ++j) nz |= best[j] != 0;
          if (nz) {
            c = best;
            std::fill(c.begin() + i, c.begin() + i + k, 0u);
            if (fails(c)) best = c, changed = true;
          }
          i += k;
        }
      }
      for (size_t i = 0; i < best.size() && left(); ++i)
        while (best[i] && left()) {
          std::vector<uint32_t> c(best);
          c[i] = best[i] / 2;
          if (fails(c)) { best = c; changed = true; continue; }
          c[i] = best[i] - 1;
          if (best[i] > 1 && best[i] < 40 && fails(c)) { best = c; changed = true; continue; }
          break;
        }
      best.resize(last_nonzero(best));
      if (!changed && best.size() == before) break;
    }
    Outcome o = run_child(E[en], 0, 0, &best, true, nullptr);
    write_tape(out, best, "\"property\": " + jstr(prop) + ", \"entry\": " + std::to_string(en) + ", \"class\": " +
                              jstr(o.cls) + ",\n\"message\": " + jstr(o.msg) + ",\n\"hash\": \"" + [&] { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)o.hash); return std::string(b); }() +
                              "\", \"original_choices\": " + std::to_string(tape.size()) + ", \"min_choices\": " +
                              std::to_string(best.size()) + ", \"trials\": " + std::to_string(trials) +
                              ",\n\"trace\": " + jstr(o.trace) + ",\n");
    return o.violated && o.cls == cls ? 0 : 2;
  }
  fprintf(stderr, "usage: run|replay|min\n");
  return 2;
}
}  // namespace sim
