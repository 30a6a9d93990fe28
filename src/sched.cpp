// not instrumented; see sched.hpp
#include "sched.hpp"
#include <malloc.h>

#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <map>
#include <string>

#include "fault.hpp"
#include "sim.hpp"

namespace sched {
namespace {
typedef uint32_t Clk;
const int        MAXT = 40;
struct VC {
  Clk c[MAXT];
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Work {  // one work-sharing construct
  long next = 0, end = 0, incr = 1, chunk = 1;
  int  arrived = 0, left = 0;
  bool guided = false, single_taken = false;
  void *copy = nullptr;
  bool  copy_ready = false;
  VC    vc{};
};
struct Team {
  int  n = 1, level = 0;
  int  arrived = 0;
  uint64_t gen = 0;
  VC   vc{};  // barrier clock
  VC   out{};
  int  done = 0;
  std::map<uint64_t, Work> work;
  Team *parent = nullptr;
};
struct Thr {
  int       id = 0;
  sem_t     sem;
  pthread_t pt;
  bool      blocked = false, used = false;
  VC        vc{};
  Team *    team = nullptr;
  int       idx = 0;
  uint64_t  ws = 0;  // work-sharing constructs met in this team
  int       mute = 0;
  void *     stack = nullptr;
  int        fid = 0, depth = 0;  // fault context (one per caller) and library depth of this thread
  std::function<void()> *body = nullptr, *fin = nullptr;
  uint32_t  prio = 0;
  // current static loop
  long s_lo = 0, s_hi = 0, s_incr = 1;
  bool s_has = false;
  bool is_static = false;
};
Thr  T[MAXT];
fault::Ctx F[MAXT];
int  n_fid = 1, groups = 0;
volatile int active = 0;   // some group of more than one thread is under way
static __thread Thr *me = nullptr;
Team root;

// strategy
int      mode = 0;  // 0 only at synchronisation, 1 random gaps, 2 bursts in a window, 3 priorities, 4 round robin
int64_t  gap_left = 1 << 30, since_switch = 0;
uint32_t mean_gap = 1000;
uint64_t n_stack = 0;
uint64_t n_access = 0, n_switch = 0, n_regions = 0, n_asked = 0, win_from = 0, win_len = ~0ull, cap = 3000, n_preempt = 0;
int      env_threads = 4, max_team = 0;
bool     vary = false, nested = false;
int      prio_changes = 0;

Thr *self() {
  if (!me) {
    me = &T[0];
    if (!T[0].used) {
      T[0].used = true;
      sem_init(&T[0].sem, 0, 0);
      T[0].team  = &root;
      T[0].vc.c[0] = 1;
    }
  }
  return me;
}
void next_gap() {
  switch (mode) {
    case 1: {
      uint32_t k = sim::choose(24);  // spread over powers of two around the mean
      gap_left   = 1 + (int64_t)(mean_gap >> 3) * (1 + k);
      break;
    }
    case 2: gap_left = 1 + sim::choose(40); break;
    case 4: gap_left = mean_gap; break;
    case 3: gap_left = 1 + (int64_t)mean_gap * (1 + sim::choose(64)); break;
    default: gap_left = 1ll << 40;
  }
}
void hand_over(Thr *s, Thr *t) {
  s->depth = fault::lib_depth;
  if (s->fid != t->fid) {
    fault::save(F[s->fid]);
    fault::restore(F[t->fid]);
  }
  fault::lib_depth = t->depth;
}
void switch_to(Thr *t) {
  Thr *s = me;
  if (t == s) return;
  ++n_switch;
  since_switch = 0;
  sim::event(0x5c00 + t->id);
  hand_over(s, t);
  sem_post(&t->sem);
  while (sem_wait(&s->sem) != 0) {}
}
int runnable(Thr **v) {
  int n = 0;
  for (int i = 0; i < MAXT; ++i)
    if (T[i].used && !T[i].blocked) v[n++] = &T[i];
  return n;
}
Thr *pick(bool may_stay) {
  Thr *v[MAXT];
  int  n = runnable(v);
  if (!n) return nullptr;
  Thr *s = me;
  if (mode == 3) {  // highest priority runs; ties by id
    Thr *b = v[0];
    for (int i = 1; i < n; ++i)
      if (v[i]->prio > b->prio) b = v[i];
    return b;
  }
  // option 0: stay (or the lowest id), others in cyclic order after the current one
  int c = may_stay && !s->blocked ? 0 : -1;
  if (mode == 4) {
    for (int d = 1; d <= MAXT; ++d) {
      Thr *t = &T[(s->id + d) % MAXT];
      if (t->used && !t->blocked) return t;
    }
  }
  (void)c;
  int at = -1;
  for (int i = 0; i < n; ++i)
    if (v[i] == s) at = i;
  uint32_t k = sim::choose(n);
  if (at < 0) return v[k];
  return v[(at + k) % n];
}
[[noreturn]] void deadlock() {
  std::string w;
  for (int i = 0; i < MAXT; ++i)
    if (T[i].used) w += " t" + std::to_string(i);
  sim::violate("deadlock", "no simulated thread can make progress; waiting:%s", w.c_str());
}
void block() {  // caller has recorded why; returns when made runnable and scheduled
  Thr *s     = me;
  s->blocked = true;
  Thr *t     = pick(false);
  if (!t) deadlock();
  switch_to(t);
}
void preempt() {
  ++n_preempt;
  if (mode == 3) {
    me->prio = prio_changes > 0 ? --prio_changes : 0;
  }
  Thr *t = pick(true);
  if (t && t != me) switch_to(t);
}
inline void tick() {
  ++n_access;
  ++since_switch;
  if (--gap_left <= 0) {
    if (mode == 2 && (n_access < win_from || n_access > win_from + win_len)) {
      gap_left = n_access < win_from ? (int64_t)(win_from - n_access) : 1ll << 40;
    } else if (n_preempt >= cap) {
      gap_left = 1ll << 40;
    } else {
      preempt();
      next_gap();
    }
  } else if (since_switch > 4000000) {  // fairness: a spinning thread cannot starve the others
    since_switch = 0;
    Thr *s = me;
    for (int d = 1; d < MAXT; ++d) {
      Thr *t = &T[(s->id + d) % MAXT];
      if (t->used && !t->blocked) { switch_to(t); break; }
    }
  }
}
void sync_point() {
  if (!active || me->mute) return;
  if (mode == 0 || sim::chance(1, 2)) {
    Thr *t = pick(true);
    if (t && t != me) switch_to(t);
  }
}

// ---- shadow memory --------------------------------------------------------------------------
struct Cell { Clk clk; uint32_t pc; uint8_t tid, mask, kind; uint8_t pad; };  // kind bit0 write, bit1 atomic, bit2 free
const int NC = 4;
struct alignas(64) Entry { uint64_t key; uint32_t gen; uint16_t n, pad; Cell c[NC]; };  // one cache line
const uint32_t CAPB = 20, SCAP = 1u << CAPB;
Entry *  shadow = nullptr;
uint32_t gen = 1, s_used = 0;
Entry *lookup(uint64_t g) {
  if (!shadow) {
    shadow = (Entry *)mmap(nullptr, sizeof(Entry) * (size_t)SCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) abort();
  }
  uint32_t i = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - CAPB));
  for (;;) {
    Entry &e = shadow[i];
    if (e.gen != gen) {
      if (s_used > SCAP / 10 * 7) {  // forgetting can only miss, never invent
        ++gen;
        s_used = 0;
        sim::count("sched.shadow_flush");
        return lookup(g);
      }
      e.gen = gen;
      e.key = g;
      e.n   = 0;
      ++s_used;
      return &e;
    }
    if (e.key == g) return &e;
    i = (i + 1) & (SCAP - 1);
  }
}
Entry *peek(uint64_t g) {
  if (!shadow) return nullptr;
  uint32_t i = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - CAPB));
  for (;;) {
    Entry &e = shadow[i];
    if (e.gen != gen) return nullptr;
    if (e.key == g) return &e;
    i = (i + 1) & (SCAP - 1);
  }
}
[[noreturn]] void race(const Cell &c, int kind, uintptr_t addr, uint32_t pc, int tid) {
  auto nm = [](int k) { return k & 4 ? "free" : k & 2 ? (k & 1 ? "atomic write" : "atomic read") : k & 1 ? "write" : "read"; };
  (void)addr;
  sim::violate("race", "unordered conflicting accesses to the same memory: %s by thread %d at (+0x%x) and %s by thread %d at (+0x%x)", nm(c.kind), c.tid, c.pc,
               nm(kind), tid, pc);
}
inline void check(uint64_t g, uint8_t mask, int kind, uint32_t pc, uintptr_t addr) {
  Thr *  s = me;
  Entry *e = lookup(g);
  int    w = 0;
  const Clk now = s->vc.c[s->id];
  for (int i = e->n - 1; i >= 0; --i) {  // same access again since the last synchronisation
    const Cell &c = e->c[i];
    if (c.tid == s->id && c.clk == now && (mask & ~c.mask) == 0 && ((c.kind & 1) || !(kind & 1)) && (c.kind & 2) == (kind & 2)) return;
  }
  for (int i = 0; i < e->n; ++i) {
    Cell c = e->c[i];
    if (c.tid != s->id && (c.mask & mask) && ((c.kind | kind) & 1) && !((c.kind & kind) & 2) && c.clk > s->vc.c[c.tid]) race(c, kind, addr, pc, s->id);
    // superseded: same thread or ordered before us, covered by our bytes, and we are at least as strong
    bool ordered = c.tid == s->id || c.clk <= s->vc.c[c.tid];
    bool covers  = (c.mask & ~mask) == 0 && ((kind & 1) || !(c.kind & 1)) && (!(kind & 2) || (c.kind & 2));
    if (ordered && covers) continue;
    e->c[w++] = c;
  }
  if (w == NC) {  // full: drop the oldest (can only miss)
    for (volatile int i = 0; i < NC - 1; ++i) e->c[i] = e->c[i + 1];
    w = NC - 1;
  }
  Cell &n = e->c[w++];
  n.clk = s->vc.c[s->id];
  n.pc = pc;
  n.tid = (uint8_t)s->id;
  n.mask = mask;
  n.kind = (uint8_t)kind;
  e->n = (uint16_t)w;
}
inline void access(uintptr_t a, size_t n, int kind, uint32_t pc) {
  if (!active) return;
  if (!me || me->mute) return;
  tick();
  if (!active) return;
  while (n) {
    unsigned off = a & 7, k = 8 - off;
    if (k > n) k = (unsigned)n;
    check(a >> 3, (uint8_t)(((1u << k) - 1) << off), kind, pc, a);
    a += k;
    n -= k;
  }
}

// ---- happens-before of synchronisation objects -----------------------------------------------
std::map<uintptr_t, VC> &sync_vc() { static std::map<uintptr_t, VC> *m = new std::map<uintptr_t, VC>; return *m; }
void acquire(uintptr_t o) {
  auto &m = sync_vc();
  auto  i = m.find(o);
  if (i != m.end()) self()->vc.join(i->second);
}
void release(uintptr_t o) {
  Thr *s = self();
  auto &m = sync_vc();
  auto  i = m.find(o);
  if (i == m.end()) m[o] = s->vc;
  else i->second.join(s->vc);
  ++s->vc.c[s->id];
}
struct NoLedger {  // the simulator's own allocations are not the library's
  int d;
  NoLedger() : d(fault::lib_depth) { fault::lib_depth = 0; }
  ~NoLedger() { fault::lib_depth = d; }
};

// ---- locks -----------------------------------------------------------------------------------
struct Lock { Thr *owner = nullptr; int depth = 0; std::vector<Thr *> waiting; };
std::map<uintptr_t, Lock> &locks() { static std::map<uintptr_t, Lock> *m = new std::map<uintptr_t, Lock>; return *m; }
bool lock(uintptr_t o, bool recursive, bool wait) {
  NoLedger nl;
  Thr *    s = self();
  sync_point();
  Lock &l = locks()[o];
  if (l.owner == s && recursive) { ++l.depth; return true; }
  if (l.owner && !wait) return false;
  while (l.owner) {
    l.waiting.push_back(s);
    block();
  }
  l.owner = s;
  l.depth = 1;
  acquire(o);
  return true;
}
void unlock(uintptr_t o) {
  NoLedger nl;
  Lock &   l = locks()[o];
  if (--l.depth > 0) return;
  release(o);
  l.owner = nullptr;
  for (Thr *t : l.waiting) t->blocked = false;
  l.waiting.clear();
  sync_point();
}

// ---- threads ---------------------------------------------------------------------------------
pthread_key_t key;
// runs after the destructors of the thread's thread_local objects, which belong to the simulated execution
void thread_end(void *p) {
  Thr *t = (Thr *)p;
  (*t->fin)();
  // hand the baton on and disappear
  t->used = false;
  Thr *n  = pick(false);
  if (!n) deadlock();
  ++n_switch;
  since_switch = 0;
  hand_over(t, n);
  sem_post(&n->sem);
}
void *thread_main(void *p) {
  Thr *t = (Thr *)p;
  me     = t;
  while (sem_wait(&t->sem) != 0) {}
  pthread_setspecific(key, t);
  (*t->body)();
  return nullptr;
}
Thr *spawn(std::function<void()> *body, std::function<void()> *fin, Team *team, int idx) {
  Thr *s = self();
  int  i = 0;
  while (i < MAXT && (T[i].used)) ++i;
  if (i == MAXT) { fprintf(stderr, "too many simulated threads\n"); abort(); }
  Thr *t   = &T[i];
  Clk  old = t->vc.c[i];
  t->id    = i;
  t->used  = true;
  t->blocked = false;
  t->mute  = s->mute;
  sem_init(&t->sem, 0, 0);
  t->vc      = s->vc;
  t->vc.c[i] = old + 1;
  t->team    = team;
  t->idx     = idx;
  t->ws      = 0;
  t->body    = body;
  t->fin     = fin;
  t->prio    = mode == 3 ? 100 + sim::choose(100) : 0;
  t->fid   = s->fid;  // shares the creator's fault context
  t->depth = 0;
  pthread_attr_t at;
  pthread_attr_init(&at);
  // every thread gets addresses no other thread ever had, so stack reuse is not mistaken for sharing
  const size_t SS = 8 << 20;
  void *st = mmap((void *)(0x100000000000ull + SS * n_stack++), SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (st == MAP_FAILED) abort();
  t->stack = st;
  pthread_attr_setstack(&at, st, SS);
  if (pthread_create(&t->pt, &at, thread_main, t)) abort();
  pthread_attr_destroy(&at);
  ++s->vc.c[s->id];
  return t;
}
struct Gather { int left; Thr *waiter; };

void run_group(int extra, std::vector<std::function<void()>> &bodies, std::function<void()> *mine, Team *team, int idx0) {
  static bool made = pthread_key_create(&key, thread_end) == 0;
  (void)made;
  // spawns `extra` threads, runs `mine` (may be empty) in the caller, waits for the others
  NoLedger nl;
  Thr *    s  = self();
  VC       out{};
  int      left = extra;
  bool     waiting = false;
  std::vector<std::function<void()>> wrap(extra);
  std::vector<Thr *> ts;
  std::vector<std::pair<pthread_t, void *>> pts;  // a slot may be reused before its old thread is joined
  for (int k = 0; k < extra; ++k)
    wrap[k] = [&] {
      out.join(me->vc);
      ++me->vc.c[me->id];
      if (--left == 0 && waiting) s->blocked = false;
    };
  for (int k = 0; k < extra; ++k) ts.push_back(spawn(&bodies[k], &wrap[k], team, idx0 + k)), pts.push_back({ts[k]->pt, ts[k]->stack});
  if (!mine)
    for (int k = 0; k < extra; ++k) {
      ts[k]->fid = 1 + k;
      fault::save(F[1 + k]);
    }
  const bool many = extra + (mine != nullptr) > 1;
  if (many) ++groups, active = 1;
  if (mine) {
    { sync_point(); }
    int d = fault::lib_depth;
    fault::lib_depth = nl.d;
    (*mine)();
    fault::lib_depth = d;
  }
  if (left) {
    waiting = true;
    block();
  }
  if (many) active = --groups > 0;
  s->vc.join(out);
  ++s->vc.c[s->id];
  for (auto &p : pts) pthread_join(p.first, nullptr), munmap(p.second, 8 << 20);
  if (!active) ++gen, s_used = 0;  // everything before is ordered before everything after
}

void barrier() {
  Thr * s = self();
  Team *t = s->team;
  if (t->n <= 1) return;
  NoLedger nl;
  sync_point();
  t->vc.join(s->vc);
  ++s->vc.c[s->id];
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->out     = t->vc;
    ++t->gen;
    for (int i = 0; i < MAXT; ++i)
      if (T[i].used && T[i].team == t && &T[i] != s) T[i].blocked = false;
    s->vc.join(t->out);
    sync_point();
  } else {
    uint64_t g = t->gen;
    while (t->gen == g) block();
    s->vc.join(t->out);
  }
}

void parallel(void (*fn)(void *), void *data, unsigned want) {
  Thr *s = self();
  ++n_asked;
  int n = want ? (int)want : env_threads;
  if (n > 12) n = 12;
  if (s->team->level >= 1 && !nested) n = 1;
  if (max_team && n > max_team) n = max_team;
  if (s->mute) n = 1;
  if (vary && n > 1) n -= (int)sim::choose(n);
  int free_slots = 0;
  for (int i = 0; i < MAXT; ++i) free_slots += !T[i].used;
  if (n - 1 > free_slots) n = free_slots + 1;
  Team team;
  team.n      = n;
  team.level  = s->team->level + 1;
  team.parent = s->team;
  if (n > 1) ++n_regions;
  sim::event(0x7ea0 + n);
  char nm[40];
  snprintf(nm, sizeof nm, "sched.team_%d_of_%d", n, want ? (int)want : env_threads);
  sim::count(nm);
  Team *   pt  = s->team;
  int      pi  = s->idx;
  uint64_t pws = s->ws;
  s->team = &team;
  s->idx  = 0;
  s->ws   = 0;
  if (n == 1)
    fn(data);
  else {
    int depth = fault::lib_depth;
    std::vector<std::function<void()>> b;
    {
      NoLedger nl;
      b.resize(n - 1);
    }
    {
      NoLedger nl;
      for (int i = 1; i < n; ++i) b[i - 1] = [=] { fault::lib_depth = depth; fn(data); };
    }
    std::function<void()> mine = [=] { fn(data); };
    run_group(n - 1, b, &mine, &team, 1);
    NoLedger nl;
    b.clear();
    b.shrink_to_fit();
  }
  s->team = pt;
  s->idx  = pi;
  s->ws   = pws;
}

// ---- work sharing ------------------------------------------------------------------------------
Work &work() {
  Thr *s = self();
  return s->team->work[s->ws];
}
bool loop_next(long *a, long *b) {
  Thr * s = self();
  if (s->is_static) {
    if (!s->s_has) return false;
    *a       = s->s_lo;
    *b       = s->s_hi;
    s->s_has = false;
    return true;
  }
  sync_point();
  Work &w = work();
  long  left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (left <= 0) return false;
  long take = w.chunk > 0 ? w.chunk : 1;
  if (w.guided && left / s->team->n > take) take = left / s->team->n;
  if (take > left) take = left;
  *a = w.next;
  *b = w.next += take * w.incr;
  return true;
}
void loop_register(long lo, long hi, long incr, long chunk, int kind) {  // kind 0 static 1 dynamic 2 guided
  NoLedger nl;
  Thr *    s = self();
  ++s->ws;
  s->is_static = kind == 0;
  if (kind == 0) {
    long total = incr > 0 ? (hi - lo + incr - 1) / incr : (lo - hi - incr - 1) / -incr;
    if (total < 0) total = 0;
    long q = total / s->team->n, r = total % s->team->n;
    long f = s->idx * q + (s->idx < r ? s->idx : r), c = q + (s->idx < r);
    s->s_has = c > 0;
    s->s_lo  = lo + f * incr;
    s->s_hi  = lo + (f + c) * incr;
    return;
  }
  Work &w = work();
  if (!w.arrived++) {
    w.next = lo;
    w.end  = hi;
    w.incr = incr;
    w.chunk = chunk;
    w.guided = kind == 2;
  }
}
bool loop_start(long lo, long hi, long incr, long chunk, int kind, long *a, long *b) {
  loop_register(lo, hi, incr, chunk, kind);
  NoLedger nl;
  return loop_next(a, b);
}
void parallel_loop(void (*fn)(void *), void *data, unsigned n, long lo, long hi, long incr, long chunk, int kind) {
  // the outlined body calls loop_next only; pre-register the construct in the team
  struct A { void (*fn)(void *); void *data; long lo, hi, incr, chunk; int kind; } a = {fn, data, lo, hi, incr, chunk, kind};
  parallel(
      [](void *p) {
        A *a = (A *)p;
        loop_register(a->lo, a->hi, a->incr, a->chunk, a->kind);
        a->fn(a->data);
      },
      &a, n);
}
}  // namespace

Mute::Mute() { ++self()->mute; }
Mute::~Mute() { --self()->mute; }
void setup() {
  self();
  mode = sim::choose(5);
  static const uint32_t G[] = {20000, 4000, 1000, 200, 50, 100000};
  mean_gap = G[sim::choose(6)];
  cap      = mode == 1 && mean_gap < 1000 ? 4000 : 3000;
  if (mode == 3) T[0].prio = 150, prio_changes = 20;
  static const char *N[] = {"sync_only", "random_gaps", "burst", "priorities", "round_robin"};
  char b[40];
  snprintf(b, sizeof b, "sched.mode_%s", N[mode]);
  sim::count(b);
  sim::sig(mode);
  next_gap();
}
void set_window() {  // a burst of preemptions somewhere in what follows
  win_from = n_access + ((64 + sim::choose(64)) << sim::choose(18)) - 64;
  win_len  = 400000;
  if (mode == 2) gap_left = (int64_t)(win_from > n_access ? win_from - n_access : 1);
}
void callers(int n, const std::function<void(int)> &body) {
  std::vector<std::function<void()>> b(n);
  std::vector<Team>                  teams(n);
  for (int i = 0; i < n; ++i)
    b[i] = [&, i] {
      Thr *s  = self();
      s->team = &teams[i];
      s->idx  = 0;
      body(i);
      s->team = &root;
    };
  run_group(n, b, nullptr, &root, 0);
}
void set_env_threads(int n) { env_threads = n; }
void draw_environment() {
  static const char *const hif[] = {nullptr, nullptr, "3", "0", "-2", "many", "", "1", " 4x", "6"}, *const omp[] = {nullptr, nullptr, "2", "0", "-1", "4,2", "5"};
  const char *a = hif[sim::choose(10)], *b = omp[sim::choose(7)];
  a ? setenv("HIF_NUM_THREADS", a, 1) : unsetenv("HIF_NUM_THREADS");
  b ? setenv("OMP_NUM_THREADS", b, 1) : unsetenv("OMP_NUM_THREADS");
  if (a || b) sim::count("env.thread_variables_set");
}
void set_limit(int m, bool v) { max_team = m; vary = v; }
void set_nested(bool on) { nested = on; }
void block_freed(void *p, size_t n) {
  if (!active || !me || me->mute) return;
  // freeing conflicts with everything not ordered before it
  uintptr_t a = (uintptr_t)p;
  for (uint64_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; ++g) {
    Entry *e = peek(g);
    if (!e) continue;
    for (int i = 0; i < e->n; ++i)
      if (e->c[i].tid != me->id && e->c[i].clk > me->vc.c[e->c[i].tid]) race(e->c[i], 4, a, 0, me->id);
    e->n = 0;
  }
}
void block_allocated(void *p, size_t n) {
  if (!active) return;
  uintptr_t a = (uintptr_t)p;
  for (uint64_t g = a >> 3; g <= (a + (n ? n : 1) - 1) >> 3; ++g) {
    Entry *e = peek(g);
    if (e) e->n = 0;
  }
}
void foreign_access(const void *p, size_t n, bool write) { access((uintptr_t)p, n, write, 0); }
void point() { sync_point(); }
uint64_t regions() { return n_regions; }
uint64_t regions_asked() { return n_asked; }
uint64_t switches() { return n_switch; }
uint64_t accesses() { return n_access; }
}  // namespace sched

using namespace sched;
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
typedef uintptr_t U;
extern "C" {
// ---- instrumentation entry points --------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                     \
  void __tsan_read##n(void *p) { access((U)p, n, 0, PC); }        \
  void __tsan_write##n(void *p) { access((U)p, n, 1, PC); }       \
  void __tsan_unaligned_read##n(void *p) { access((U)p, n, 0, PC); }  \
  void __tsan_unaligned_write##n(void *p) { access((U)p, n, 1, PC); } \
  void __tsan_volatile_read##n(void *p) { access((U)p, n, 0, PC); }   \
  void __tsan_volatile_write##n(void *p) { access((U)p, n, 1, PC); }  \
  void __tsan_read_write##n(void *p) { access((U)p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access((U)p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { access((U)p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((U)p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { access((U)p, 8, 0, PC); }

// atomics: sequentially consistent; happens-before only as strong as the requested order
static inline void at_pre(U p, size_t n, int kind, uint32_t pc, int mo) {
  if (!active || !me || me->mute) return;
  sync_point();
  access(p, n, kind | 2, pc);
  NoLedger nl;
  if (mo != 0 && mo != 3) acquire(p);
}
static inline void at_post(U p, int mo) {
  if (!active || !me || me->mute) return;
  NoLedger nl;
  if (mo == 3 || mo == 4 || mo == 5) release(p);
}
#define AT(bits, type)                                                                                              \
  type __tsan_atomic##bits##_load(const volatile type *p, int mo) { at_pre((U)p, sizeof(type), 0, PC, mo == 5 ? 2 : mo); return *p; } \
  void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, 3); *p = v; at_post((U)p, mo); } \
  type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = o + v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = o - v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = o & v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = o | v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = o ^ v; at_post((U)p, mo); return o; } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *p, type v, int mo) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; *p = ~(o & v); at_post((U)p, mo); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int mo, int) { at_pre((U)p, sizeof(type), 1, PC, mo); if (*p == *e) { *p = v; at_post((U)p, mo); return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int mo, int) { at_pre((U)p, sizeof(type), 1, PC, mo); if (*p == *e) { *p = v; at_post((U)p, mo); return 1; } *e = *p; return 0; } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type e, type v, int mo, int) { at_pre((U)p, sizeof(type), 1, PC, mo); type o = *p; if (o == e) { *p = v; at_post((U)p, mo); } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// memory functions called from instrumented code
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) access((U)s, n, 0, PC), access((U)d, n, 1, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) access((U)s, n, 0, PC), access((U)d, n, 1, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (n) access((U)d, n, 1, PC);
  return __real_memset(d, c, n);
}

// blocks of the C library handed to instrumented code (handles, stack traces, exceptions): their reuse is ordered by its lock
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p && active) sched::block_allocated(p, malloc_usable_size(p));
  return p;
}
void *__real___cxa_allocate_exception(size_t) noexcept;
void *__wrap___cxa_allocate_exception(size_t n) noexcept {
  void *p = __real___cxa_allocate_exception(n);
  if (active) sched::block_allocated((char *)p - 128, n + 128);
  return p;
}
char **__real_backtrace_symbols(void *const *, int);
char **__wrap_backtrace_symbols(void *const *a, int n) {
  char **p = __real_backtrace_symbols(a, n);
  if (p && active) sched::block_allocated(p, malloc_usable_size(p));
  return p;
}

// initialisation guards of function-local statics
int __cxa_guard_acquire(uint64_t *g) {
  if (*(uint8_t *)g) {
    if (active) { NoLedger nl; acquire((U)g); }
    return 0;
  }
  if (me && !me->mute) {
    lock((U)g ^ 1, false, true);
    if (*(uint8_t *)g) { unlock((U)g ^ 1); return 0; }
    return 1;
  }
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  *(uint8_t *)g = 1;
  if (me) {
    NoLedger nl;
    if (active) release((U)g);
    if (locks().count((U)g ^ 1) && locks()[(U)g ^ 1].owner == me) unlock((U)g ^ 1);
  }
}
void __cxa_guard_abort(uint64_t *g) {
  if (me && locks().count((U)g ^ 1) && locks()[(U)g ^ 1].owner == me) unlock((U)g ^ 1);
}

// ---- locks -------------------------------------------------------------------------------------
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock((U)m, false, true); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return lock((U)m, false, false) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock((U)m); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  lock((U)o ^ 2, false, true);
  if (!*(int *)o) f(), *(int *)o = 2;
  unlock((U)o ^ 2);
  return 0;
}

// ---- OpenMP runtime ----------------------------------------------------------------------------
typedef unsigned long long ull;
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); return 1; }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock(1, false, true); }
void GOMP_critical_end() { unlock(1); }
void GOMP_critical_name_start(void **p) { lock((U)p, false, true); }
void GOMP_critical_name_end(void **p) { unlock((U)p); }
void GOMP_atomic_start() { lock(9, false, true); }
void GOMP_atomic_end() { unlock(9); }
bool GOMP_single_start() {
  NoLedger nl;
  ++self()->ws;
  sync_point();
  Work &w = work();
  if (w.single_taken) return false;
  return w.single_taken = true;
}
void *GOMP_single_copy_start() {
  NoLedger nl;
  ++self()->ws;
  sync_point();
  if (!work().single_taken) { work().single_taken = true; return nullptr; }
  barrier();
  return work().copy;
}
void GOMP_single_copy_end(void *d) { { NoLedger nl; work().copy = d; } barrier(); }
#define LOOP(name, kind)                                                                                                          \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, kind, a, b); }  \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); }                                                      \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, kind, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return loop_next((long *)a, (long *)b); }                                    \
  void GOMP_parallel_loop_##name(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(f, d, n, s, e, i, c, kind); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(name)                                                                                                              \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, 1, a, b); }            \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); }                                                      \
  void GOMP_parallel_loop_##name(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(f, d, n, s, e, i, 1, 1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*f)(void *), void *d, unsigned n, unsigned c, unsigned) { parallel_loop(f, d, n ? n : c, 1, (long)c + 1, 1, 1, 1); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
  if (cpy) {  // undeferred execution is always allowed
    char *buf = (char *)alloca(sz + al), *p = (char *)(((U)buf + al - 1) & ~(U)(al - 1));
    cpy(p, data);
    fn(p);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int  omp_get_thread_num() { return self()->idx; }
int  omp_get_num_threads() { return self()->team->n; }
int  omp_get_max_threads() { return env_threads; }
int  omp_get_num_procs() { return 8; }
int  omp_get_level() { return self()->team->level; }
int  omp_get_active_level() { int k = 0; for (Team *t = self()->team; t; t = t->parent) k += t->n > 1; return k; }
int  omp_in_parallel() { return omp_get_active_level() > 0; }
int  omp_get_thread_limit() { return 1 << 20; }
int  omp_get_dynamic() { return vary; }
int  omp_get_nested() { return nested; }
int  omp_get_max_active_levels() { return nested ? 8 : 1; }
void omp_set_max_active_levels(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n) { env_threads = n < 1 ? 1 : n; }
double omp_get_wtime() { return 1e-9 * fault::sim_clock_ns(); }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **) {}
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock((U)l, false, true); }
void omp_unset_lock(void **l) { unlock((U)l); }
int  omp_test_lock(void **l) { return lock((U)l, false, false); }
void omp_init_nest_lock(void **) {}
void omp_destroy_nest_lock(void **) {}
void omp_set_nest_lock(void **l) { lock((U)l, true, true); }
void omp_unset_nest_lock(void **l) { unlock((U)l); }
}
