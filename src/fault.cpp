#include "fault.hpp"

#include <chrono>
#include <cstdlib>
#include <cstring>
#include <new>

extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
namespace sched {  // only in the harnesses with simulated threads
void block_freed(void *, size_t) __attribute__((weak));
void block_allocated(void *, size_t) __attribute__((weak));
void point() __attribute__((weak));
}  // namespace sched
namespace fault {
int lib_depth = 0;
int enter_lib(int d) {
  int old   = lib_depth;
  lib_depth = d ? lib_depth + 1 : 0;
  return old;
}
void leave_lib(int d) { lib_depth = d < 0 ? lib_depth - 1 : d; }
namespace {
struct Rec { uintptr_t p; uint32_t lib : 1, kind : 2; uint64_t size; uint64_t serial; };
const uint32_t CAP = 1u << 20;
Rec      table[CAP];  // open addressing; p==0 empty, p==1 tombstone
uint64_t used = 0, tombs = 0, n_live = 0, b_live = 0, n_alloc = 0, serial = 0, max_req = 0;
bool     armed = false;
uint64_t arm_first, arm_len, fired = 0, limit = 256ull << 20;
int      fill_mode = FILL_CB;
sim::Rng fill_rng(7);

// freed blocks stay poisoned for a while, so a use after free is seen (cheaper than ASan's own quarantine)
struct Q { void *p; size_t n; };
const int QN = 256;
Q      ring[QN];
int    q_head = 0;
size_t q_bytes = 0;
void   release(Q &q) {
  if (!q.p) return;
  if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(q.p, q.n ? q.n : 1);
  q_bytes -= q.n;
  free(q.p);
  q.p = nullptr;
}
void quarantine(void *p, size_t n) {
  release(ring[q_head]);
  if (__asan_poison_memory_region) __asan_poison_memory_region(p, n ? n : 1);
  ring[q_head].p = p;
  ring[q_head].n = n;
  q_bytes += n;
  q_head = (q_head + 1) % QN;
  for (int i = 0; i < QN && q_bytes > (1u << 20); ++i) release(ring[(q_head + i) % QN]);
}
inline uint32_t slot(uintptr_t p) { return (uint32_t)((p >> 4) * 0x9E3779B1u) & (CAP - 1); }
void rehash_if_needed() {
  if (tombs < CAP / 3) return;
  Rec *old = (Rec *)malloc(sizeof table);
  memcpy(old, table, sizeof table);
  memset(table, 0, sizeof table);
  for (uint32_t i = 0; i < CAP; ++i)
    if (old[i].p > 1) {
      uint32_t s = slot(old[i].p);
      while (table[s].p) s = (s + 1) & (CAP - 1);
      table[s] = old[i];
    }
  tombs = 0;
  free(old);
}
void put(void *q, size_t n, int kind) {
  rehash_if_needed();
  if (used > CAP / 2) sim::violate("sim:ledger-full", "ledger capacity");
  uintptr_t p = (uintptr_t)q;
  uint32_t  s = slot(p);
  while (table[s].p > 1) s = (s + 1) & (CAP - 1);
  if (table[s].p == 1) --tombs;
  table[s].p    = p;
  table[s].lib  = lib_depth > 0;
  table[s].kind = kind;
  table[s].size = n;
  table[s].serial = serial++;
  ++used;
  if (lib_depth > 0) ++n_live, b_live += n;
}
Rec *find(void *q) {
  uintptr_t p = (uintptr_t)q;
  uint32_t  s = slot(p);
  while (table[s].p) {
    if (table[s].p == p) return &table[s];
    s = (s + 1) & (CAP - 1);
  }
  return nullptr;
}
void fill(void *q, size_t n) {
  unsigned char *c = (unsigned char *)q;
  switch (fill_mode) {
    case FILL_ZERO: memset(c, 0, n); break;
    case FILL_FF: memset(c, 0xff, n); break;
    case FILL_CB: memset(c, 0xcb, n); break;
    case FILL_RANDOM: {
      size_t i = 0;
      for (; i + 8 <= n; i += 8) { uint64_t v = fill_rng.u64(); memcpy(c + i, &v, 8); }
      for (; i < n; ++i) c[i] = (unsigned char)fill_rng.u64();
      break;
    }
    case FILL_SMALLINT:
      for (size_t i = 0; i + 4 <= n; i += 4) { uint32_t v = fill_rng.below(7); memcpy(c + i, &v, 4); }
      break;
    default:  // plausible doubles, as left by earlier use
      for (size_t i = 0; i + 8 <= n; i += 8) { double v = fill_rng.sym() * 3; memcpy(c + i, &v, 8); }
  }
}
}  // namespace

static bool deny(size_t n) {
  if (lib_depth <= 0) return false;
  uint64_t k = n_alloc++;
  if (n > max_req) max_req = n;
  if (armed && k >= arm_first && k - arm_first < arm_len) {
    ++fired;
    sim::count("fault.alloc_fail");
    return true;
  }
  if (n > limit) {
    sim::count("fault.alloc_over_limit");
    return true;
  }
  return false;
}
void *do_alloc(size_t n, int kind) {
  if (deny(n)) return nullptr;
  void *p = malloc(n ? n : 1);
  if (!p) return nullptr;
  fill(p, n);
  put(p, n, kind);
  if (sched::block_allocated) sched::block_allocated(p, n);
  return p;
}
void do_free(void *p, int kind) {
  if (!p) return;
  Rec *r = find(p);
  if (!r) {
    sim::violate("ledger:bad-free", "free of a pointer that is not a live block");
  }
  if ((int)r->kind != kind) sim::violate("ledger:mismatched-delete", "block allocated as kind %d freed as kind %d", (int)r->kind, kind);
  if (r->lib) --n_live, b_live -= r->size;
  size_t n = r->size;
  if (sched::block_freed) sched::block_freed(p, n);
  r->p = 1;
  ++tombs;
  --used;
  quarantine(p, n);
}
void     set_fill(int m, uint64_t s) { fill_mode = m; fill_rng = sim::Rng(s); }
uint64_t alloc_count() { return n_alloc; }
void     reset_alloc_count() { n_alloc = 0; max_req = 0; }
void     arm_alloc(uint64_t f, uint64_t l) { armed = true; arm_first = f; arm_len = l; fired = 0; n_alloc = 0; }
void     disarm_alloc() { armed = false; }
uint64_t alloc_faults_fired() { return fired; }
uint64_t live_blocks() { return n_live; }
uint64_t live_bytes() { return b_live; }
uint64_t max_request() { return max_req; }
void     set_alloc_limit(uint64_t b) { limit = b; }
void     dump_live(int maxn) {
  for (uint32_t i = 0; i < CAP && maxn > 0; ++i)
    if (table[i].p > 1 && table[i].lib) sim::log("  live block of %llu bytes, allocation serial %llu", (unsigned long long)table[i].size, (unsigned long long)table[i].serial), --maxn;
}
bool owns(const void *p) { return find((void *)p) != nullptr; }

// ---------------- LAPACK
namespace {
uint64_t l_calls = 0, l_first = 0, l_len = 0, l_fired = 0;
bool     l_armed = false;
int      l_info = 0, l_bad = 0;
const char *l_name = "";
bool inject(const char *name, void *info, const void *lwork = nullptr) {
  if (lib_depth <= 0) return false;
  if (sched::point) sched::point();
  uint64_t k = l_calls++;
  // positive results exist for these routines only, and not for work space queries
  if (l_info > 0 && l_armed) {
    bool eig = strstr(name, "syev") || strstr(name, "heev");
    if (!eig && !strstr(name, "getrf_")) return false;
    if (eig && lwork && *(const int *)lwork == -1) return false;
  }
  if (l_armed && k >= l_first && k - l_first < l_len) {
    ++l_fired;
    l_name       = name;
    *(int *)info = l_info;
    char b[40];
    snprintf(b, sizeof b, "fault.lapack.%s", name);
    sim::count(b);
    return true;
  }
  return false;
}
}  // namespace
uint64_t lapack_calls() { return l_calls; }
void     reset_lapack() { l_calls = 0; }
void     arm_lapack(uint64_t f, uint64_t l, int info) { l_armed = true; l_first = f; l_len = l; l_info = info; l_fired = 0; l_calls = 0; }
void     disarm_lapack() { l_armed = false; }
uint64_t lapack_faults_fired() { return l_fired; }
const char *last_lapack_fault() { return l_name; }
int      lapack_bad_args() { return l_bad; }

// ---------------- clock
namespace {
int      c_mode = 0;
int64_t  c_now = 1700000000ll * 1000000000ll, c_span = 0;
uint64_t c_reads = 0;
sim::Rng c_rng(3);
}  // namespace
void    set_clock_mode(int m, uint64_t s) { c_mode = m; c_rng = sim::Rng(s); }
int64_t sim_clock_ns() { return c_now; }
int64_t clock_span_ns() { return c_span; }
uint64_t clock_reads() { return c_reads; }
static int64_t tick() {
  ++c_reads;
  int64_t d = 1000;
  switch (c_mode) {
    case 1: d = -(int64_t)(c_rng.below(1000000000)); break;
    case 2: d = (int64_t)(c_rng.u64() % (2000000000000000ull)) - 1000000000000000ll; sim::count("fault.clock_jump"); break;
    case 3: d = 0; break;
    default: d = 1000 + c_rng.below(1000000);
  }
  if (c_mode == 1) sim::count("fault.clock_backwards");
  c_now += d;
  c_span += d < 0 ? -d : d;
  return c_now;
}

// ---------------- sinks
namespace {
uint64_t s_calls = 0, s_first = 0, s_len = 0, s_fired = 0;
bool     s_armed = false;
}  // namespace
uint64_t sink_calls() { return s_calls; }
void     reset_sink() { s_calls = 0; }
void     arm_sink(uint64_t f, uint64_t l) { s_armed = true; s_first = f; s_len = l; s_calls = 0; s_fired = 0; }
void     disarm_sink() { s_armed = false; }
uint64_t sink_faults_fired() { return s_fired; }
void     sink(int which, const char *msg) {
  Outside o;
  uint64_t k = s_calls++;
  volatile size_t n = strlen(msg);  // touch the whole message
  (void)n;
  (void)which;
  if (s_armed && k >= s_first && k - s_first < s_len) {
    ++s_fired;
    sim::count("fault.sink_throw");
    throw SinkError();
  }
}
void disarm_all() { disarm_alloc(); disarm_lapack(); disarm_sink(); }
void save(Ctx &c) {
  c.a[0] = n_alloc, c.a[1] = max_req, c.a[2] = arm_first, c.a[3] = arm_len, c.a[4] = fired;
  c.armed = armed, c.l_armed = l_armed, c.s_armed = s_armed;
  c.l[0] = l_calls, c.l[1] = l_first, c.l[2] = l_len, c.l[3] = l_fired, c.l_info = l_info, c.l_name = l_name;
  c.s[0] = s_calls, c.s[1] = s_first, c.s[2] = s_len, c.s[3] = s_fired;
}
void restore(const Ctx &c) {
  n_alloc = c.a[0], max_req = c.a[1], arm_first = c.a[2], arm_len = c.a[3], fired = c.a[4];
  armed = c.armed, l_armed = c.l_armed, s_armed = c.s_armed;
  l_calls = c.l[0], l_first = c.l[1], l_len = c.l[2], l_fired = c.l[3], l_info = c.l_info, l_name = c.l_name;
  s_calls = c.s[0], s_first = c.s[1], s_len = c.s[2], s_fired = c.s[3];
}
}  // namespace fault

// ---- replaced global allocation functions --------------------------------------------------
void *operator new(size_t n) { void *p = fault::do_alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = fault::do_alloc(n, 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fault::do_alloc(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fault::do_alloc(n, 1); }
void  operator delete(void *p) noexcept { fault::do_free(p, 0); }
void  operator delete[](void *p) noexcept { fault::do_free(p, 1); }
void  operator delete(void *p, size_t) noexcept { fault::do_free(p, 0); }
void  operator delete[](void *p, size_t) noexcept { fault::do_free(p, 1); }
void  operator delete(void *p, const std::nothrow_t &) noexcept { fault::do_free(p, 0); }
void  operator delete[](void *p, const std::nothrow_t &) noexcept { fault::do_free(p, 1); }

#ifdef SIM_WRAP_MALLOC
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void  __real_free(void *);
void *__wrap_malloc(size_t n) {
  if (fault::lib_depth <= 0) return __real_malloc(n);
  return fault::do_alloc(n, 2);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (fault::lib_depth <= 0) return __real_calloc(a, b);
  void *p = fault::do_alloc(a * b, 2);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (p && fault::owns(p)) return fault::do_free(p, 2);
  __real_free(p);
}
}
#endif

// ---- clock ---------------------------------------------------------------------------------
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration_cast<duration>(nanoseconds(fault::tick())));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration_cast<duration>(nanoseconds(fault::tick())));
}
}}}

// ---- LAPACK --------------------------------------------------------------------------------
extern "C" {
typedef void *V;
void xerbla_(const char *name, int *info, int) {
  if (fault::lib_depth > 0) {
    ++fault::l_bad;
    sim::count("probe.lapack_bad_argument");
  }
  (void)name; (void)info;
}
#define W6(f) void __real_##f(V,V,V,V,V,V); void __wrap_##f(V a,V b,V c,V d,V e,V i){ if(fault::inject(#f,i)) return; __real_##f(a,b,c,d,e,i);} 
#define W9(f) void __real_##f(V,V,V,V,V,V,V,V,V); void __wrap_##f(V a,V b,V c,V d,V e,V g,V h,V j,V i){ if(fault::inject(#f,i,j)) return; __real_##f(a,b,c,d,e,g,h,j,i);} 
#define W10(f) void __real_##f(V,V,V,V,V,V,V,V,V,V); void __wrap_##f(V a,V b,V c,V d,V e,V g,V h,V j,V k,V i){ if(fault::inject(#f,i,j)) return; __real_##f(a,b,c,d,e,g,h,j,k,i);} 
#define W13(f) void __real_##f(V,V,V,V,V,V,V,V,V,V,V,V,V); void __wrap_##f(V a,V b,V c,V d,V e,V g,V h,V j,V k,V l,V m,V n,V i){ if(fault::inject(#f,i)) return; __real_##f(a,b,c,d,e,g,h,j,k,l,m,n,i);} 
#ifndef SIM_NO_LAPACK
W6(dgetrf_) W6(sgetrf_) W6(zgetrf_) W6(cgetrf_)
W9(dgetrs_) W9(sgetrs_) W9(zgetrs_) W9(cgetrs_)
W9(dgeqp3_) W9(sgeqp3_) W10(zgeqp3_) W10(cgeqp3_)
W10(dtrcon_) W10(strcon_) W10(ztrcon_) W10(ctrcon_)
W13(dormqr_) W13(sormqr_) W13(zunmqr_) W13(cunmqr_)
W9(dsyev_) W9(ssyev_) W10(zheev_) W10(cheev_)
#endif
}
