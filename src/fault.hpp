// Fault seams shared by the single-task harnesses: allocator, LAPACK, clock, message sinks.
#pragma once
#include <cstddef>
#include <cstdint>

#include "sim.hpp"

namespace fault {

// ---- "inside the library" marker: faults fire and allocations are attributed only there -----
extern int lib_depth;
int  enter_lib(int d);  // out of line: harness bookkeeping is not instrumented for the thread scheduler
void leave_lib(int d);
struct Lib {
  Lib() { enter_lib(1); }
  ~Lib() { leave_lib(-1); }
};
struct Outside {  // user code called back from the library
  int saved;
  Outside() : saved(enter_lib(0)) {}
  ~Outside() { leave_lib(saved); }
};

// ---- allocator ----------------------------------------------------------------------------
enum Fill { FILL_ZERO = 0, FILL_FF, FILL_CB, FILL_RANDOM, FILL_SMALLINT, FILL_BIGIDX };
void     set_fill(int mode, uint64_t seed);
uint64_t alloc_count();          // library allocations since the last reset
void     reset_alloc_count();
void     arm_alloc(uint64_t first, uint64_t len);  // fail library allocations number first..first+len-1 (0-based)
void     disarm_alloc();
uint64_t alloc_faults_fired();   // since arm
uint64_t live_blocks();          // live blocks that were allocated inside the library
uint64_t live_bytes();
uint64_t max_request();          // largest library request since reset
void     set_alloc_limit(uint64_t bytes);  // simulated memory size: larger requests fail (default 256 MB)
void     dump_live(int maxn);
struct Block { void *p; size_t size; };
bool owns(const void *p);        // p lies at the start of a live block

// ---- LAPACK -------------------------------------------------------------------------------
uint64_t lapack_calls();
void     reset_lapack();
void     arm_lapack(uint64_t first, uint64_t len, int info);  // calls first.. return this info
void     disarm_lapack();
uint64_t lapack_faults_fired();
const char *last_lapack_fault();  // name of the routine that failed
int  lapack_bad_args();          // xerbla calls not injected by us

// ---- clock --------------------------------------------------------------------------------
void    set_clock_mode(int mode, uint64_t seed);  // 0 steady, 1 backwards, 2 jumps, 3 frozen
int64_t sim_clock_ns();
int64_t clock_span_ns();          // simulated time that passed
uint64_t clock_reads();

// ---- message sinks ------------------------------------------------------------------------
struct SinkError {};              // thrown by a failing sink
uint64_t sink_calls();
void     reset_sink();
void     arm_sink(uint64_t first, uint64_t len);
void     disarm_sink();
uint64_t sink_faults_fired();
void     sink(int which, const char *msg);

void disarm_all();

// everything above that belongs to one caller; the thread scheduler switches it with the caller
struct Ctx { uint64_t a[6]; bool armed, l_armed, s_armed; uint64_t l[4]; int l_info; const char *l_name; uint64_t s[4]; };
void save(Ctx &);
void restore(const Ctx &);
}  // namespace fault
