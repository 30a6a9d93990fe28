// Core of the deterministic simulator: choice tape, per-run isolation, event hash, counters.
// One integer (seed, run index) decides an execution; every decision goes through choose().
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <string>

namespace sim {

// splitmix64: data generators derived from one tape entry
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t u64() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(u64() % n) : 0; }
  double   unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }  // [0,1)
  double   sym() { return 2.0 * unit() - 1.0; }
};

uint32_t choose(uint32_t n);                 // 0..n-1, 0 is the simplest choice
inline bool chance(uint32_t num, uint32_t den) {  // true with num/den; tape value 0 means false
  return choose(den) >= den - num;
}
inline int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }
template <class T>
inline T pick(std::initializer_list<T> l) { return *(l.begin() + choose((uint32_t)l.size())); }

bool tracing();
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void event(uint64_t v);                      // mixes into the event hash
void event_bytes(const void *p, size_t n);
void event_str(const char *s);
void sig(uint64_t v);                        // mixes into the "distinct run" signature
void nontrivial();                           // this run met the check's non-triviality rule
void count(const char *name, uint64_t v = 1);  // named counter (faults fired, probes, ops)
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // short description of the run (evidence sample)
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void set_context(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to violations and crash reports

typedef void (*RunFn)();
struct Register {
  Register(const char *prop, RunFn fn, RunFn warm = nullptr, unsigned weight = 1);
};
int main(int argc, char **argv);

// tape position, for harnesses that must know whether replaying
bool replaying();
}  // namespace sim
