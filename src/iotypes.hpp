// value type of each build of the file harnesses
#pragma once
#include "world.hpp"
#include "disk.hpp"
#include "mm.hpp"
namespace io {
#if CFG == 0
typedef double T;
#elif CFG == 1
typedef float T;
#elif CFG == 2
typedef std::complex<double> T;
#else
typedef std::complex<float> T;
#endif
typedef gen::Real<T>::type R;
const bool CPLX = gen::Real<T>::cplx;
inline void get(const T &v, R &a, R &b) { const R *p = (const R *)&v; a = p[0]; b = CPLX ? p[CPLX] : R(0); }
// a float may be rounded directly or by way of a double
inline bool denotes(R have, const std::string &t, bool neg) {
  R a = (R)strtod(t.c_str(), nullptr), b = sizeof(R) == 4 ? (R)strtof(t.c_str(), nullptr) : a;
  if (neg) { a = -a; b = -b; }
  return have == a || have == b;
}
inline bool entry_ok(const T &v, const mm::Text &t, int sign) {
  R a, b;
  get(v, a, b);
  if (!denotes(a, t.r, sign == mm::SKEW)) return false;
  return !CPLX || denotes(b, t.i, sign == mm::SKEW || sign == mm::HERM);
}
}  // namespace io
