// The C interface compiled into the harness, and its functions by type.
#pragma once
// One translation unit per integer width; the C functions are made local to it after compilation.
#if CFG == 0
#define LIBHIFIR_INT_SIZE 32
#else
#define LIBHIFIR_INT_SIZE 64
#endif
#include <cstdlib>
#include "disk.hpp"
#include "world.hpp"
namespace std {  // the handles come from the simulated heap
inline void *sim_malloc(size_t n) { return ::operator new(n, nothrow); }
inline void  sim_free(void *p) { ::operator delete(p); }
}
using std::sim_malloc;
using std::sim_free;
#define malloc sim_malloc
#define free sim_free
#include "../libhifir/src/libhifir.cpp"
#undef malloc
#undef free

namespace {
template <class T> struct Api;
#define LHF_API(D, V, CV)                                                                                                             \
  template <> struct Api<V> {                                                                                                         \
    typedef CV CT; typedef Lhf##D##MatrixHdl Mat; typedef Lhf##D##HifHdl Hif;                                                         \
    static Mat mcreate(int r, size_t n, const LhfIndPtr *p, const LhfInt *i, const V *v) { return lhf##D##CreateMatrix(r, n, p, i, (const CT *)v); } \
    static LhfStatus mdestroy(Mat m) { return lhf##D##DestroyMatrix(m); }                                                             \
    static size_t msize(Mat m) { return lhf##D##GetMatrixSize(m); }                                                                   \
    static size_t mnnz(Mat m) { return lhf##D##GetMatrixNnz(m); }                                                                     \
    static LhfStatus mwrap(Mat m, size_t n, const LhfIndPtr *p, const LhfInt *i, const V *v) { return lhf##D##WrapMatrix(m, n, p, i, (const CT *)v); } \
    static LhfStatus read(const char *f, Mat m) { return lhf##D##ReadSparse(f, m); }                                                  \
    static LhfStatus readv(const char *f, size_t n, V *v) { return lhf##D##ReadVector(f, n, (CT *)v); }                               \
    static Hif create(Mat A, Mat S, const double *p) { return lhf##D##Create(A, S, p); }                                              \
    static LhfStatus destroy(Hif h) { return lhf##D##Destroy(h); }                                                                    \
    static LhfStatus setup(Hif h, Mat A, Mat S, const double *p) { return lhf##D##Setup(h, A, S, p); }                                \
    static LhfStatus update(Hif h, Mat A) { return lhf##D##Update(h, A); }                                                            \
    static LhfStatus refactorize(Hif h, Mat S, const double *p) { return lhf##D##Refactorize(h, S, p); }                              \
    static LhfStatus apply(Hif h, LhfOperationType o, const V *b, int n, const double *be, int r, V *x, int *st) { return lhf##D##Apply(h, o, (const CT *)b, n, be, r, (CT *)x, st); } \
    static LhfStatus solve(Hif h, const V *b, V *x) { return lhf##D##Solve(h, (const CT *)b, (CT *)x); }                              \
    static LhfStatus stats(Hif h, size_t *s) { return lhf##D##GetStats(h, s); }                                                       \
    static size_t nnz(Hif h) { return lhf##D##GetNnz(h); }                                                                            \
    static size_t levels(Hif h) { return lhf##D##GetLevels(h); }                                                                      \
    static size_t ssize(Hif h) { return lhf##D##GetSchurSize(h); }                                                                    \
    static size_t srank(Hif h) { return lhf##D##GetSchurRank(h); }                                                                    \
  };
LHF_API(d, double, double)
LHF_API(s, float, float)
LHF_API(z, std::complex<double>, double _Complex)
LHF_API(c, std::complex<float>, float _Complex)
// mixed precision: U is the type of vectors and of the operator
template <class T> struct Mix {
  typedef T U;
  static const bool has = false;
  static LhfStatus update(typename Api<T>::Hif, typename Api<U>::Mat) { return LHF_SUCCESS; }
  static LhfStatus apply(typename Api<T>::Hif, LhfOperationType, const U *, int, const double *, int, U *, int *) { return LHF_SUCCESS; }
  static LhfStatus solve(typename Api<T>::Hif, const U *, U *) { return LHF_SUCCESS; }
};
#define LHF_MIX(D, V, W)                                                                                                               \
  template <> struct Mix<V> {                                                                                                          \
    typedef W U; typedef Api<W>::CT CT; static const bool has = true;                                                                  \
    static LhfStatus update(Api<V>::Hif h, Api<W>::Mat m) { return lhf##D##Update(h, m); }                                             \
    static LhfStatus apply(Api<V>::Hif h, LhfOperationType o, const W *b, int n, const double *be, int r, W *x, int *st) { return lhf##D##Apply(h, o, (const CT *)b, n, be, r, (CT *)x, st); } \
    static LhfStatus solve(Api<V>::Hif h, const W *b, W *x) { return lhf##D##Solve(h, (const CT *)b, (CT *)x); }                       \
  };
LHF_MIX(sd, float, double)
LHF_MIX(cz, std::complex<float>, std::complex<double>)
}  // namespace
