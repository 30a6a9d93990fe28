// A small world around one preconditioner type: user-owned matrices, objects, guarded calls and result capture.
#pragma once
#include <array>
#include <functional>
#include <new>
#include <stdexcept>

#include "matgen.hpp"

namespace world {
using fault::Lib;

struct UserError { int code; };  // raised by simulated user callbacks

enum Status { OK = 0, ERR, NOMEM, SINK, USER, OTHER };
inline const char *sname(int s) { static const char *n[] = {"ok", "error", "bad_alloc", "sink-error", "user-error", "other-exception"}; return n[s]; }

struct Call { int status; char what[200]; int code; bool ok() const { return status == OK; } };
template <class F>
inline Call guarded(F f) {
  Call c;
  c.status = OK;
  c.what[0] = 0;
  c.code = 0;
  try {
    Lib l;
    f();
  } catch (const fault::SinkError &) { c.status = SINK;
  } catch (const UserError &u) { c.status = USER; c.code = u.code;
  } catch (const std::bad_alloc &) { c.status = NOMEM;
  } catch (const std::exception &e) { c.status = ERR; 
    const char *m = strstr(e.what(), "message: ");
    snprintf(c.what, sizeof c.what, "%s", m ? m + 9 : e.what());
    if (char *nl = strchr(c.what, '\n')) *nl = 0;
  } catch (...) { c.status = OTHER; }
  return c;
}

template <class T> inline double tol_of() { return sizeof(typename gen::Real<T>::type) == 4 ? 2e-4 : 1e-9; }

template <class T>
inline bool same_bits(const T *a, const T *b, size_t n) {
  typedef typename gen::Real<T>::type R;
  const R *x = (const R *)a, *y = (const R *)b;
  n *= sizeof(T) / sizeof(R);
  for (size_t i = 0; i < n; ++i)
    if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return false;
  return true;
}
// equal up to rounding: non-finite patterns must agree, finite values within tol of the largest magnitude
template <class T>
inline bool close(const T *a, const T *b, size_t n, double tol, double *err = nullptr) {
  if (same_bits(a, b, n)) { if (err) *err = 0; return true; }
  double m = 0, d = 0;
  for (size_t i = 0; i < n; ++i) {
    bool fa = std::isfinite(gen::mag(a[i])), fb = std::isfinite(gen::mag(b[i]));
    if (fa != fb) { if (err) *err = 1e300; return false; }
    if (!fa) continue;
    m = std::max(m, std::max(gen::mag(a[i]), gen::mag(b[i])));
    d = std::max(d, gen::mag(a[i] - b[i]));
  }
  if (err) *err = m > 0 ? d / m : 0;
  return d <= tol * m;
}

template <class V, class I, class P, template <class> class D = hif::DefaultDenseSolver>
struct Cfg {
  typedef V                         T;
  typedef I                         Int;
  typedef P                         Ptr;
  typedef hif::HIF<V, I, P, D>      prec;
  typedef typename prec::crs_type   crs;
  typedef typename prec::ccs_type   ccs;
  typedef gen::Store<V, I, P>       store;
  typedef hif::Array<V>             arr;
};

// A wrapped user matrix plus factorize dispatch
template <class C>
inline Call factorize(typename C::prec &M, typename C::store &A, const hif::Params &p, size_t m0) {
  typedef typename C::T T;
  typedef typename C::Int I;
  typedef typename C::Ptr P;
  // the wrapper belongs to the caller: built outside of the simulated library call
  if (A.row_major) {
    typename C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
    return guarded([&] { M.factorize(W, p, m0); });
  }
  typename C::ccs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
  return guarded([&] { M.factorize(W, p, m0); });
}

template <class T>
inline std::vector<T> rhs(uint32_t seed, size_t n) {
  sim::Rng r(seed + 99);
  std::vector<T> b(n);
  for (auto &x : b) { double p = r.sym(), q = r.sym(); x = gen::Real<T>::make(p, q); }
  return b;
}

// -------- one apply operation, described by value so it can be repeated on another object --------
enum OpKind { OP_SOLVE, OP_TSOLVE, OP_MULT, OP_TMULT, OP_MRHS2, OP_MRHS3, OP_HIFIR, OP_THIFIR, OP_HIFIRB, OP_MRHS1, OP_NKINDS };
inline const char *opname(int k) { static const char *n[] = {"solve", "solve^H", "mmultiply", "mmultiply^H", "solve_mrhs<2>", "solve_mrhs<3>", "hifir", "hifir^H", "hifir(betas)", "solve_mrhs<1>"}; return n[k]; }
struct Op {
  int      kind = 0, iters = 1;
  uint32_t seed = 0;
  size_t   r = 0;
  double   betas[2] = {1e-6, 10};
  bool     up = false;  // higher-precision / other vector type
};
inline Op draw_op(int n, bool allow_r = true) {
  Op o;
  o.kind = (int)sim::choose(OP_NKINDS);
  o.seed = sim::choose(1000);
  if (allow_r && sim::chance(1, 4)) o.r = sim::choose((uint32_t)n + 1);
  o.iters = 1 + (int)sim::choose(4);
  o.betas[0] = sim::pick<double>({1e-6, 1e-12, 0.5});
  o.betas[1] = sim::pick<double>({10, 0.9, 1e300});
  o.up = sim::chance(1, 4);
#if CFG >= 4
  if (o.kind == OP_MULT || o.kind == OP_TMULT) o.kind -= 2;
#endif
  return o;
}
template <class V> inline char tag_of() { return sizeof(typename gen::Real<V>::type) == 4 ? 's' : 'd'; }  // documented type tags
template <class T> struct Up { typedef T type; };
template <> struct Up<float> { typedef double type; };
template <> struct Up<std::complex<float>> { typedef std::complex<double> type; };

template <class T>
struct Out { Call call; std::vector<T> x; size_t iters = 0; int flag = 0; };

template <class C, class VT, class Mat>
inline Call apply_vec(typename C::prec &M, const Mat &A, const Op &o, std::vector<VT> &b, std::vector<VT> &x, size_t &iters, int &flag) {
  size_t n = b.size();
  const hif::Array<VT> B(n, b.data(), true);
  hif::Array<VT>       X(n, x.data(), true);
  return guarded([&] {
    switch (o.kind) {
      case OP_SOLVE: M.solve(B, X, false, o.r); break;
      case OP_TSOLVE: M.solve(B, X, true, o.r); break;
#if CFG < 4  // LUP as last-level solver has no in-place product
      case OP_MULT: M.mmultiply(B, X, false, o.r); break;
      case OP_TMULT: M.mmultiply(B, X, true, o.r); break;
#endif
      case OP_HIFIR: M.hifir(A, B, (size_t)o.iters, X, false, o.r); break;
      case OP_THIFIR: M.hifir(A, B, (size_t)o.iters, X, true, o.r); break;
      default: {
        auto pr = M.hifir(A, B, (size_t)o.iters, o.betas, X, (o.seed & 1) != 0, o.r);
        iters = pr.first;
        flag  = pr.second;
      }
    }
  });
}
template <size_t N, class C>
inline Call apply_mrhs(typename C::prec &M, const Op &o, size_t n, std::vector<typename C::T> &b, std::vector<typename C::T> &x) {
  typedef typename C::T T;
  typedef std::array<T, N> E;
  const hif::Array<E> B(n, (E *)b.data(), true);
  hif::Array<E>       X(n, (E *)x.data(), true);
  return guarded([&] { M.solve_mrhs(B, X, o.r); });
}
inline int op_cols(int kind) { return kind == OP_MRHS2 ? 2 : kind == OP_MRHS3 ? 3 : 1; }

// runs op o on M; A is the user's matrix (for refinement); n is the vector length
template <class C>
inline Out<std::complex<double>> apply(typename C::prec &M, typename C::store &A, const Op &o, size_t n) {
  typedef typename C::T T;
  Out<std::complex<double>> R;
  auto finish = [&](auto &x) { R.x.resize(x.size()); for (size_t i = 0; i < x.size(); ++i) R.x[i] = std::complex<double>(x[i]); };
  if (o.kind == OP_MRHS1 || o.kind == OP_MRHS2 || o.kind == OP_MRHS3) {
    size_t nc = op_cols(o.kind);
    std::vector<T> b = rhs<T>(o.seed, n * nc), x(n * nc, T(-7));
    b.reserve(1); x.reserve(1);
    if (o.kind == OP_MRHS1) R.call = apply_mrhs<1, C>(M, o, n, b, x);
    else if (o.kind == OP_MRHS2) R.call = apply_mrhs<2, C>(M, o, n, b, x);
    else R.call = apply_mrhs<3, C>(M, o, n, b, x);
    if (R.call.ok()) finish(x);
    return R;
  }
  auto go = [&](auto zero) {
    typedef decltype(zero) VT;
    std::vector<VT> b = rhs<VT>(o.seed, n), x(n, VT(-7));
    if (A.row_major) {
      const typename C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
      R.call = apply_vec<C, VT>(M, W, o, b, x, R.iters, R.flag);
    } else {
      const typename C::ccs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
      R.call = apply_vec<C, VT>(M, W, o, b, x, R.iters, R.flag);
    }
    if (R.call.ok()) finish(x);
  };
  if (o.up && sizeof(typename Up<T>::type) != sizeof(T)) go(typename Up<T>::type(0));
  else go(T(0));
  return R;
}

// ---- queries of an object ------------------------------------------------------------------
struct Queries {
  bool empty; size_t levels, nnz, nnz_ef, nnz_ldu, rank, schur_rank, schur_size, nrows, ncols; int stats_status; size_t stats[6];
  bool operator==(const Queries &o) const {
    bool e = empty == o.empty && levels == o.levels && nnz == o.nnz && nnz_ef == o.nnz_ef && nnz_ldu == o.nnz_ldu && rank == o.rank &&
             schur_rank == o.schur_rank && schur_size == o.schur_size && nrows == o.nrows && ncols == o.ncols && stats_status == o.stats_status;
    for (int i = 0; e && stats_status == OK && i < 6; ++i) e = stats[i] == o.stats[i];
    return e;
  }
  std::string str() const {
    char b[300];
    snprintf(b, sizeof b, "empty=%d levels=%zu nnz=%zu nnz_ef=%zu ldu=%zu rank=%zu schur=%zu/%zu n=%zux%zu stats(%s)=%zu,%zu,%zu,%zu,%zu,%zu", empty, levels, nnz, nnz_ef, nnz_ldu, rank, schur_rank, schur_size, nrows, ncols, sname(stats_status), stats[0], stats[1], stats[2], stats[3], stats[4], stats[5]);
    return b;
  }
};
template <class C>
inline Queries query(typename C::prec &M) {
  Queries q;
  memset((void *)&q, 0, sizeof q);
  Call c0 = guarded([&] {
    q.empty = M.empty(); q.levels = M.levels(); q.nnz = M.nnz(); q.nnz_ef = M.nnz_ef(); q.nnz_ldu = M.nnz_ldu();
    q.rank = M.rank(); q.schur_rank = M.schur_rank(); q.schur_size = M.schur_size(); q.nrows = M.nrows(); q.ncols = M.ncols();
  });
  if (!c0.ok()) sim::violate("query:throws", "a size query raised %s", sname(c0.status));
  Call c = guarded([&] { for (int i = 0; i < 6; ++i) q.stats[i] = M.stats((size_t)i); });
  q.stats_status = c.status;
  return q;
}
template <class C>
inline std::unique_ptr<typename C::prec> make() {
  Lib l;
  return std::unique_ptr<typename C::prec>(new typename C::prec());
}
template <class C>
inline void drop(std::unique_ptr<typename C::prec> &p) {
  Lib l;
  p.reset();
}
struct Fact { gen::Spec spec; bool row; int base; hif::Params par; size_t m0; };
inline Fact draw_fact(int maxn, bool verbose = true) {
  Fact f;
  f.spec = gen::draw_spec(maxn);
  f.row  = !sim::chance(1, 3);
  f.base = sim::chance(1, 5);
  f.par  = gen::draw_params(gen::symmetric_kind(f.spec.kind), verbose);
  f.m0   = 0;
  if (gen::symmetric_kind(f.spec.kind) && sim::chance(1, 3)) f.m0 = 1 + sim::choose(f.spec.n);
  return f;
}
inline void log_fact(const char *who, const Fact &f) {
  sim::log("%s: matrix %s n=%d seed=%u %s base=%d m0=%zu", who, gen::kind_name(f.spec.kind), f.spec.n, f.spec.seed, f.row ? "CRS" : "CCS", f.base, f.m0);
  if (sim::tracing()) gen::describe_params(f.par);
}
inline bool out_equal(const Out<std::complex<double>> &a, const Out<std::complex<double>> &b, double tol, double *err) {
  *err = 0;
  if (a.call.status != b.call.status) return false;
  if (!a.call.ok()) return true;
  if (a.iters != b.iters || a.flag != b.flag || a.x.size() != b.x.size()) return false;
  return close(a.x.data(), b.x.data(), a.x.size(), tol, err);
}
// draw and arm one fault kind for the coming library call; returns a name or nullptr
inline const char *arm_fault(bool fact, uint64_t allocs_hint) {
  switch (sim::choose(4)) {
    case 1: {
      uint64_t k = sim::choose((uint32_t)std::max<uint64_t>(1, allocs_hint));
      fault::arm_alloc(k, sim::pick<int>({1, 1, 1000000}));
      return "alloc";
    }
    case 2: fault::arm_lapack(sim::choose(fact ? 4 : 3), sim::pick<int>({1, 1000}), -(int)(1 + sim::choose(5))); return "lapack";
    case 3: if (!fact) return nullptr; fault::arm_sink(sim::choose(40), 1); return "sink";
  }
  return nullptr;
}
inline uint64_t faults_fired() { return fault::alloc_faults_fired() + fault::lapack_faults_fired() + fault::sink_faults_fired(); }

// configurations compiled into this binary (one translation unit each)
template <class T> struct UseLUP { typedef hif::LUP<T> unsymm_solver_type; typedef void symm_solver_type; };
#if CFG == 0
typedef Cfg<double, int, std::ptrdiff_t> C0;
#elif CFG == 1
typedef Cfg<std::complex<double>, int, int> C0;
#elif CFG == 2
typedef Cfg<float, long, long> C0;
#elif CFG == 3
typedef Cfg<std::complex<float>, long, std::ptrdiff_t> C0;
#elif CFG == 4
typedef Cfg<double, long, long, UseLUP> C0;
#elif CFG == 5
typedef Cfg<std::complex<double>, long, long, UseLUP> C0;
#endif
}  // namespace world
namespace world {
// Enumerates fault points 0..n-1, all of them when n <= cap, else every stride-th from a drawn offset.
template <class F>
inline void enumerate(uint64_t n, uint64_t cap, F f) {
  uint32_t off = sim::choose(1u << 12);
  if (!n) return;
  uint64_t stride = (n + cap - 1) / cap;
  for (uint64_t k = off % stride; k < n; k += stride) f(k);
}
}  // namespace world
