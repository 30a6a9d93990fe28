// C02: threaded products equal the serial ones under any team and schedule.
#include "world.hpp"
#include "sched.hpp"
#include <omp.h>
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef C::Int I;
typedef C::Ptr P;
#define BAD(cls, ...) sim::violate("C02:" cls, __VA_ARGS__)

struct Mat {  // compressed rows, any shape
  size_t r = 0, c = 0;
  std::vector<P> ptr;
  std::vector<I> ind;
  std::vector<T> val;
  double maxrow = 0;
};
Mat draw_mat() {
  Mat A;
  int shape = sim::choose(4);
  double avg;
  if (shape == 0) {         // short and wide, dense rows
    A.r = 1 + sim::choose(40);
    A.c = 22 + sim::choose(50);
    avg = 21 + sim::choose((uint32_t)A.c - 21);
  } else if (shape == 1) {  // long, few entries per row
    A.r = 1000 + sim::choose(100);
    A.c = 1 + sim::choose(30);
    avg = 0.5 + sim::choose(4);
  } else if (shape == 2) {  // around the switch to threads
    A.r = 990 + sim::choose(20);
    A.c = 25 + sim::choose(5);
    avg = 1 + sim::choose(4);
  } else {                  // square
    A.r = A.c = 24 + sim::choose(40);
    avg = A.c;
  }
  sim::Rng g(1 + sim::choose(1 << 16));
  bool ragged = sim::chance(1, 3);
  A.ptr.push_back(0);
  std::vector<char> used(A.c);
  for (size_t i = 0; i < A.r; ++i) {
    size_t k = (size_t)(avg + (ragged ? avg * 0.9 * g.sym() : 0) + g.unit());
    if (ragged && g.below(5) == 0) k = 0;
    if (k > A.c) k = A.c;
    double s = 0;
    std::fill(used.begin(), used.end(), 0);
    for (size_t e = 0; e < k; ++e) {
      size_t j = k == A.c ? e : g.below((uint32_t)A.c);
      if (used[j]++) continue;
      double a = g.sym(), b = g.sym();
      A.ind.push_back((I)j);
      A.val.push_back(gen::Real<T>::make(a, b));
      s += gen::mag(A.val.back());
    }
    A.maxrow = std::max(A.maxrow, s);
    A.ptr.push_back((P)A.ind.size());
  }
  A.ind.reserve(1), A.val.reserve(1);
  sim::sig(shape);
  return A;
}
template <class V> double eps_of() { return sizeof(typename gen::Real<V>::type) == 4 ? 1e-4 : 1e-11; }
const size_t G = 8;  // guard entries on both sides

struct Plan { int kind = 0; bool wide = false; uint32_t seed = 1; };
enum { VEC, VEC_LOW, MRHS2, MRHS3, MRHS3_LOW, MRHS7, NK };
const char *pname(int k) { static const char *n[] = {"multiply_nt", "multiply_nt_low", "multiply_mrhs_nt<2>", "multiply_mrhs_nt<3>", "multiply_mrhs_nt_low<3>", "multiply_mrhs_nt<7>"}; return n[k]; }

// one product, repeated with more than one right-hand side per row when N>1; y is checked by the caller
template <size_t N, class X, class Y>
struct Job {
  typedef std::array<X, N> XA;
  typedef std::array<Y, N> YA;
  const Mat *A;
  std::vector<XA> x, x0;
  std::vector<YA> y;
  Call c;
  void prepare(const Mat &M, uint32_t seed) {
    A = &M;
    sim::Rng g(seed);
    x.resize(M.c + 2 * G);
    for (auto &r : x) for (auto &v : r) { double a = g.sym(), b = g.sym(); v = gen::Real<X>::make(a, b); }
    x0 = x;
    y.resize(M.r + 2 * G);
    memset((void *)y.data(), 0x7f, y.size() * sizeof(YA));  // a huge value in every entry
  }
  template <class Crs>
  void call(const Crs &W, bool low) { call_(W, low, std::integral_constant<bool, N == 1>()); }
  template <class Crs>
  void call_(const Crs &W, bool low, std::true_type) {
    if (low) c = guarded([&] { hif::mt::multiply_nt_low(W, (const X *)x[G].data(), y[G].data()); });
    else {
      hif::Array<X> xa(A->c, x[G].data(), true);
      hif::Array<Y> ya(A->r, y[G].data(), true);
      c = guarded([&] { hif::mt::multiply_nt(W, xa, ya); });
    }
  }
  template <class Crs>
  void call_(const Crs &W, bool low, std::false_type) {
    if (low) c = guarded([&] { hif::mt::multiply_mrhs_nt_low<N>(W, (const X *)x[G].data(), y[G].data()); });
    else {
      hif::Array<XA> xa(A->c, &x[G], true);
      hif::Array<YA> ya(A->r, &y[G], true);
      c = guarded([&] { hif::mt::multiply_mrhs_nt(W, xa, ya); });
    }
  }
  void check(const char *what) {
    if (!c.ok()) BAD("status", "%s ended with %s %s", what, sname(c.status), c.what);
    if (memcmp(x.data(), x0.data(), x.size() * sizeof(XA))) BAD("input-changed", "%s changed its input vector", what);
    for (size_t i = 0; i < y.size(); ++i) {
      bool in = i >= G && i < G + A->r;
      const unsigned char *b = (const unsigned char *)&y[i];
      if (!in) {
        for (size_t k = 0; k < sizeof(YA); ++k)
          if (b[k] != 0x7f) BAD("outside", "%s wrote outside the output vector, entry %ld of %zu", what, (long)i - (long)G, A->r);
        continue;
      }
      size_t r = i - G;
      for (size_t k = 0; k < N; ++k) {
        std::complex<long double> s = 0;
        long double m = 0;
        for (P e = A->ptr[r]; e < A->ptr[r + 1]; ++e) {
          std::complex<long double> a(A->val[e]), v(x[G + (size_t)A->ind[e]][k]);
          s += a * v;
          m += std::abs(a) * std::abs(v);
        }
        std::complex<long double> got(y[i][k]);
        long double err = std::abs(got - s);
        if (!(err <= eps_of<Y>() * m + (m == 0 ? 0 : eps_of<T>() * m) + 1e-300L))
          BAD("value", "%s: row %zu of %zu, column %zu holds (%Lg,%Lg), expected (%Lg,%Lg)", what, r, A->r, k, got.real(), got.imag(), s.real(), s.imag());
      }
    }
  }
};
template <class Crs, size_t N, class X, class Y>
void go(const Mat &A, const Crs &W, bool low, int how, int team, uint32_t seed, const char *what) {
  std::vector<Job<N, X, Y>> j(how == 0 ? 1 : team);
  for (size_t i = 0; i < j.size(); ++i) j[i].prepare(A, seed + (uint32_t)i);
  if (how == 0) j[0].call(W, low);
  else if (how == 1) {  // from inside a parallel region of the user
#pragma omp parallel num_threads(team)
    {
      int me = omp_get_thread_num(), nt = omp_get_num_threads();
      for (int i = me; i < (int)j.size(); i += nt) j[i].call(W, low);
    }
  } else
    sched::callers(team, [&](int i) { j[i].call(W, low); });
  for (auto &q : j) q.check(what);
}
void run() {
  sched::setup();
  Mat A = draw_mat();
  auto ptr0 = A.ptr; auto ind0 = A.ind; auto val0 = A.val;
  typedef C::crs Crs;
  int steps = 1 + (int)sim::choose(3);
  uint64_t t0 = 0;
  for (int s = 0; s < steps; ++s) {
    int env = sim::pick<int>({4, 2, 8, 3, 1, 5, 7});
    sched::set_env_threads(env);
    int want = sim::pick<int>({4, 2, 3, 8, 1, 0, -1, 7, 5});
    if (want < 1) sched::draw_environment();
    sched::set_limit(sim::pick<int>({0, 0, 2, 3, 1}), sim::chance(1, 3));
    sched::set_nested(sim::chance(1, 2));
    sched::set_window();
    int kind = sim::choose(NK), how = sim::pick<int>({0, 0, 1, 2}), team = 2 + (int)sim::choose(2);
    bool wide = sim::chance(1, 3), low = kind == VEC_LOW || kind == MRHS3_LOW;
    uint32_t seed = 1 + sim::choose(1 << 16);
    // 0 keeps the stored setting (on first use: none stored yet)
    if (want) hif::mt::get_nthreads(want);
    char what[120];
    snprintf(what, sizeof what, "%s on %zux%zu, %zu entries, threads=%d%s%s", pname(kind), A.r, A.c, A.ind.size(), want, how == 1 ? ", inside a parallel region" : how == 2 ? ", several callers" : "", wide ? ", mixed precision" : "");
    sim::set_context("step %d: %s", s, what);
    Crs W(A.r, A.c, A.ptr.data(), A.ind.data(), A.val.data(), true);
    typedef Up<T>::type X;
    switch (kind) {
      case VEC: case VEC_LOW: wide ? go<Crs, 1, X, X>(A, W, low, how, team, seed, what) : go<Crs, 1, T, T>(A, W, low, how, team, seed, what); break;
      case MRHS2: go<Crs, 2, T, T>(A, W, low, how, team, seed, what); break;
      case MRHS7: go<Crs, 7, T, T>(A, W, low, how, team, seed, what); break;
      default: wide ? go<Crs, 3, X, X>(A, W, low, how, team, seed, what) : go<Crs, 3, T, T>(A, W, low, how, team, seed, what);
    }
    if (A.ptr != ptr0 || A.ind != ind0 || memcmp(A.val.data(), val0.data(), val0.size() * sizeof(T))) BAD("input-changed", "%s changed the matrix", what);
    sim::sig(kind * 100 + how * 10 + want);
    sim::count(pname(kind));
    if (how) sim::count(how == 1 ? "ops.nested_call" : "ops.concurrent_callers");
    (void)t0;
  }
  if (sched::regions()) sim::nontrivial();
  sim::sig(sched::switches());
  sim::event(sched::accesses());
  sim::count("sched.switches", sched::switches());
  sim::count("sched.accesses", sched::accesses());
  sim::count("sched.regions", sched::regions());
  sim::describe("%d products on %zux%zu with %zu entries, %llu switches", steps, A.r, A.c, A.ind.size(), (unsigned long long)sched::switches());
}
// iterative refinement on a matrix dense enough for threaded products
void refine() {
  sched::setup();
  sched::set_env_threads(sim::pick<int>({4, 2, 8, 3}));
  int n = 24 + (int)sim::choose(30);
  gen::Coo<T> D;
  D.n = n;
  sim::Rng g(1 + sim::choose(1 << 16));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i == j || g.below(10)) {
        double a = g.sym(), b = g.sym();
        D.e[{i, j}] = gen::Real<T>::make(i == j ? n * 0.7 + a : a, b);
      }
  C::store A(D, true, 0);
  hif::Params p = hif::DEFAULT_PARAMS;
  p.verbose = 0;
  p.tau_L = p.tau_U = sim::pick<double>({0.3, 0.1, 1e-2});
  p.alpha_L = p.alpha_U = sim::pick<double>({0.3, 1, 10});
  p.threads = 1;
  auto M = make<C>();
  C::crs W(n, n, A.ptr.data(), A.ind.data(), A.val.data(), true);
  Call c = factorize<C>(*M, A, p, 0);
  if (!c.ok()) { drop<C>(M); return; }
  for (int k = 1 + (int)sim::choose(2); k > 0; --k) {
    size_t N = 2 + sim::choose(4);
    bool betas = sim::chance(1, 2);
    double bt[2] = {1e-6, 1e3};
    uint32_t bseed = sim::choose(1 << 16);
    std::vector<T> b = rhs<T>(bseed, n), b0 = b, x1(n, T(77)), x2(n, T(-77));
    C::arr B(n, b.data(), true), X1(n, x1.data(), true), X2(n, x2.data(), true);
    std::pair<size_t, int> r1(0, 0), r2(0, 0);
    hif::mt::get_nthreads(1);
    Call c1 = guarded([&] { if (betas) r1 = M->hifir(W, B, N, bt, X1); else M->hifir(W, B, N, X1); });
    int want = sim::pick<int>({4, 2, 3, 8, -1});
    hif::mt::get_nthreads(want);
    sched::set_limit(sim::pick<int>({0, 0, 2, 3, 1}), sim::chance(1, 3));
    sched::set_window();
    sim::set_context("iterative refinement, order %d, %zu iterations, threads=%d", n, N, want);
    Call c2 = guarded([&] { if (betas) r2 = M->hifir(W, B, N, bt, X2); else M->hifir(W, B, N, X2); });
    double err;
    if (c1.status != c2.status) BAD("refine-status", "one thread: %s %s; %d threads: %s %s", sname(c1.status), c1.what, want, sname(c2.status), c2.what);
    if (c1.ok() && (r1 != r2 || !close(x1.data(), x2.data(), n, tol_of<T>(), &err)))
      BAD("refine-value", "refinement with %d threads differs from one thread (iterations %zu/%zu, flag %d/%d, error %g)", want, r1.first, r2.first, r1.second, r2.second, err);
    if (b != b0) BAD("input-changed", "refinement changed the right-hand side");
    sim::count("ops.refinement");
  }
  if (sched::regions()) sim::nontrivial();
  sim::sig(n);
  sim::sig(sched::switches());
  sim::event(sched::accesses());
  sim::count("sched.switches", sched::switches());
  sim::count("sched.accesses", sched::accesses());
  sim::count("sched.regions", sched::regions());
  sim::describe("refinement, order %d, %llu switches", n, (unsigned long long)sched::switches());
  drop<C>(M);
}
sim::Register reg("C02", run, nullptr, 4);
sim::Register reg2("C02", refine, nullptr, 1);
}  // namespace
