// Matrix and option generators. A matrix is named by a small spec drawn from the tape; its data come from a PRNG.
#pragma once
#include <algorithm>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <vector>

#include "fault.hpp"
#include "sim.hpp"

#define HIF_STDOUT(msg) ::fault::sink(0, msg)
#define HIF_STDERR(msg) ::fault::sink(1, msg)
#ifndef HIF_THROW
#define HIF_THROW
#endif
#ifndef HIF_FANCY_PREFIX
#define HIF_LOG_PLAIN_PREFIX
#endif
#include "hifir.hpp"

namespace gen {

template <class T> struct Real { typedef T type; static T make(double a, double) { return (T)a; } static const bool cplx = false; };
template <class R> struct Real<std::complex<R>> {
  typedef R type;
  static std::complex<R> make(double a, double b) { return std::complex<R>((R)a, (R)b); }
  static const bool cplx = true;
};
template <class T> inline T cj(const T &v) { return v; }
template <class R> inline std::complex<R> cj(const std::complex<R> &v) { return std::conj(v); }
template <class T> inline double mag(const T &v) { return (double)std::abs(v); }

#ifndef GEN_ZEROS  // one in so many matrices has stored zeros
#define GEN_ZEROS 16
#endif
enum Kind { K_TRIDIAG, K_CONVDIFF, K_RANDOM, K_NODIAG, K_SADDLE, K_NEUMANN, K_DENSE, K_SYMIND, K_ARROW, K_BADSCALE, K_DUPROWS, K_DIAG, K_SPD, K_NKINDS, K_SKEW = K_NKINDS, K_BORDER };
inline const char *kind_name(int k) {
  static const char *n[] = {"tridiag", "convdiff", "random", "nodiag", "saddle", "neumann", "dense", "symindef", "arrow", "badscale", "duprows", "diag", "spd", "skewed", "bordered"};
  return n[k];
}

inline bool symmetric_kind(int k) { return k == K_SADDLE || k == K_NEUMANN || k == K_SYMIND || k == K_SPD; }
struct Spec { int kind, n; uint32_t seed; };

template <class T> struct Coo { int n; std::map<std::pair<int, int>, T> e; };

template <class T>
inline Coo<T> build(const Spec &sp) {
  typedef Real<T> R;
  sim::Rng r(sp.seed * 31ull + sp.kind * 7ull + sp.n);
  Coo<T>   A;
  int      n = A.n = sp.n;
  auto     val = [&](double s) { double a = s * r.sym(), b = s * r.sym(); return R::make(a, b); };
  auto     off = [&](double s) { double v = s * (0.25 + 0.75 * r.unit()); double w = s * r.sym(); return R::make(r.below(2) ? v : -v, w); };
  auto     set = [&](int i, int j, T v) { if (i >= 0 && j >= 0 && i < n && j < n) A.e[{i, j}] = v; };
  switch (sp.kind) {
    case K_TRIDIAG:
      for (int i = 0; i < n; ++i) { set(i, i, R::make(2.5 + r.unit(), 0.3 * r.sym())); set(i, i - 1, off(1)); set(i, i + 1, off(1)); }
      break;
    case K_CONVDIFF: {
      int nx = 1;
      while ((nx + 1) * (nx + 1) <= n) ++nx;
      for (int i = 0; i < n; ++i) {
        set(i, i, R::make(4.0 + 0.1 * r.unit(), 0.2 * r.sym()));
        if (i % nx) { set(i, i - 1, R::make(-1.3 + 0.05 * r.sym(), 0)); set(i - 1, i, R::make(-0.7 + 0.05 * r.sym(), 0)); }
        if (i >= nx) { set(i, i - nx, R::make(-1.2 + 0.05 * r.sym(), 0.1 * r.sym())); set(i - nx, i, R::make(-0.8, 0)); }
      }
      break;
    }
    case K_RANDOM:
    case K_NODIAG: {
      int k = 2 + (int)r.below(4);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < k; ++j) set(i, (int)r.below(n), val(1));
      if (sp.kind == K_RANDOM)
        for (int i = 0; i < n; ++i) set(i, i, R::make((r.below(2) ? 1 : -1) * (1.5 + r.unit()), r.sym()));
      else {  // a random permutation carries the large entries, the diagonal is partly zero
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
        for (int i = 0; i < n; ++i) { if (r.below(2)) A.e.erase({i, i}); set(i, p[i], off(3)); }
      }
      break;
    }
    case K_SADDLE: {
      int m = n - n / 3;
      for (int i = 0; i < m; ++i) { set(i, i, R::make(2.2 + r.unit(), 0)); if (i + 1 < m) { T v = off(0.9); set(i, i + 1, v); set(i + 1, i, cj(v)); } }
      for (int i = m; i < n; ++i)
        for (int k = 0; k < 3; ++k) { int j = k ? (int)r.below(m ? m : 1) : (m ? (i - m) * 2 % m : 0); T v = off(1); set(i, j, v); set(j, i, cj(v)); }
      break;
    }
    case K_NEUMANN: {
      int nx = 1;
      while ((nx + 1) * (nx + 1) <= n) ++nx;
      auto add = [&](int i, int j) { if (i < n && j < n) { A.e[{i, j}] += R::make(-1, 0); A.e[{j, i}] += R::make(-1, 0); A.e[{i, i}] += R::make(1, 0); A.e[{j, j}] += R::make(1, 0); } };
      for (int i = 0; i < n; ++i) { if (n == 1) set(0, 0, R::make(1, 0)); if ((i + 1) % nx && i + 1 < n) add(i, i + 1); if (i + nx < n) add(i, i + nx); else if (i + 1 < n && (i + 1) % nx == 0) add(i, i + 1); }
      break;
    }
    case K_DENSE:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) set(i, j, val(1));
      break;
    case K_SYMIND:
    case K_SPD:
      for (int i = 0; i < n; ++i) {
        double d = sp.kind == K_SPD ? 5.0 + r.unit() : (r.below(2) ? 2.0 : -2.0) * (0.5 + r.unit());
        set(i, i, R::make(d, 0));
      }
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < 2; ++k) { int j = (int)r.below(n); if (j == i) continue; T v = off(0.6); set(i, j, v); set(j, i, cj(v)); }
      break;
    case K_ARROW:
      for (int i = 0; i < n; ++i) { set(i, i, R::make(3 + r.unit(), 0)); if (i) { set(0, i, val(1)); set(i, 0, val(1)); } if (i > 2) { set(i, i - 2, val(1)); set(n - 1, i, val(1)); set(i, n - 1, val(1)); } set(i, i, R::make(3 + r.unit(), 0)); }
      break;
    case K_BADSCALE:
      for (int i = 0; i < n; ++i) {
        double s = pow(10.0, (int)r.below(7) - 3);
        set(i, i, R::make(s * (1 + r.unit()), 0));
        for (int k = 0; k < 3; ++k) { int j = (int)r.below(n); if (j != i) set(i, j, val(s)); }
      }
      break;
    case K_DUPROWS:
      for (int i = 0; i < n; ++i) {
        int b = i - i % 3;
        if (i % 3 == 2 && i >= 2) {
          for (auto &x : std::map<std::pair<int, int>, T>(A.e)) if (x.first.first == b) A.e[{i, x.first.second}] = x.second;
        } else { set(i, i, R::make(2 + r.unit(), 0)); set(i, (int)r.below(n), val(1)); set(i, (i + 1) % n, val(1)); }
      }
      break;
    case K_SKEW: {  // rows and columns of very different sizes, the large entries on a permutation; drawn by checks that ask for it
      int a = 2 + (int)r.below(3), b = 2 + (int)r.below(3), mul = 7, sh = (int)r.below(n);
      while (std::__gcd(mul, n) != 1) ++mul;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) if (r.unit() < (i < n / a ? 0.3 : 0.02) + (j % b == 0 ? 0.3 : 0.01)) set(i, j, val(1));
      for (int j = 0; j < n; ++j) set((int)(((long)j * mul + sh) % n), j, off(1.5));
      break;
    }
    case K_BORDER: {  // a chain, and a few rows and columns with tiny diagonal entries whose factors fill along the chain
      std::vector<int> c, b;
      for (int i = 0; i < n; ++i) (r.below(8) ? c : b).push_back(i);
      for (size_t i = 0; i < c.size(); ++i) {
        set(c[i], c[i], R::make(2 + r.unit(), r.sym()));
        if (i) { set(c[i], c[i - 1], off(0.9)); set(c[i - 1], c[i], off(0.9)); }
      }
      for (int i : b) {
        set(i, i, val(0.02));
        for (int k = 1 + (int)r.below(3); k && !c.empty(); --k) { set(i, c[r.below(c.size())], off(0.3)); set(c[r.below(c.size())], i, off(0.3)); }
      }
      break;
    }
    default:
      for (int i = 0; i < n; ++i) set(i, i, R::make((r.below(2) ? 1 : -1) * (0.5 + r.unit()), r.sym()));
  }
  for (int i = 0; i < n; ++i) {  // no structurally empty row (except where a kind made it on purpose)
    bool has = false;
    for (auto it = A.e.lower_bound({i, 0}); it != A.e.end() && it->first.first == i; ++it) has = true;
    if (!has) A.e[{i, i}] = R::make(1.0, 0);
  }
  if (sp.seed % GEN_ZEROS == GEN_ZEROS / 2) {  // stored zeros: some in place of entries, some more
    bool sy = symmetric_kind(sp.kind);
    for (auto &x : A.e)
      if (!r.below(x.first.first == x.first.second ? 12 : 6)) {
        x.second = T(0);
        if (sy) { auto it = A.e.find({x.first.second, x.first.first}); if (it != A.e.end()) it->second = T(0); }
      }
    for (int k = (int)r.below(n); k > 0; --k) {
      int i = (int)r.below(n), j = (int)r.below(n);
      if (A.e.count({i, j})) continue;
      A.e[{i, j}] = T(0);
      if (sy) A.e[{j, i}] = T(0);
    }
  }
  return A;
}

// the same pattern and sizes, but A^T = A without conjugation
template <class T>
inline void make_symmetric(Coo<T> &A) {
  for (auto &x : A.e) if (x.first.first > x.first.second) { auto it = A.e.find({x.first.second, x.first.first}); if (it != A.e.end()) x.second = it->second; }
}
// Storage owned by the "user": three plain arrays
template <class T, class I, class P>
struct Store {
  bool           row_major = true;
  int            n = 0, base = 0;
  std::vector<P> ptr;
  std::vector<I> ind;
  std::vector<T> val;
  Store() {}
  Store(const Coo<T> &A, bool row, int b = 0) : row_major(row), n(A.n), base(b) {
    ptr.assign(n + 1, 0);
    std::vector<std::vector<std::pair<int, T>>> v(n);
    for (auto &x : A.e) {
      int i = x.first.first, j = x.first.second;
      if (row) v[i].push_back({j, x.second});
      else v[j].push_back({i, x.second});
    }
    ptr[0] = (P)b;
    for (int i = 0; i < n; ++i) {
      for (auto &y : v[i]) ind.push_back((I)(y.first + b)), val.push_back(y.second);
      ptr[i + 1] = (P)(ind.size() + b);
    }
    if (ind.empty()) ind.reserve(1), val.reserve(1);
  }
};

inline Spec draw_spec(int maxn, int kinds = K_NKINDS) {
  Spec s;
  s.kind = (int)sim::choose(kinds);
  s.n    = 1 + (int)sim::choose(maxn);
  if (s.kind == K_DENSE && s.n > 40) s.n = 40;
  s.seed = sim::choose(1u << 16);
  return s;
}

inline hif::Params draw_params(bool symkind, bool allow_verbose = true) {
  using sim::pick;
  hif::Params p = hif::get_default_params();
  p.tau_L = pick<double>({1e-4, 1e-2, 0.1, 1e-8});
  p.tau_U = sim::chance(1, 3) ? pick<double>({1e-4, 1e-2, 0.1}) : p.tau_L;
  p.kappa = p.kappa_d = pick<double>({3, 1.5, 5, 50});
  p.alpha_L = pick<double>({10, 1, 2, 3});
  p.alpha_U = sim::chance(1, 3) ? pick<double>({10, 1, 3}) : p.alpha_L;
  if (!sim::chance(1, 3)) {  // make several levels likely on small matrices
    p.rho         = 1e4;
    p.c_d         = pick<double>({0.1, 1.0, 2.0});
    p.dense_thres = pick<int>({1, 3, 8, 15});
  } else
    p.dense_thres = pick<int>({2000, 5, 30});
  p.pivot         = pick<int>({hif::PIVOTING_AUTO, hif::PIVOTING_OFF, hif::PIVOTING_ON});
  p.gamma         = pick<double>({1.0, 2.0, 0.5});
  p.reorder       = pick<int>({hif::REORDER_AMD, hif::REORDER_OFF, hif::REORDER_AUTO, hif::REORDER_RCM});
  p.symm_pre_lvls = pick<int>({-2, 0, 1, 2, -1, 5});
  p.no_pre        = sim::chance(1, 8);
  p.rf_par        = pick<int>({1, 0});
  p.fat_schur_1st = sim::chance(1, 4);
  p.pre_scale     = pick<int>({0, 0, 1});
  p.nzp_thres     = pick<double>({0.65, 0.0, 1.0});
  p.beta          = pick<double>({1e3, 10.0});
  p.N             = sim::chance(1, 8) ? pick<int>({5, 1000}) : -1;
  p.threads       = 1;
  p.verbose       = allow_verbose && sim::chance(1, 6) ? pick<int>({hif::VERBOSE_INFO, hif::VERBOSE_FAC | hif::VERBOSE_INFO, 0x7fff}) : 0;
  p.rrqr_cond     = pick<double>({0.0, 0.0, 1e3});
  p.is_symm       = symkind ? (int)sim::chance(1, 2) : 0;
  if (p.is_symm) p.spd = pick<int>({0, 0, 1});
  p.check         = 1;
  return p;
}
inline void describe_params(const hif::Params &p) {
  sim::log("   params tau=%g/%g kappa=%g alpha=%g/%g rho=%g c_d=%g dense_thres=%d pivot=%d reorder=%d symm_pre=%d no_pre=%d rf_par=%d fat=%d pre_scale=%d nzp=%g beta=%g N=%d verbose=%d rrqr_cond=%g is_symm=%d spd=%d threads=%d",
           p.tau_L, p.tau_U, p.kappa, p.alpha_L, p.alpha_U, p.rho, p.c_d, p.dense_thres, p.pivot, p.reorder, p.symm_pre_lvls, p.no_pre, p.rf_par, p.fat_schur_1st, p.pre_scale, p.nzp_thres, p.beta, p.N, p.verbose, p.rrqr_cond, p.is_symm, p.spd, p.threads);
}
}  // namespace gen
