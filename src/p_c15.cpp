// C15: iterative refinement reports honestly what it did.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
template <class V> using OpFn = std::function<void(const void *, const std::size_t, const char, void *, const char, const bool)>;

template <class V> double nrm(const std::vector<V> &v) {  // scaled two-norm in long double
  long double m = 0, s = 0;
  for (auto &x : v) { long double a = std::abs(std::complex<long double>(x)); if (std::isnan((double)a)) return std::nan(""); if (!(a <= m)) m = a; }
  if (m == 0 || !std::isfinite((double)m)) return (double)m;
  for (auto &x : v) { long double a = std::abs(std::complex<long double>(x)) / m; s += a * a; }
  return (double)(m * sqrtl(s));
}
// y = A x or A^H x in the given types
template <class X, class Y>
void product(const C::store &A, const X *x, Y *y, bool tr) {
  typedef typename Up<T>::type W;
  std::vector<W> acc(A.n, W(0));
  for (int i = 0; i < A.n; ++i)
    for (C::Ptr k = A.ptr[i] - A.base; k < A.ptr[i + 1] - A.base; ++k) {
      int r = A.row_major ? i : (int)A.ind[k] - A.base, c = A.row_major ? (int)A.ind[k] - A.base : i;
      if (!tr) acc[r] += W(A.val[k]) * W(x[c]);
      else acc[c] += gen::cj(W(A.val[k])) * W(x[r]);
    }
  for (int i = 0; i < A.n; ++i) y[i] = Y(acc[i]);
}
struct Corrupt { int at = 0, kind = 0, pos = 0; double exact[6]; };
template <class Y> void corrupt(std::vector<Y> &y, const Corrupt &c, int call) {
  if (!c.kind || call < c.at) return;
  typedef typename gen::Real<Y>::type R;
  size_t p = c.pos % y.size();
  switch (c.kind) {
    case 1: y[p] = Y(std::numeric_limits<R>::quiet_NaN()); break;
    case 2: y[p] = Y(std::numeric_limits<R>::infinity()); break;
    case 3: for (auto &v : y) v = v * Y((R)1e12); break;
    case 4: for (auto &v : y) v = Y(0); break;
    case 5: for (auto &v : y) v = -v; break;
    case 6: if (call == c.at) y[p] = y[p] + Y((R)3.5); break;
    case 7: y[p] = Y(std::numeric_limits<R>::max()); break;
    case 8: for (auto &v : y) v = v * Y((R)0.5); break;
    case 10: for (auto &v : y) v = Y(0); y[p] = Y((R)(1 - c.exact[(call - 1) % 6])); break;  // the residual is exactly one power of two, or zero
    case 9: if (call == c.at) for (auto &v : y) v = Y(std::numeric_limits<R>::quiet_NaN()); break;
  }
}
template <class VT>
void go(C::prec &M, C::prec &S, C::store &A, bool up, size_t rank) {
  typedef T WT;  // work type of refinement
  size_t n = A.n;
  bool tr = sim::chance(1, 2);
  int N = sim::pick<int>({5, 1, 2, 3, 12, 0, 30});
  double betas[2] = {sim::pick<double>({1e-6, 0.5, 1e-3, 1e-10, 0.0, -1.0, 1e-14, 2.0, 0.1}), sim::pick<double>({10, 1.0, 0.3, 1e-4, 1e300, 0.0, 3.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})};
  int bkind = (int)sim::choose(8);
  auto b = rhs<VT>(sim::choose(1000), n);
  typedef typename gen::Real<VT>::type RV;
  RV big = sizeof(RV) == 4 || sizeof(typename gen::Real<T>::type) == 4 ? (RV)1e20 : (RV)1e200;
  switch (bkind) {
    case 1: for (auto &v : b) v = VT(0); break;
    case 2: for (auto &v : b) v *= VT(big); break;
    case 3: for (auto &v : b) v *= VT(1 / big); break;
    case 4: for (size_t i = 0; i < n; ++i) if (i != b.size() / 2) b[i] = VT(0); break;
    case 5: for (auto &v : b) v = VT(-0.0); break;
    case 6: product<VT, VT>(A, b.data(), std::vector<VT>(b).data(), false); { std::vector<VT> c(b); product<VT, VT>(A, c.data(), b.data(), tr); } break;
    default:;
  }
  Corrupt cor;
  if (sim::chance(1, 2)) { cor.kind = 1 + (int)sim::choose(9); cor.at = 1 + (int)sim::choose(5); cor.pos = (int)sim::choose(64); }
  bool plain = sim::chance(1, 4);   // fixed number of iterations
  bool exact = sim::chance(1, 6);  // residuals and bounds are powers of two: every decision is exact, equality included
  if (exact) {
    plain = false;
    cor.kind = 10; cor.at = 1; cor.pos = (int)sim::choose(64);
    for (double &d : cor.exact) d = sim::pick<double>({0.125, 1, 0.0078125, 0.5, 0, 4, 0.25});
    for (auto &v : b) v = VT(0);
    b[cor.pos % n] = VT(1);
    betas[0] = sim::pick<double>({0.0078125, 0.125, 0, 0.25, 0.5});
    betas[1] = sim::pick<double>({1, 4, 0.5, 0.25, 0.125, 0});
    sim::count("probe.exact_bounds");
  }
  bool callback = cor.kind || sim::chance(1, 2);
  sim::log("%s N=%d betas=%g,%g trans=%d rhs kind %d type %d rank argument %zu %s corruption %d at call %d", plain ? "refine" : "refine with bounds", N, betas[0], betas[1], tr, bkind, up, rank, callback ? "callback" : A.row_major ? "CRS" : "CCS", cor.kind, cor.at);
  sim::sig(N * 100 + bkind * 10 + tr + plain * 5000 + callback * 7000); sim::sig(cor.kind * 10 + cor.at);
  // ---- the library
  std::vector<VT> x(n, VT(4));
  std::vector<std::vector<VT>> seen;
  std::vector<std::vector<WT>> given;
  bool tags = true;
  OpFn<VT> fn = [&](const void *px, const std::size_t len, const char tx, void *py, const char ty, const bool t) {
    fault::Outside o;
    if (len != n || tx != tag_of<VT>() || ty != tag_of<WT>() || t != tr) tags = false;
    // with a fixed iteration count the operator maps work type to user type
    std::vector<VT> sx((const VT *)px, (const VT *)px + n);
    std::vector<WT> y(n);
    product<VT, WT>(A, sx.data(), y.data(), t);
    corrupt(y, cor, (int)seen.size() + 1);
    seen.push_back(sx);
    given.push_back(y);
    std::copy(y.begin(), y.end(), (WT *)py);
  };
  std::vector<std::vector<WT>> pseen;
  std::vector<std::vector<VT>> pgiven;
  OpFn<VT> fnp = [&](const void *px, const std::size_t len, const char tx, void *py, const char ty, const bool t) {
    fault::Outside o;
    if (len != n || tx != tag_of<WT>() || ty != tag_of<VT>() || t != tr) tags = false;
    std::vector<WT> sx((const WT *)px, (const WT *)px + n);
    std::vector<VT> y(n);
    product<WT, VT>(A, sx.data(), y.data(), t);
    corrupt(y, cor, (int)pseen.size() + 1);
    pseen.push_back(sx);
    pgiven.push_back(y);
    std::copy(y.begin(), y.end(), (VT *)py);
  };
  std::vector<VT> bsave(b);
  const hif::Array<VT> B(n, b.data(), true);
  hif::Array<VT> X(n, x.data(), true);
  std::pair<size_t, int> res(777, 777);
  double bet[2] = {betas[0], betas[1]};
  Call c = guarded([&] {
    if (callback) {
      if (plain) M.hifir(fnp, B, (size_t)N, X, tr, rank);
      else res = M.hifir(fn, B, (size_t)N, bet, X, tr, rank);
    } else if (A.row_major) {
      const C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
      if (plain) M.hifir(W, B, (size_t)N, X, tr, rank);
      else res = M.hifir(W, B, (size_t)N, bet, X, tr, rank);
    } else {
      const C::ccs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
      if (plain) M.hifir(W, B, (size_t)N, X, tr, rank);
      else res = M.hifir(W, B, (size_t)N, bet, X, tr, rank);
    }
  });
  if (!c.ok()) sim::violate("C15:fails", "refinement: %s %s", sname(c.status), c.what);
  if (!tags) sim::violate("C15:callback", "the operator was called with a wrong length, type tag or transpose flag");
  if (!same_bits(b.data(), bsave.data(), n)) sim::violate("C15:rhs-changed", "refinement changed the right-hand side");
  // ---- the recurrence, independently
  typedef typename gen::Real<T>::type R;
  double tol = std::numeric_limits<R>::epsilon() * 64;
  auto solve = [&](const std::vector<WT> &r) {
    std::vector<WT> y(n), rr(r);
    const hif::Array<WT> RB(n, rr.data(), true);
    hif::Array<WT> Y(n, y.data(), true);
    Call cs = guarded([&] { S.solve(RB, Y, tr, rank); });
    if (!cs.ok()) sim::violate("C15:fails", "solve: %s %s", sname(cs.status), cs.what);
    return y;
  };
  auto finitev = [&](auto &v) { for (auto &q : v) if (!std::isfinite(gen::mag(q))) return false; return true; };
  // two vectors agree: exact arithmetic recurrences on the same types differ by rounding only
  auto agree = [&](const std::vector<VT> &a, const std::vector<VT> &e, const char *what, size_t it) {
    double err;
    bool fin = finitev(a) && finitev(e);
    if (!fin) { sim::count("probe.nonfinite_iterate"); return; }
    if (!close(a.data(), e.data(), n, 1e4 * tol, &err)) sim::violate("C15:iterate", "%s %zu differs from the recurrence by %g (relative)", what, it, err);
    sim::count("probe.iterates_checked");
  };
  std::vector<VT> e(n, VT(0));
  if (N <= 1) {
    std::vector<VT> ee(n), bb(b);
    const hif::Array<VT> EB(n, bb.data(), true);
    hif::Array<VT> EX(n, ee.data(), true);
    Call cs = guarded([&] { S.solve(EB, EX, tr, rank); });
    if (!cs.ok()) sim::violate("C15:fails", "solve: %s %s", sname(cs.status), cs.what);
    agree(x, ee, "single application", 1);
    if (!plain && (res.first != 1 || res.second != -1)) sim::violate("C15:report", "one application was done, reported %zu iterations with flag %d", res.first, res.second);
    return;
  }
  double bn = nrm(b);
  if (!plain && bn == 0) {
    if (res.first != 0 || res.second != 0) sim::violate("C15:zero-rhs", "zero right-hand side: %zu iterations, flag %d", res.first, res.second);
    for (auto &v : x) if (v != VT(0)) sim::violate("C15:zero-rhs", "zero right-hand side gives a non-zero solution");
    if (seen.size()) sim::violate("C15:zero-rhs", "operator called for a zero right-hand side");
    sim::count("probe.zero_rhs");
    return;
  }
  if (plain) {
    if (callback && pseen.size() != (size_t)N - 1) sim::violate("C15:count", "%d iterations requested, operator called %zu times", N, pseen.size());
    std::vector<VT> xx(n, VT(0));
    for (int i = 0; i < N; ++i) {
      std::vector<WT> xk(n), r(n);
      for (size_t j = 0; j < n; ++j) xk[j] = WT(xx[j]);
      std::vector<VT> rv(n);
      if (i) {
        std::vector<VT> y(n);
        if (callback) {
          std::vector<VT> a(n), bq(n);
          for (size_t j = 0; j < n; ++j) a[j] = VT(pseen[i - 1][j]), bq[j] = VT(xk[j]);
          agree(a, bq, "iterate", i);
          y = pgiven[i - 1];
          xk = pseen[i - 1];
        } else product<WT, VT>(A, xk.data(), y.data(), tr);
        for (size_t j = 0; j < n; ++j) rv[j] = b[j] - y[j];
      } else rv = b;
      // the library hands the residual over in the user's type
      std::vector<WT> d(n);
      {
        std::vector<VT> t(rv);
        const hif::Array<VT> RB(n, t.data(), true);
        hif::Array<WT> Y(n, d.data(), true);
        Call cs = guarded([&] { S.solve(RB, Y, tr, rank); });
        if (!cs.ok()) sim::violate("C15:fails", "solve: %s %s", sname(cs.status), cs.what);
      }
      for (size_t j = 0; j < n; ++j) xx[j] = VT(d[j] + xk[j]);
      if (!finitev(xx)) return;
    }
    if (callback) agree(x, xx, "final iterate", N);
    else {
      // rounding of an own product differs; compare relative to what amplification allows
      double err;
      if (cor.kind == 0 && finitev(x) && !close(x.data(), xx.data(), n, 1e-2, &err)) sim::count("probe.unstable_iteration");
    }
    sim::count("probe.fixed_iterations");
    return;
  }
  // bounded refinement
  std::vector<WT> r(n);
  for (size_t j = 0; j < n; ++j) r[j] = WT(b[j]);
  size_t iters = 0;
  int flag = 0;
  bool sure = true;
  std::string hist;
  for (;;) {
    auto d = solve(r);
    for (size_t j = 0; j < n; ++j) e[j] += VT(d[j]);
    if (++iters >= (size_t)N) { flag = -1; break; }
    std::vector<WT> y(n);
    if (callback) {
      if (seen.size() < iters) { 
        sim::violate("C15:count", "the recurrence continues after %zu applications (%s), the library stopped with %zu iterations and flag %d", iters, hist.c_str(), res.first, res.second);
      }
      agree(seen[iters - 1], e, "iterate", iters);
      e = seen[iters - 1];
      y = given[iters - 1];
    } else product<VT, WT>(A, e.data(), y.data(), tr);
    for (size_t j = 0; j < n; ++j) r[j] = WT(b[j] - VT(y[j]));
    double rel = nrm(r) / bn, band = callback ? 1e3 * tol : std::max(1e4 * tol, 0.0);
    char hb[40];
    snprintf(hb, sizeof hb, "%s%.3g", hist.empty() ? "" : " ", rel);
    if (hist.size() < 150) hist += hb;
    // norms at the border of the number range and decisions at the border of a bound are left open
    auto near = [&](double bound) { return !exact && std::isfinite(rel) && std::abs(rel - bound) <= band * std::max(std::abs(bound), callback ? 0.0 : 1.0); };
    double rn = nrm(r);
    if ((rn != 0 && rn < (double)std::numeric_limits<R>::min() * 1e6) || bn < (double)std::numeric_limits<RV>::min() * 1e6) sure = false;
    if (std::isfinite(rn) && rn > (double)std::numeric_limits<R>::max() / 1e6) sure = false;
    if (bn > (double)std::numeric_limits<RV>::max() / 1e6) sure = false;
    if (std::isinf(rn)) sure = false;  // infinite or undefined residual: either diverged or iterated on, never converged
    if (near(betas[0]) || near(betas[1])) sure = false;
    if (!sure) break;
    if (rel <= betas[0]) { flag = 0; break; }
    if (rel > betas[1]) { flag = 1; break; }
  }
  if (!sure) {
    sim::count("probe.border_case");
    if (callback) {
      // what can still be said: the last measured residual decides what may be claimed
      if (res.second == 0) {
        if (seen.size() != res.first || !seen.size()) sim::violate("C15:report", "convergence reported after %zu iterations, %zu residuals were measured", res.first, seen.size());
        std::vector<WT> rr(n);
        for (size_t j = 0; j < n; ++j) rr[j] = WT(b[j] - VT(given.back()[j]));
        double rel = nrm(rr) / bn;
        if (!(rel <= betas[0] * (1 + 1e4 * tol) + 1e-300)) sim::violate("C15:false-convergence", "convergence reported with measured residual %g, bound %g", rel, betas[0]);
        if (!same_bits(x.data(), seen.back().data(), n)) sim::violate("C15:iterate", "the returned vector is not the one whose residual was measured");
      }
      if (res.second == -1 && (res.first != (size_t)N || seen.size() != (size_t)N - 1)) sim::violate("C15:report", "iteration limit %d reported after %zu iterations, %zu operator calls", N, res.first, seen.size());
    }
    return;
  }
  if (callback) {
    size_t calls = flag == -1 ? iters - 1 : iters;
    if (res.first != iters || res.second != flag || seen.size() != calls)
      sim::violate("C15:report", "N=%d bounds %g, %g, measured residuals: %s: expected %zu iterations and flag %d, reported %zu and %d (%zu operator calls)", N, betas[0], betas[1], hist.c_str(), iters, flag, res.first, res.second, seen.size());
    agree(x, e, "returned vector", iters);
    if (flag != -1 && !same_bits(x.data(), seen.back().data(), n)) sim::violate("C15:iterate", "the returned vector is not the one whose residual was measured");
    sim::count(flag == 0 ? "probe.converged" : flag == 1 ? "probe.diverged" : "probe.limit");
  } else {
    // an own product rounds differently; the report has to agree while the history is far from rounding level
    double err, fin = finitev(x) && finitev(e);
    if (fin && close(x.data(), e.data(), n, 1e-3, &err)) {
      if (res.first != iters || res.second != flag) {
        sim::violate("C15:report", "N=%d bounds %g, %g, residuals: %s: expected %zu iterations and flag %d, reported %zu and %d", N, betas[0], betas[1], hist.c_str(), iters, flag, res.first, res.second);
      }
      sim::count("probe.direct_matrix");
    } else if (res.second == 0 && fin) {
      // claimed convergence is checked on the returned vector itself
      std::vector<WT> y(n), rr(n);
      product<VT, WT>(A, x.data(), y.data(), tr);
      for (size_t j = 0; j < n; ++j) rr[j] = WT(b[j] - VT(y[j]));
      double rel = nrm(rr) / bn, an = 0, xn = nrm(x);
      for (auto &v : A.val) an = std::max(an, gen::mag(v));
      if (!(rel <= betas[0] + 1e3 * tol * (1 + an * n * xn / bn))) sim::violate("C15:false-convergence", "convergence reported, residual of the returned vector is %g, bound %g", rel, betas[0]);
    }
  }
}
void run() {
  Fact f = draw_fact(sim::pick<int>({10, 40}), false);
  f.par.check = 1;
  if (sim::chance(1, 3)) { f.par.tau_L = f.par.tau_U = 0.3; f.par.alpha_L = f.par.alpha_U = 1; }  // poor preconditioner: several iterations
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), An(gen::build<T>(f.spec), sim::chance(1, 2), 0);
  auto M = make<C>(), S = make<C>();
  Call c = factorize<C>(*M, A, f.par, f.m0);
  if (!c.ok()) { drop<C>(M); drop<C>(S); sim::sig(c.status); return; }
  factorize<C>(*S, A, f.par, f.m0);
  int k = 1 + (int)sim::choose(4);
  for (int i = 0; i < k; ++i) {
    bool up = sim::chance(1, 3) && sizeof(typename Up<T>::type) != sizeof(T);
    size_t rank = sim::pick<int>({0, 1, 2}) == 2 ? 1 + sim::choose((uint32_t)f.spec.n) : 0;
    sim::set_context("call %d", i);
    if (up) go<typename Up<T>::type>(*M, *S, An, true, rank);
    else go<T>(*M, *S, An, false, rank);
  }
  sim::nontrivial();
  sim::sig(f.spec.kind * 50 + f.spec.n);
  sim::describe("%d refinements of %s n=%d", k, gen::kind_name(f.spec.kind), f.spec.n);
  drop<C>(M); drop<C>(S);
}
sim::Register reg("C15", run);
}  // namespace
