// C21: the exported factors are the ones applied, and nothing dropped means nothing lost.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
typedef std::complex<long double> Z;
#define BAD(cls, ...) sim::violate("C21:" cls, __VA_ARGS__)

#include "levels.hpp"
// ---- reference: the operator the exported factors denote, as a dense matrix --------------------------------------
struct Mat {
  size_t n = 0;
  std::vector<Z> a;
  explicit Mat(size_t k = 0) : n(k), a(k * k) {}
  Z &operator()(size_t i, size_t j) { return a[i * n + j]; }
  const Z &operator()(size_t i, size_t j) const { return a[i * n + j]; }
};
// M and an upper bound of the magnitudes met while forming it
void assemble(const Levels &lv, size_t k, Mat &M, std::vector<long double> &G) {
  const Level &l = lv[k];
  size_t m = l.m, n = l.n, nm = n - m;
  Mat H(n);
  std::vector<long double> A(n * n, 0);
  // leading block (I+L) D (I+U)
  for (size_t i = 0; i < m; ++i) {
    auto lrow = l.L[i];
    lrow.push_back({(int)i, Z(1)});
    for (auto &x : lrow) {
      Z ld = x.second * l.d[x.first];
      H(i, x.first) += ld; A[i * n + x.first] += std::abs(ld);
      for (auto &u : l.U[x.first]) { H(i, u.first) += ld * u.second; A[i * n + u.first] += std::abs(ld * u.second); }
    }
  }
  for (size_t i = 0; i < m; ++i) for (auto &f : l.F[i]) { H(i, m + f.first) += f.second; A[i * n + m + f.first] += std::abs(f.second); }
  for (size_t i = 0; i < nm; ++i) for (auto &e : l.E[i]) { H(m + i, e.first) += e.second; A[(m + i) * n + e.first] += std::abs(e.second); }
  if (nm) {
    Mat S(nm);
    std::vector<long double> SG(nm * nm, 0);
    if (l.has_dense) {
      for (size_t j = 0; j < nm; ++j) for (size_t i = 0; i < nm; ++i) { S(i, j) = l.dense[j * nm + i]; SG[i * nm + j] = std::abs(S(i, j)); }
      long double big = 0;
      for (auto v : SG) big = std::max(big, v);
      for (auto &v : SG) v = big;
    } else assemble(lv, k + 1, S, SG);
    // E inv(LDU) F, column by column
    for (size_t c = 0; c < nm; ++c) {
      std::vector<Z> x(m);
      std::vector<long double> g(m, 0);
      for (size_t i = 0; i < m; ++i) for (auto &f : l.F[i]) if ((size_t)f.first == c) { x[i] += f.second; g[i] += std::abs(f.second); }
      for (size_t i = 0; i < m; ++i) for (auto &q : l.L[i]) { x[i] -= q.second * x[q.first]; g[i] += std::abs(q.second) * g[q.first]; }
      for (size_t i = 0; i < m; ++i) { x[i] /= l.d[i]; g[i] /= std::abs(l.d[i]); }
      for (size_t i = m; i-- > 0;) for (auto &q : l.U[i]) { x[i] -= q.second * x[q.first]; g[i] += std::abs(q.second) * g[q.first]; }
      for (size_t i = 0; i < nm; ++i) {
        Z v = S(i, c);
        long double w = SG[i * nm + c];
        for (auto &e : l.E[i]) { v += e.second * x[e.first]; w += std::abs(e.second) * g[e.first]; }
        H(m + i, m + c) = v; A[(m + i) * n + m + c] = w;
      }
    }
  }
  M = Mat(n);
  G.assign(n * n, 0);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      long double sc = 1.0L / (l.s[l.p[i]] * l.t[l.q[j]]);
      M(l.p[i], l.q[j]) = H(i, j) * sc;
      G[(size_t)l.p[i] * n + l.q[j]] = A[i * n + j] * std::abs(sc);
    }
}
bool finite(const Levels &lv) {
  for (auto &l : lv) {
    auto f = [](const Z &z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); };
    for (auto *part : {&l.L, &l.U, &l.E, &l.F}) for (auto &r : *part) for (auto &x : r) if (!f(x.second)) return false;
    for (auto &z : l.d) if (!f(z) || z == Z(0)) return false;
    for (auto &z : l.dense) if (!f(z)) return false;
    for (auto v : l.s) if (!std::isfinite(v) || v == 0) return false;
    for (auto v : l.t) if (!std::isfinite(v) || v == 0) return false;
  }
  return true;
}
// solution of the exported factors, full rank; false if the dense block is too close to singular. cond grows with it.
bool dense_solve(std::vector<Z> A, size_t n, std::vector<Z> &b, bool tr) {
  if (tr) { std::vector<Z> B(n * n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) B[j * n + i] = std::conj(A[i * n + j]); A.swap(B); }
  for (size_t k = 0; k < n; ++k) {
    size_t pv = k;
    for (size_t i = k; i < n; ++i) if (std::abs(A[k * n + i]) > std::abs(A[k * n + pv])) pv = i;
    if (std::abs(A[k * n + pv]) == 0) return false;
    if (pv != k) { for (size_t j = 0; j < n; ++j) std::swap(A[j * n + k], A[j * n + pv]); std::swap(b[k], b[pv]); }
    for (size_t i = k + 1; i < n; ++i) {
      Z f = A[k * n + i] / A[k * n + k];
      for (size_t j = k; j < n; ++j) A[j * n + i] -= f * A[j * n + k];
      b[i] -= f * b[k];
    }
  }
  for (size_t k = n; k-- > 0;) {
    for (size_t j = k + 1; j < n; ++j) b[k] -= A[j * n + k] * b[j];
    b[k] /= A[k * n + k];
  }
  return true;
}
// noise > 0: every operand is perturbed by this relative size, to measure how rounding is amplified
struct Noise {
  sim::Rng r; double e;
  Z operator()(const Z &z) { return e > 0 ? z * (long double)(1.0 + e * r.sym()) : z; }
};
bool ref_solve(const Levels &lv, size_t k, const std::vector<Z> &b, std::vector<Z> &x, bool tr, Noise &N) {
  const Level &l = lv[k];
  size_t m = l.m, n = l.n, nm = n - m;
  auto cj = [&](const Z &z) { return tr ? std::conj(z) : z; };
  std::vector<Z> w(n);
  for (size_t i = 0; i < n; ++i) w[i] = N(tr ? (Z)l.t[l.q[i]] * b[l.q[i]] : (Z)l.s[l.p[i]] * b[l.p[i]]);
  auto ldu = [&](std::vector<Z> &v) {  // inv(LDU) or its adjoint on the first m
    if (!tr) {
      for (size_t i = 0; i < m; ++i) for (auto &q : l.L[i]) v[i] -= N(q.second) * v[q.first];
      for (size_t i = 0; i < m; ++i) v[i] /= N(l.d[i]);
      for (size_t i = m; i-- > 0;) for (auto &q : l.U[i]) v[i] -= N(q.second) * v[q.first];
    } else {
      for (size_t i = 0; i < m; ++i) for (auto &q : l.U[i]) v[q.first] -= N(cj(q.second)) * v[i];
      for (size_t i = 0; i < m; ++i) v[i] /= N(cj(l.d[i]));
      for (size_t i = m; i-- > 0;) for (auto &q : l.L[i]) v[q.first] -= N(cj(q.second)) * v[i];
    }
  };
  auto lower = [&](const std::vector<Z> &v, std::vector<Z> &o) {  // o += (E or F^H) v
    if (!tr) for (size_t i = 0; i < nm; ++i) for (auto &e : l.E[i]) o[i] += N(e.second) * v[e.first];
    else for (size_t i = 0; i < m; ++i) for (auto &f : l.F[i]) o[f.first] += N(cj(f.second)) * v[i];
  };
  auto upper = [&](const std::vector<Z> &v, std::vector<Z> &o) {  // o += (F or E^H) v
    if (!tr) for (size_t i = 0; i < m; ++i) for (auto &f : l.F[i]) o[i] += N(f.second) * v[f.first];
    else for (size_t i = 0; i < nm; ++i) for (auto &e : l.E[i]) o[e.first] += N(cj(e.second)) * v[i];
  };
  std::vector<Z> first(w.begin(), w.begin() + m), xs(nm);
  if (nm) {
    std::vector<Z> z = first, g(nm);
    ldu(z);
    lower(z, g);
    std::vector<Z> r2(nm);
    for (size_t i = 0; i < nm; ++i) r2[i] = N(w[m + i] - g[i]);
    if (l.has_dense) {
      std::vector<Z> D = l.dense;
      for (auto &v : D) v = N(v);
      xs = r2;
      if (!dense_solve(D, nm, xs, tr)) return false;
    } else if (!ref_solve(lv, k + 1, r2, xs, tr, N)) return false;
    std::vector<Z> h(m);
    upper(xs, h);
    for (size_t i = 0; i < m; ++i) first[i] = N(first[i] - h[i]);
  }
  ldu(first);
  x.assign(n, Z(0));
  for (size_t i = 0; i < n; ++i) {
    Z v = i < m ? first[i] : xs[i - m];
    if (tr) x[l.p[i]] = N((Z)l.s[l.p[i]] * v); else x[l.q[i]] = N((Z)l.t[l.q[i]] * v);
  }
  return true;
}

struct Held { bool fact = false; size_t n = 0; gen::Coo<T> A; bool expect_exact = false; };

double norm(const std::vector<Z> &v) { long double m = 0; for (auto &z : v) m = std::max(m, std::abs(z)); return (double)m; }

// every way of applying the object against the exported factors
void compare(C::prec &M, const Held &h, const Levels &lv) {
  size_t n = h.n, want = n;
  for (size_t k = 0; k < lv.size(); ++k) {
    if (lv[k].n != want) BAD("sizes", "exported level %zu has order %zu, the previous level leaves %zu", k + 1, lv[k].n, want);
    want = lv[k].n - lv[k].m;
    if (lv[k].has_dense != (k + 1 == lv.size() && want)) BAD("sizes", "exported level %zu of %zu: dense block %d", k + 1, lv.size(), lv[k].has_dense);
  }
  if (!finite(lv)) { sim::count("probe.factors_not_finite"); return; }
  const double eps = std::numeric_limits<R>::epsilon();
  Mat D;
  std::vector<long double> G;
  assemble(lv, 0, D, G);
  uint32_t seed = sim::choose(1000);
  std::vector<T> b = rhs<T>(seed, n), y(n, T(-7));
  const hif::Array<T> B(n, b.data(), true);
#if CFG < 4
  for (int tr = 0; tr < 2; ++tr) {
    hif::Array<T> Y(n, y.data(), true);
    Call c = guarded([&] { M.mmultiply(B, Y, tr != 0, (size_t)-1); });
    if (!c.ok()) BAD("apply", "product fails: %s %s", sname(c.status), c.what);
    // error scale: the largest contribution of any entry formed on the way, by row and column scale
    std::vector<Z> e(n);
    long double worst = 0;
    size_t wi = 0;
    long double colmax = 0;
    for (size_t i = 0; i < n; ++i) {
      long double g = 0;
      for (size_t j = 0; j < n; ++j) {
        Z w((std::complex<double>(b[j])));
        e[i] += (tr ? std::conj(D(j, i)) : D(i, j)) * w;
        g += (tr ? G[j * n + i] : G[i * n + j]) * std::abs(w);
      }
      colmax = std::max(colmax, g);
      long double d = std::abs(e[i] - Z(std::complex<double>(y[i])));
      if (d > worst || !(d == d)) { worst = d; wi = i; }
    }
    sim::count("probe.product_compared");
    if (!(worst <= 200.0L * n * eps * colmax)) {
      if (!std::isfinite((double)(200.0L * n * eps * colmax)) || colmax > std::numeric_limits<R>::max() / 1e6) { sim::count("probe.overflow"); continue; }
      BAD("product", "product%s of the exported factors at %zu is %Lg%+Lgi, the object gives %g (scale %Lg, off by %Lg, n %zu, %zu levels)", tr ? "^H" : "", wi, e[wi].real(), e[wi].imag(), gen::mag(y[wi]), colmax, worst, n, lv.size());
    }
  }
#endif
  Queries q = query<C>(M);
  if (q.schur_rank == q.schur_size) {
    for (int tr = 0; tr < 2; ++tr) {
      hif::Array<T> X(n, y.data(), true);
      Call c = guarded([&] { M.solve(B, X, tr != 0); });
      if (!c.ok()) BAD("apply", "solve fails: %s %s", sname(c.status), c.what);
      std::vector<Z> bz(n), x, xp;
      for (size_t i = 0; i < n; ++i) bz[i] = Z(std::complex<double>(b[i]));
      Noise none{sim::Rng(1), 0};
      if (!ref_solve(lv, 0, bz, x, tr != 0, none)) { sim::count("probe.singular"); continue; }
      double spread = 0, big = norm(x);
      for (int rep = 0; rep < 4; ++rep) {
        Noise N{sim::Rng(seed * 7u + rep + 11), eps * 4};
        if (!ref_solve(lv, 0, bz, xp, tr != 0, N)) { spread = 1e300; break; }
        for (size_t i = 0; i < n; ++i) spread = std::max(spread, (double)std::abs(x[i] - xp[i]));
      }
      double tol = 3e4 * n * spread + 1e5 * eps * n * big;
      if (!(tol < 0.05 * big) || !(spread < 1e6 * eps * big) || !(big < 1e9 * norm(bz))) { sim::count("probe.solve_not_comparable"); continue; }
      sim::count("probe.solve_compared");
      for (size_t i = 0; i < n; ++i) {
        double d = (double)std::abs(x[i] - Z(std::complex<double>(y[i])));
        if (!(d <= tol)) BAD("solve", "solve%s of the exported factors at %zu is %Lg%+Lgi, the object gives %g (tolerance %g, off by %g, n %zu, %zu levels)", tr ? "^H" : "", i, x[i].real(), x[i].imag(), gen::mag(y[i]), tol, d, n, lv.size());
      }
    }
  } else sim::count("probe.rank_deficient");
  // nothing dropped: the factors multiply to the matrix
  if (h.expect_exact) {
    long double worst = 0, amax = 0, gmax = 0;
    size_t wi = 0, wj = 0;
    for (auto &x : h.A.e) amax = std::max(amax, (long double)gen::mag(x.second));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      auto it = h.A.e.find({(int)i, (int)j});
      Z a = it == h.A.e.end() ? Z(0) : Z(std::complex<double>(it->second));
      long double d = std::abs(D(i, j) - a);
      gmax = std::max(gmax, G[i * n + j]);
      if (d > worst || !(d == d)) { worst = d; wi = i; wj = j; }
    }
    long double tol = 200.0L * n * eps * gmax;
    if (!(tol < 0.02L * amax)) { sim::count("probe.exactness_not_measurable"); return; }
    sim::count("probe.exactness_measured");
    if (!(worst <= tol)) BAD("exact", "dropping is switched off, but the factors multiply to %Lg%+Lgi at (%zu,%zu), off by %Lg (largest entry %Lg, tolerance %Lg, n %zu, %zu levels)", D(wi, wj).real(), D(wi, wj).imag(), wi, wj, worst, amax, tol, n, lv.size());
  }
}
// dropping switched off: no threshold, no limit on the fill; the symmetric kernel uses one triangle only
bool no_dropping(const Fact &f, bool plain) {
  if (gen::Real<T>::cplx && f.m0 && !f.par.is_symm && !plain) return false;  // a leading block is taken as symmetric, not Hermitian
  return f.par.tau_L == 0 && f.par.tau_U == 0 && f.par.alpha_L >= 1e6 && f.par.alpha_U >= 1e6 && (!f.par.is_symm || gen::symmetric_kind(f.spec.kind));
}
void run() {
  int nops = 2 + (int)sim::choose(6), maxn = sim::pick<int>({12, 30, 60});
  auto M = make<C>();
  Held h;
  C::store cur;
  Levels snap;
  int facts = 0, exports = 0, fails = 0;
  for (int k = 0; k < nops; ++k) {
    sim::set_context("operation %d", k);
    int what = k == 0 ? 0 : k == 1 ? 3 : (int)sim::choose(8);
    if (what <= 1) {
      Fact f = draw_fact(maxn);
      bool nodrop = sim::chance(1, 2);
      if (nodrop) {
        f.par.tau_L = f.par.tau_U = 0; f.par.alpha_L = f.par.alpha_U = 1e6;
        if (sim::chance(1, 2)) f.par.kappa = f.par.kappa_d = sim::pick<double>({1e3, 3});
        if (sim::chance(1, 3)) {  // pivots and deferrals in the same steps
          f.par.pivot = 1; f.par.is_symm = 0;
          f.par.gamma = sim::pick<double>({1.0, 2.0, 5.0}); f.par.kappa = sim::pick<double>({1.5, 2, 3, 10}); f.par.kappa_d = sim::pick<double>({2, 5, 30});
        }
      }
      if (sim::chance(1, 3)) f.par.dense_thres = 1 + (int)sim::choose(4);
      if (sim::chance(1, 2)) {  // several levels also when nothing is dropped: no Schur complement is dense enough to stop
        f.par.rho = 1e12; f.par.c_d = 0.01; f.par.dense_thres = 1 + (int)sim::choose(8);
      }
      log_fact("factorize", f);
      gen::Coo<T> coo = gen::build<T>(f.spec);
      bool plain = gen::Real<T>::cplx && f.m0 && !f.par.is_symm && sim::chance(2, 3);
      if (plain) { gen::make_symmetric(coo); sim::log("   made symmetric without conjugation"); }
      C::store A(coo, f.row, f.base);
      const char *fk = k && sim::chance(1, 5) ? arm_fault(true, 150) : nullptr;
      Call c = factorize<C>(*M, A, f.par, f.m0);
      fault::disarm_all();
      sim::log("   -> %s %s%s", sname(c.status), c.what, fk ? " (fault armed)" : "");
      h = Held();
      snap.clear();
      if (c.ok()) {
        h.fact = true; h.n = f.spec.n; h.A = coo;
        h.expect_exact = no_dropping(f, plain);
        cur = C::store(coo, f.row, 0);
        ++facts;
      } else { ++fails; cur = C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0); }
      sim::sig(f.spec.kind * 8 + c.status);
    } else if (what <= 5) {
      if (!h.fact) continue;
      bool row = sim::chance(1, 2);
      Queries q0 = query<C>(*M);
      bool faulty = sim::chance(1, 4);
      if (faulty) fault::arm_alloc(sim::choose(20), sim::pick<int>({1, 1000000}));
      Call st;
      Levels lv = export_all(*M, row, false, st);
      uint64_t fired = fault::alloc_faults_fired();
      fault::disarm_all();
      if (fired) sim::count("fault.alloc", fired);
      sim::log("export as %s -> %s%s", row ? "CRS" : "CCS", sname(st.status), fired ? " (out of memory)" : "");
      if (!st.ok() && !fired) BAD("export", "export fails: %s %s", sname(st.status), st.what);
      if (!(query<C>(*M) == q0)) BAD("export", "export changed the object: %s instead of %s", query<C>(*M).str().c_str(), q0.str().c_str());
      if (st.ok()) {
        ++exports;
        if (snap.size()) {
          bool eq = snap.size() == lv.size();
          for (size_t i = 0; eq && i < lv.size(); ++i) eq = same(snap[i], lv[i]);
          if (!eq) BAD("export", "two exports of one factorization differ");
        }
        snap = lv;
        compare(*M, h, lv);
        if (lv.size() > 1 && h.expect_exact) sim::count("probe.several_levels_exact");
        sim::sig(lv.size() * 100 + lv.back().m);
      }
    } else {
      Op o = draw_op(h.fact ? (int)h.n : 3);
      const char *fk = sim::chance(1, 4) ? arm_fault(false, 6) : nullptr;
      auto r = apply<C>(*M, cur, o, h.fact ? h.n : 3);
      fault::disarm_all();
      sim::log("%s -> %s%s", opname(o.kind), sname(r.call.status), fk ? " (fault armed)" : "");
    }
  }
  if (h.fact && snap.size() && sim::chance(1, 2)) {  // handing the factors over: each part is released once it is written
    bool row = sim::chance(1, 2);
    uint64_t bytes = fault::live_bytes();
    Call st;
    Levels lv = export_all(*M, row, true, st);
    sim::log("export as %s and destroy -> %s", row ? "CRS" : "CCS", sname(st.status));
    if (!st.ok()) BAD("export", "destroying export fails: %s %s", sname(st.status), st.what);
    bool eq = snap.size() == lv.size();
    for (size_t i = 0; eq && i < lv.size(); ++i) eq = same(snap[i], lv[i]);
    if (!eq) BAD("destroy", "the factors handed over are not the ones exported before");
    if (h.n > 2 && fault::live_bytes() >= bytes) BAD("destroy", "nothing was released (%lu bytes before, %lu after)", (unsigned long)bytes, (unsigned long)fault::live_bytes());
    sim::count("probe.destroying_export");
    if (sim::chance(1, 2)) {
      if (sim::chance(1, 2)) { Lib l; M->clear(); }
      Fact f = draw_fact(maxn);
      log_fact("factorize", f);
      gen::Coo<T> coo = gen::build<T>(f.spec);
      bool plain = gen::Real<T>::cplx && f.m0 && !f.par.is_symm && sim::chance(2, 3);
      if (plain) { gen::make_symmetric(coo); sim::log("   made symmetric without conjugation"); }
      C::store A(coo, f.row, f.base);
      Call c = factorize<C>(*M, A, f.par, f.m0);
      if (c.ok()) {
        h = Held();
        h.fact = true; h.n = f.spec.n; h.A = coo;
        h.expect_exact = no_dropping(f, plain);
        Levels l2 = export_all(*M, row, false, st);
        if (!st.ok()) BAD("export", "export fails: %s %s", sname(st.status), st.what);
        compare(*M, h, l2);
      }
    }
  }
  if (facts && exports) sim::nontrivial();
  sim::describe("%d operations, %d factorizations, %d exports, %d failed factorizations", nops, facts, exports, fails);
  drop<C>(M);
}
sim::Register reg("C21", run);
}  // namespace
