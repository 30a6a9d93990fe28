// C24: thresholds, limits and modes that are set are the ones obeyed, level by level, in the factors a user exports.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
typedef std::complex<long double> Z;
typedef long double ld;
#define BAD(cls, ...) sim::violate("C24:" cls, __VA_ARGS__)
#include "levels.hpp"
const double EPS = std::numeric_limits<R>::epsilon();

// the settings in force on one level, from the documentation of rf_par
struct Par { double tau_L, tau_U, alpha_L, alpha_U, kappa, kappa_d; };
Par refined(const hif::Params &o, int lvl) {
  Par p{o.tau_L, o.tau_U, o.alpha_L, o.alpha_U, o.kappa, o.kappa_d};
  if (!o.rf_par) return p;
  int f = std::min(lvl, 2);
  double g = std::min(10.0, std::pow(10.0, lvl - 1));
  p.tau_L /= g; p.tau_U /= g;
  if (lvl <= 2) { p.alpha_L *= f; p.alpha_U *= f; }
  p.kappa = std::max(2.0, std::pow(o.kappa, 1.0 / f)); p.kappa_d = std::max(2.0, std::pow(o.kappa_d, 1.0 / f));
  return p;
}
double pattern_ratio(const gen::Coo<T> &A) {
  size_t k = 0;
  for (auto &x : A.e) k += A.e.count({x.first.second, x.first.first});
  return A.e.empty() ? 0 : (double)k / A.e.size();
}
bool structurally_regular(const gen::Coo<T> &A) {
  int n = A.n;
  std::vector<std::vector<int>> adj(n);
  for (auto &x : A.e) if (x.second != T(0)) adj[x.first.first].push_back(x.first.second);
  std::vector<int> mate(n, -1), seen(n, -1);
  std::function<bool(int, int)> aug = [&](int i, int tag) {
    for (int j : adj[i]) { if (seen[j] == tag) continue; seen[j] = tag; if (mate[j] < 0 || aug(mate[j], tag)) { mate[j] = i; return true; } }
    return false;
  };
  for (int i = 0; i < n; ++i) if (!aug(i, i)) return false;
  return true;
}
// largest incremental estimate of the inverse norm of a unit triangular factor given by dependencies of each step;
// low is a lower bound of the largest estimate, valid while the sign decisions are beyond rounding
ld estimate(const std::vector<std::vector<std::pair<int, Z>>> &dep) {
  std::vector<Z> x(dep.size());
  std::vector<ld> err(dep.size(), 0);
  ld low = 0;
  for (size_t i = 0; i < dep.size(); ++i) {
    Z s(0);
    ld e = 0, a = 0;
    for (auto &d : dep[i]) { s += x[d.first] * d.second; a += std::abs(x[d.first] * d.second); e += err[d.first] * std::abs(d.second); }
    err[i] = e + 4 * EPS * (dep[i].size() + 1) * (a + 1);
    Z k1 = Z(1) - s, k2 = Z(-1) - s;
    if (!dep[i].empty() && std::abs(std::abs(k1) - std::abs(k2)) <= 4 * err[i]) { sim::count("probe.estimate_tie"); return low; }
    x[i] = std::abs(k1) < std::abs(k2) ? k2 : k1;
    low = std::max(low, std::abs(x[i]) - err[i]);
  }
  return low;
}
// nothing was dropped from the leading block: what remains of the offsets of L and U is known, and with it the dense block
void schur_limits(const Level &l, const gen::Coo<T> &A, const hif::Params &o, const std::vector<size_t> &rs, const std::vector<size_t> &cs) {
  const size_t n = l.n, m = l.m;
  std::vector<int> pi(n), qi(n);
  for (size_t i = 0; i < n; ++i) { pi[l.p[i]] = (int)i; qi[l.q[i]] = (int)i; }
  std::vector<Z> B(n * n);
  std::vector<ld> G(n * n, 0);
  std::vector<char> pat(n * n, 0);
  for (auto &x : A.e) {
    size_t w = pi[x.first.first] * n + qi[x.first.second];
    B[w] = Z(std::complex<double>(x.second)) * l.s[x.first.first] * l.t[x.first.second];
    G[w] = std::abs(B[w]); pat[w] = 1;
  }
  const std::vector<Z> C0 = B;
  const double pf = o.pivot == hif::PIVOTING_ON ? 4 : 1, ff = o.fat_schur_1st ? 2 : 1;
  for (size_t k = 0; k < m; ++k) {  // elimination without any dropping
    if (!(std::abs(B[k * n + k]) > 0)) return;
    size_t cl = 0, cu = 0;
    for (size_t i = k + 1; i < n; ++i) { cl += pat[i * n + k]; cu += pat[k * n + i]; }
    if (cl > std::ceil(pf * o.alpha_L * cs[l.q[k]]) || cu > std::ceil(pf * o.alpha_U * rs[l.p[k]])) { sim::count("probe.schur_block_limited"); return; }
    for (size_t i = k + 1; i < n; ++i) if (pat[i * n + k]) {
      B[i * n + k] /= B[k * n + k];
      for (size_t j = k + 1; j < n; ++j) if (pat[k * n + j]) { Z v = B[i * n + k] * B[k * n + j]; B[i * n + j] -= v; G[i * n + j] += std::abs(v); pat[i * n + j] = 1; }
    }
    for (size_t j = k + 1; j < n; ++j) B[k * n + j] /= B[k * n + k];  // unit upper factor, only used from now on as an offset
    for (size_t j = k + 1; j < n; ++j) G[k * n + j] = std::abs(B[k * n + k]);
  }
  size_t cut = 0;
  auto limit = [&](size_t i, bool rows) {  // keep the largest entries of row i of L_E or column i of U_F
    size_t z = (size_t)std::ceil(pf * ff * (rows ? o.alpha_L * rs[l.p[i]] : o.alpha_U * cs[l.q[i]]));
    auto at = [&](size_t k) -> size_t { return rows ? i * n + k : k * n + i; };
    std::vector<size_t> ix;
    for (size_t k = 0; k < m; ++k) if (pat[at(k)]) ix.push_back(at(k));
    if (ix.size() <= z) return true;
    std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return std::abs(B[a]) > std::abs(B[b]); });
    if (z && std::abs(B[ix[z]]) > std::abs(B[ix[z - 1]]) * (1 - 1e-5L)) return false;
    for (size_t k = z; k < ix.size(); ++k) { cut += B[ix[k]] != Z(0); B[ix[k]] = 0; }
    return true;
  };
  for (size_t i = m; i < n; ++i) if (!limit(i, true) || !limit(i, false)) { sim::count("probe.schur_tie"); return; }
  sim::count("probe.schur_checked"); sim::count("probe.schur_cut", cut > 0);
  for (size_t i = m; i < n; ++i) for (size_t j = m; j < n; ++j) {
    Z v = C0[i * n + j];
    ld g = std::abs(v);
    for (size_t k = 0; k < m; ++k) { Z w = B[i * n + k] * B[k * n + k] * B[k * n + j]; v -= w; g += std::abs(w); }
    ld e = std::abs(v - l.dense[(j - m) * (n - m) + i - m]);
    if (!(e <= 1e-6L * (sizeof(R) == 4 ? 1e3 : 1) * (g + G[i * n + j] + 1))) BAD("schur", "the Schur complement holds %Lg%+Lgi at (%zu,%zu), expected %Lg%+Lgi: alpha %g/%g, fat_schur_1st %d, %zu entries of the offsets cut", l.dense[(j - m) * (n - m) + i - m].real(), l.dense[(j - m) * (n - m) + i - m].imag(), i - m, j - m, v.real(), v.imag(), o.alpha_L, o.alpha_U, o.fat_schur_1st, cut);
  }
}
void check(C::prec &M, const Fact &f, const gen::Coo<T> &A, const Levels &lv, bool plain) {
  const hif::Params &o = f.par;
  const size_t n = lv[0].n;
  for (auto &l : lv) {
    for (auto *part : {&l.L, &l.U}) for (auto &r : *part) for (auto &x : r) if (!std::isfinite(std::abs(x.second))) { sim::count("probe.factors_not_finite"); return; }
    for (auto v : l.s) if (!std::isfinite(v)) { sim::count("probe.factors_not_finite"); return; }
    for (auto v : l.t) if (!std::isfinite(v)) { sim::count("probe.factors_not_finite"); return; }
  }
  std::vector<size_t> rs(n, 0), cs(n, 0);
  for (auto &x : A.e) ++rs[x.first.first], ++cs[x.first.second];
  size_t least = (size_t)std::ceil(0.85 * A.e.size() / n);
  for (auto &v : rs) v = std::max(v, least);
  for (auto &v : cs) v = std::max(v, least);
  const double slack = 1 - 1e-5;
  for (size_t k = 0; k < lv.size(); ++k) {
    const Level &l = lv[k];
    const int level = (int)k + 1;
    const size_t m = l.m, nm = l.n - l.m;
    Par p = refined(o, level);
    const bool symk = o.is_symm, lead = level == 1 && f.m0 && !symk;      // leading block taken as symmetric
    const bool piv = o.pivot == hif::PIVOTING_ON && !symk, maybe_piv = o.pivot != hif::PIVOTING_OFF && !symk;
    double tauL = p.tau_L, tauU = symk ? p.tau_L : p.tau_U, aL = symk ? p.alpha_L : p.alpha_L, aU = symk ? p.alpha_L : p.alpha_U;
    if (maybe_piv) { aL *= 4; aU *= 4; }
    double loL = tauL, hiL = tauL;  // thresholds of L when its leading part may stem from U
    if (lead && !piv) { loL = o.pivot == hif::PIVOTING_OFF ? tauU : std::min(tauL, tauU); hiL = o.pivot == hif::PIVOTING_OFF ? tauU : std::max(tauL, tauU); }
    // 1. the diagonal is bounded away from zero
    for (size_t i = 0; i < m; ++i) {
      ld d = symk ? l.d[i].real() : std::abs(l.d[i]);
      if (!(1 / std::abs(d) <= p.kappa_d * (1 + 1e-5))) BAD("diagonal", "level %d: the %zu-th diagonal entry is %Lg, kappa_d allows no less than %g", level, i, d, 1 / p.kappa_d);
      if (symk && o.spd && (o.spd > 0) != (d > 0)) BAD("definite", "level %d: the %zu-th diagonal entry is %Lg although spd is %d", level, i, d, o.spd);
    }
    // 2. nothing below the threshold is kept
    auto kept = [&](const std::vector<std::vector<std::pair<int, Z>>> &P, double tau, const char *w) {
      if (tau <= 0) return;
      for (size_t i = 0; i < m; ++i) for (auto &x : P[i]) if (!(std::abs(x.second) > tau / (p.kappa * p.kappa_d) * slack))
        BAD("kept", "level %d: %s keeps %Lg at (%zu,%d), threshold %g with kappa %g and kappa_d %g", level, w, std::abs(x.second), i, x.first, tau, p.kappa, p.kappa_d);
    };
    kept(l.L, loL, "L"); kept(l.U, tauU, "U");
    sim::count("probe.levels_checked");
    // 3. the inverse norms are bounded
    std::vector<std::vector<std::pair<int, Z>>> byU(m);
    for (size_t i = 0; i < m; ++i) for (auto &x : l.U[i]) byU[x.first].push_back({(int)i, x.second});
    ld kl = estimate(l.L), ku = symk ? 0 : estimate(byU);
    if (kl > p.kappa * (1 + 1e-5)) BAD("inverse", "level %d: the estimated inverse norm of L is %Lg, kappa allows %g", level, kl, p.kappa);
    if (ku > p.kappa * (1 + 1e-5)) BAD("inverse", "level %d: the estimated inverse norm of U is %Lg, kappa allows %g", level, ku, p.kappa);
    // 4. space limits
    std::vector<size_t> colL(m, 0);
    for (auto &r : l.L) for (auto &x : r) ++colL[x.first];
    for (size_t i = 0; i < m; ++i) {
      auto lim = [](double alpha, size_t nnz) { return alpha <= 0 ? (size_t)-1 : (size_t)std::max(1.0, std::ceil(alpha * nnz)); };
      size_t r = rs[l.p[i]], c = symk ? r : cs[l.q[i]], u = symk ? 0 : lim(aU, r), v = lim(aL, c);
      if (lead && !piv) v = o.pivot == hif::PIVOTING_OFF ? u : std::max(u, v);
      if (!symk && l.U[i].size() > u) BAD("space", "level %d: row %zu of U holds %zu entries, alpha allows %zu (%zu in the input row)", level, i, l.U[i].size(), u, r);
      if (colL[i] > v) BAD("space", "level %d: column %zu of L holds %zu entries, alpha allows %zu (%zu in the input column)", level, i, colL[i], v, c);
    }
    // 5. symmetric and asymmetric pre-processing, 6. no pre-processing
    bool eq = true;
    for (size_t i = 0; i < l.n; ++i) eq = eq && l.p[i] == l.q[i];
    if (o.no_pre) {
      for (size_t i = 0; i < l.n; ++i) if (l.s[i] != 1 || l.t[i] != 1) BAD("no_pre", "level %d: scaled by %Lg and %Lg at %zu without pre-processing", level, l.s[i], l.t[i], i);
      if (!maybe_piv && !eq) BAD("no_pre", "level %d: permuted unsymmetrically without pre-processing", level);
      if (!maybe_piv) for (size_t i = 1; i < m; ++i) if (l.p[i - 1] >= l.p[i]) BAD("no_pre", "level %d: reordered without pre-processing", level);
    } else {
      bool symm = symk || lead;
      if (o.symm_pre_lvls >= 0) symm = symm || level <= o.symm_pre_lvls;
      else if (o.pivot == hif::PIVOTING_OFF && level <= -o.symm_pre_lvls) symm = symm || o.nzp_thres <= 0 || (level == 1 && pattern_ratio(A) >= o.nzp_thres);
      if (symm && !maybe_piv) {
        if (!eq) BAD("symmetric", "level %d: rows and columns are permuted differently under symmetric pre-processing", level);
        for (size_t i = 0; i < l.n; ++i) if (l.s[i] != l.t[i]) BAD("symmetric", "level %d: row %zu is scaled by %Lg and %Lg under symmetric pre-processing", level, i, l.s[i], l.t[i]);
        sim::count("probe.symmetric_levels");
      }
      // 7. beta bounds how far apart the two scales of a pivot are
      double b0 = o.beta < 0 ? 1e3 : o.beta;
      if (level > 1 && b0 > 1 && !maybe_piv)
        for (size_t i = 0; i < m; ++i) {
          ld s = l.s[l.p[i]], t = l.t[l.q[i]];
          if (std::min(s, t) * b0 < std::max(s, t) * slack) BAD("beta", "level %d: a pivot is scaled by %Lg and %Lg, beta is %g", level, s, t, o.beta);
        }
      // the matching makes the pivots the largest entries
      if (level == 1 && m && o.symm_pre_lvls == 0 && !maybe_piv && !symk && !lead && structurally_regular(A)) {
        ld tol = sizeof(R) == 4 ? 1e-3 : 1e-9;
        sim::count("probe.matchings");
        for (auto &x : A.e) {
          ld v = std::abs(Z(std::complex<double>(x.second))) * l.s[x.first.first] * l.t[x.first.second];
          if (!(v <= 1 + tol)) BAD("matching", "the entry (%d,%d) is scaled to %Lg", x.first.first, x.first.second, v);
        }
        for (size_t i = 0; i < m; ++i) {
          auto it = A.e.find({l.p[i], l.q[i]});
          ld v = it == A.e.end() ? 0 : std::abs(Z(std::complex<double>(it->second))) * l.s[l.p[i]] * l.t[l.q[i]];
          if (!(std::abs(v - 1) <= tol)) BAD("matching", "the %zu-th pivot is scaled to %Lg", i, v);
        }
      }
    }
    // 8. when the last level is reached
    size_t fill = 0;
    for (size_t i = m; i < l.n; ++i) fill += symk ? 2 * rs[l.p[i]] : rs[l.p[i]] + cs[l.q[i]];
    double am = symk ? o.alpha_L : std::max(o.alpha_L, o.alpha_U);
    double N = o.N >= 0 ? (double)o.N : (double)n;
    size_t t1 = (size_t)(am * fill), t2 = std::max((size_t)std::ceil(o.c_d * std::cbrt(N)), (size_t)(o.dense_thres <= 0 ? 2000 : o.dense_thres));
    size_t dense = (size_t)std::ceil((double)nm * nm * o.rho);
    bool small = nm <= t2, full = dense <= t1;
    if (k + 1 < lv.size()) {
      if (small || !m) BAD("last", "level %d of %zu leaves a Schur complement of order %zu, dense_thres %d, c_d %g, N %g", level, lv.size(), nm, o.dense_thres, o.c_d, N);
      if (full) BAD("last", "level %d of %zu leaves a Schur complement of order %zu: rho %g, alpha %g, %zu entries in its rows and columns", level, lv.size(), nm, o.rho, am, fill);
    } else if (!small && !full && m && m > 0.4 * l.n) BAD("last", "level %d is the last one with a dense block of order %zu: rho %g, alpha %g, %zu entries in its rows and columns, dense_thres %d, c_d %g, N %g", level, nm, o.rho, am, fill, o.dense_thres, o.c_d, N);
    // 9. level 1: what was left out of a row is below the threshold
    if (level == 1 && m && !(gen::Real<T>::cplx && lead && !plain)) {
      bool fitU = (symk ? p.alpha_L : p.alpha_U) >= l.n, fitL = lead && !piv ? (o.pivot == hif::PIVOTING_OFF ? fitU : fitU && p.alpha_L >= l.n) : p.alpha_L >= l.n;
      if (symk) fitU = false;  // U is the mirror image of L
      std::vector<Z> Ad(m * m), P(m * m);
      std::vector<ld> G(m * m, 0);
      std::vector<int> pi(n, -1), qi(n, -1);
      for (size_t i = 0; i < m; ++i) { pi[l.p[i]] = (int)i; qi[l.q[i]] = (int)i; }
      for (auto &x : A.e) {
        int i = pi[x.first.first], j = qi[x.first.second];
        if (i < 0 || j < 0) continue;
        Ad[i * m + j] = Z(std::complex<double>(x.second)) * l.s[x.first.first] * l.t[x.first.second];
        G[i * m + j] = std::abs(Ad[i * m + j]);
      }
      for (size_t i = 0; i < m; ++i) {
        auto lr = l.L[i];
        lr.push_back({(int)i, Z(1)});
        for (auto &x : lr) {
          Z w = x.second * l.d[x.first];
          P[i * m + x.first] += w; G[i * m + x.first] += std::abs(w);
          for (auto &u : l.U[x.first]) { P[i * m + u.first] += w * u.second; G[i * m + u.first] += std::abs(w * u.second); }
        }
      }
      sim::count("probe.residuals", fitU + fitL);
      for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) {
        if (i == j || !(i < j ? fitU : fitL)) continue;
        ld r = std::abs(Ad[i * m + j] - P[i * m + j]), d = std::abs(l.d[std::min(i, j)]);
        ld tol = (i < j ? tauU : hiL) / p.kappa_d * d * (1 + 1e-5) + 50.0L * (n + 5) * EPS * (G[i * m + j] + d);
        if (!(r <= tol)) BAD("dropped", "%s: %Lg was left out at (%zu,%zu), the threshold %g with kappa_d %g and diagonal entry %Lg allows %Lg", i < j ? "U" : "L", r, i, j, i < j ? tauU : hiL, p.kappa_d, d, tol);
      }
    }
    // 10. the Schur complement: limits of its offsets, doubled on the first level by fat_schur_1st
    if (level == 1 && l.has_dense && m && nm && !symk && !lead && o.pivot != hif::PIVOTING_AUTO && o.tau_L == 0 && o.tau_U == 0 && o.alpha_L > 0 && o.alpha_U > 0)
      schur_limits(l, A, o, rs, cs);
    // sizes of the original rows and columns carried to the next level
    std::vector<size_t> r2(nm), c2(nm);
    for (size_t i = m; i < l.n; ++i) { r2[i - m] = rs[l.p[i]]; c2[i - m] = cs[l.q[i]]; }
    rs = r2; cs = c2;
  }
  if (o.tau_L == 0 && o.tau_U == 0 && o.alpha_L >= n && o.alpha_U >= n) {
    Lib lib;
    if (M.stats(4) || M.stats(5)) BAD("stats", "nothing can be dropped, but %zu droppings (%zu for space) are reported", (size_t)M.stats(4), (size_t)M.stats(5));
  }
}
void run() {
  int nops = 1 + (int)sim::choose(5), maxn = sim::pick<int>({12, 30, 60});
  auto M = make<C>();
  int checked = 0, fails = 0;
  for (int k = 0; k < nops; ++k) {
    sim::set_context("factorization %d", k);
    Fact f = draw_fact(maxn);
    hif::Params &o = f.par;
    bool skew = sim::chance(1, 4);
    if (skew) { f.spec.kind = gen::K_SKEW; f.m0 = 0; o.is_symm = 0; f.spec.n = 20 + (int)sim::choose(50); }
    o.tau_L = sim::pick<double>({1e-4, 0, 1e-2, 0.1, 0.5, 1e-8});
    o.tau_U = sim::pick<double>({1e-4, 0, 1e-2, 0.1, 0.5, 1e-8});
    o.kappa = sim::pick<double>({3, 1.5, 2, 5, 10, 50, 1e3}); o.kappa_d = sim::pick<double>({3, 1.5, 2, 5, 10, 50, 1e3});
    o.alpha_L = sim::pick<double>({10, 1, 0.3, 2, 3, 1e6, 0.6}); o.alpha_U = sim::pick<double>({10, 1, 0.3, 2, 3, 1e6, 0.6});
    o.beta = sim::pick<double>({1e3, 10, 2, -1, 1.5});
    if (sim::chance(1, 3)) o.pivot = hif::PIVOTING_OFF;
    if (o.is_symm && sim::chance(1, 3)) o.spd = sim::pick<int>({1, -1, 0});
    if (sim::chance(1, 2)) { o.rho = sim::pick<double>({1e12, 1e2, 1, 0.25}); o.c_d = sim::pick<double>({0.01, 1, 3}); o.dense_thres = 1 + (int)sim::choose(8); }
    if (skew) {  // much fill, several levels, so that the limits of space act
      o.tau_L = o.tau_U = 0; o.alpha_L = sim::pick<double>({1, 0.5, 0.25}); o.alpha_U = sim::pick<double>({1, 0.5, 0.25}); o.rf_par = sim::choose(2);
      o.rho = 1e12; o.c_d = 0.1; o.dense_thres = 1; o.kappa = o.kappa_d = sim::pick<double>({20, 3, 8});
      if (sim::chance(1, 2)) { o.alpha_L = sim::pick<double>({1, 2, 0.5, 3}); o.alpha_U = sim::pick<double>({1, 2, 0.5, 3}); o.dense_thres = 60; }  // one level
      if (sim::chance(1, 2)) {
        f.spec.kind = gen::K_BORDER; o.dense_thres = 60; o.no_pre = sim::chance(2, 3); o.symm_pre_lvls = 1;
        o.alpha_L = sim::pick<double>({2, 1, 3, 1.5}); o.alpha_U = sim::pick<double>({2, 1, 3, 1.5}); o.fat_schur_1st = (int)sim::choose(2); o.kappa = 1e3;
      }
    }
    log_fact("factorize", f);
    sim::log("   kappa_d=%g beta=%g alpha=%g/%g", o.kappa_d, o.beta, o.alpha_L, o.alpha_U);
    gen::Coo<T> coo = gen::build<T>(f.spec);
    bool plain = gen::Real<T>::cplx && f.m0 && !o.is_symm && sim::chance(2, 3);
    if (plain) { gen::make_symmetric(coo); sim::log("   made symmetric without conjugation"); }
    C::store A(coo, f.row, f.base);
    const char *fk = sim::chance(1, 6) ? arm_fault(true, 150) : nullptr;
    Call c = factorize<C>(*M, A, f.par, f.m0);
    fault::disarm_all();
    sim::log("   -> %s %s%s", sname(c.status), c.what, fk ? " (fault armed)" : "");
    if (!c.ok()) { ++fails; continue; }
    Call st;
    Levels lv = export_all(*M, sim::chance(1, 2), false, st);
    if (!st.ok()) BAD("export", "export fails: %s %s", sname(st.status), st.what);
    if (lv.empty()) BAD("export", "no levels");
    for (size_t i = 1; i < lv.size(); ++i) if (lv[i].n != lv[i - 1].n - lv[i - 1].m) BAD("sizes", "level %zu has order %zu", i + 1, lv[i].n);
    check(*M, f, coo, lv, plain);
    ++checked;
    sim::sig(lv.size() * 1000 + lv[0].m * 16 + f.spec.kind);
    if (sim::chance(1, 4)) {
      C::store A0(coo, f.row, 0);
      Op op = draw_op(f.spec.n);
      auto r = apply<C>(*M, A0, op, f.spec.n);
      sim::log("%s -> %s", opname(op.kind), sname(r.call.status));
    }
  }
  if (checked) sim::nontrivial();
  sim::describe("%d factorizations, %d checked level by level, %d failed", nops, checked, fails);
  drop<C>(M);
}
sim::Register reg("C24", run);
}  // namespace
