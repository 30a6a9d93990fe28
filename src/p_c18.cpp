// C18: reported sizes, fill, ranks and statistics always describe the held factors.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
#define BAD(cls, ...) sim::violate("C18:" cls, __VA_ARGS__)

// entries really stored in a compressed matrix, checked for shape; lower/upper: -1 strictly lower, 1 strictly upper, 0 any
template <class Mt>
size_t stored(const char *what, int lvl, const Mt &A, size_t nr, size_t nc, int tri) {
  size_t np = Mt::ROW_MAJOR ? nr : nc, ns = Mt::ROW_MAJOR ? nc : nr;
  if (A.nrows() != nr || A.ncols() != nc) BAD("shape", "level %d: %s is %zux%zu, expected %zux%zu", lvl, what, (size_t)A.nrows(), (size_t)A.ncols(), nr, nc);
  if (np == 0) return A.nnz();
  if (A.ind_start().size() < np + 1) BAD("shape", "level %d: %s has %zu start positions", lvl, what, (size_t)A.ind_start().size());
  size_t b = (size_t)A.ind_start()[0], e = (size_t)A.ind_start()[np], cnt = 0;
  if (b != 0) BAD("shape", "level %d: %s starts at %zu", lvl, what, b);
  if (e > A.inds().size() || e > A.vals().size()) BAD("shape", "level %d: %s claims %zu entries, holds %zu", lvl, what, e, (size_t)A.inds().size());
  for (size_t i = 0; i < np; ++i) {
    if (A.ind_start()[i] > A.ind_start()[i + 1]) BAD("shape", "level %d: %s start positions decrease", lvl, what);
    std::vector<char> seen(ns, 0);
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k, ++cnt) {
      long j = (long)A.inds()[k];
      if (j < 0 || j >= (long)ns) BAD("index", "level %d: %s holds index %ld of %zu", lvl, what, j, ns);
      if (seen[j]++) BAD("index", "level %d: %s holds entry (%zu,%ld) twice", lvl, what, i, j);
      long row = Mt::ROW_MAJOR ? (long)i : j, col = Mt::ROW_MAJOR ? j : (long)i;
      if (tri < 0 && row <= col) BAD("index", "level %d: %s holds (%ld,%ld) on or above the diagonal", lvl, what, row, col);
      if (tri > 0 && row >= col) BAD("index", "level %d: %s holds (%ld,%ld) on or below the diagonal", lvl, what, row, col);
    }
  }
  return cnt;
}
template <class Pm>
void permutation(const char *what, int lvl, const Pm &p, const Pm &inv, size_t n) {
  if (p.size() != n || inv.size() != n) BAD("permutation", "level %d: %s has %zu/%zu entries for order %zu", lvl, what, (size_t)p.size(), (size_t)inv.size(), n);
  for (size_t i = 0; i < n; ++i) {
    long v = (long)p[i];
    if (v < 0 || v >= (long)n || (long)inv[v] != (long)i) BAD("permutation", "level %d: %s is not a permutation with this inverse at %zu", lvl, what, i);
  }
}
struct Sum { size_t ldu = 0, ef = 0, nnz = 0, levels = 0, rank = 0, ds = 0, dr = 0, deferred = 0, alt = 0; };
Sum recount(C::prec &M, size_t n, size_t m0, bool use_m0) {
  Sum s;
  size_t want = n;
  int lvl = 0, np = (int)M.precs().size(), lastdense = 0;
  for (auto &P : M.precs()) {
    ++lvl;
    if (P.n != want) BAD("chain", "level %d has order %zu, the previous level left %zu", lvl, (size_t)P.n, want);
    if (P.m > P.n) BAD("chain", "level %d: leading block %zu of %zu", lvl, (size_t)P.m, (size_t)P.n);
    size_t m = P.m, nm = P.n - P.m;
    permutation("p", lvl, P.p, P.p_inv, P.n);
    permutation("q", lvl, P.q, P.q_inv, P.n);
    if (P.s.size() != P.n || P.t.size() != P.n) BAD("scaling", "level %d: scalings have %zu/%zu entries", lvl, (size_t)P.s.size(), (size_t)P.t.size());
    if (m) {
      s.ldu += stored("L", lvl, P.L_B, m, m, -1) + stored("U", lvl, P.U_B, m, m, 1) + m;
      if (P.d_B.size() < m) BAD("shape", "level %d: diagonal has %zu entries", lvl, (size_t)P.d_B.size());
    }
    if (nm) {
      s.ef += stored("E", lvl, P.E, nm, m, 0) + stored("F", lvl, P.F, m, nm, 0);
    }
    bool d1 = !P.dense_solver.empty(), d2 = !P.symm_dense_solver.empty();
    if (d1 && d2) BAD("dense", "level %d holds two dense factors", lvl);
    bool last = d1 || d2 || nm == 0;
    if (last != (lvl == np)) BAD("chain", "level %d of %d: last level flag %d", lvl, np, last);
    if (P.is_last_level() != last) BAD("chain", "level %d: is_last_level()=%d", lvl, P.is_last_level());
    // the exported sizes and factors are the held ones
    size_t em, en, eL, eU, eE, eF;
    P.inquire_sizes(em, en, eL, eU, eE, eF);
    if (em != m || en != P.n || (m && (eL != P.L_B.nnz() || eU != P.U_B.nnz())) || (nm && (eE != P.E.nnz() || eF != P.F.nnz()))) BAD("export", "level %d: inquired sizes m=%zu n=%zu L=%zu U=%zu E=%zu F=%zu", lvl, em, en, eL, eU, eE, eF);
    if (d1 || d2) {
      lastdense = 1;
      size_t er = 0, ec = 0;
      P.template inquire_or_export_dense<T>(nullptr, er, ec);
      if (er != nm || ec != nm) BAD("dense", "dense last level is %zux%zu, expected order %zu", er, ec, nm);
      s.dr = d1 ? (size_t)P.dense_solver.rank() : (size_t)P.symm_dense_solver.rank();
      if (s.dr > nm) BAD("rank", "dense rank %zu of order %zu", s.dr, nm);
      s.ldu += nm * nm;
    }
    if (lvl == np) s.ds = nm;
    // an automatic restart with pivoting begins with the whole matrix instead of the block the user named
    size_t lead = lvl == 1 && use_m0 && m <= m0 ? m0 : P.n;
    if (lvl == 1 && use_m0) s.alt = P.n - m0;
    if (m > lead) BAD("deferral", "level %d: leading block %zu exceeds the initial one %zu", lvl, m, lead);
    s.deferred += lead - m;
    want = nm;
  }
  s.nnz = s.ldu + s.ef;
  s.levels = np + lastdense;
  s.rank = n - s.ds + s.dr;
  return s;
}
// entries computed and not kept in the leading block of one level, from the pattern of the input and the kept factors
template <class P, class Co>
size_t left_out(const P &l, const Co &A, bool withL, bool withU) {
  const size_t m = l.m, n = l.n;
  std::vector<std::vector<int>> Lr(m), Ur(m);
  auto rows = [&](const decltype(l.L_B) &X, std::vector<std::vector<int>> &R) {
    for (size_t i = 0; i < m; ++i) for (auto k = X.ind_start()[i]; k < X.ind_start()[i + 1]; ++k)
      if (std::decay<decltype(X)>::type::ROW_MAJOR) R[i].push_back((int)X.inds()[k]); else R[X.inds()[k]].push_back((int)i);
  };
  rows(l.L_B, Lr); rows(l.U_B, Ur);
  std::vector<int> pi(n, -1), qi(n, -1);
  for (size_t i = 0; i < m; ++i) pi[l.p[i]] = (int)i, qi[l.q[i]] = (int)i;
  std::vector<std::vector<char>> S(m, std::vector<char>(m, 0));
  for (auto &x : A.e) { int i = pi[x.first.first], j = qi[x.first.second]; if (i >= 0 && j >= 0) S[i][j] = 1; }
  for (size_t i = 0; i < m; ++i) for (int k : Lr[i]) for (int j : Ur[k]) S[i][j] = 1;
  // entries of a row of U beyond a kept one of L, and of L beyond a kept one of U: the same products, on either side
  size_t c = 0, kept = 0;
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) if (S[i][j] && ((i < j && withU) || (i > j && withL))) ++c;
  if (withL) for (auto &r : Lr) kept += r.size();
  if (withU) for (auto &r : Ur) kept += r.size();
  return c - kept;
}
struct Held { bool fact = false; size_t n = 0, m0 = 0; hif::Params par; gen::Coo<T> A; };
void droppings(C::prec &M, const Held &h, const Queries &q) {
  const hif::Params &o = h.par;
  const size_t all = q.stats[4], space = q.stats[5];
  bool symk = o.is_symm, free_L = o.alpha_L <= 0 || o.alpha_L >= 100.0 * h.n, free_U = symk || o.alpha_U <= 0 || o.alpha_U >= 100.0 * h.n;
  if (o.tau_L == 0 && (symk || o.tau_U == 0) && all != space) BAD("drops", "no threshold is set, yet %zu of %zu droppings are not for space", all - space, all);
  if (free_L && free_U && space) BAD("drops", "no space limit is in reach, yet %zu droppings for space are reported", space);
  auto &P = M.precs().front();
  bool lead = h.m0 && !symk && o.pivot != hif::PIVOTING_ON;
  if ((lead && o.pivot != hif::PIVOTING_OFF) || !P.m) return;
  size_t gone = left_out(P, h.A, !lead, !symk);
  sim::count("probe.droppings_counted");
  if (all < gone) BAD("drops", "%zu entries were left out of the leading block of the first level, %zu droppings are reported", gone, all);
  if (P.m == P.n) sim::count("probe.droppings_exact");
  if (P.m == P.n && all != gone) BAD("drops", "%zu entries were left out of the factors, %zu droppings are reported", gone, all);
}
void check(C::prec &M, const Held &h) {
  Queries q = query<C>(M);
  sim::count("probe.recount");
  if (!h.fact) {
    if (!q.empty || q.levels || q.nnz || q.nnz_ef || q.nnz_ldu || q.rank || q.nrows || q.ncols || q.schur_size || q.schur_rank) BAD("empty", "object without factors reports {%s}", q.str().c_str());
    if (M.precs().size()) BAD("empty", "object without factors holds %zu levels", (size_t)M.precs().size());
    Call c = guarded([&] { M.prec(0); });
    if (c.ok()) BAD("empty", "level 0 of an object without factors is handed out");
    return;
  }
  Sum s = recount(M, h.n, h.m0, h.m0 != 0);
  if (q.empty || q.nrows != h.n || q.ncols != h.n) BAD("order", "object for order %zu reports {%s}", h.n, q.str().c_str());
  if (q.levels != s.levels) BAD("levels", "reports %zu levels, holds %zu", q.levels, s.levels);
  if (q.nnz != s.nnz || q.nnz_ef != s.ef || q.nnz_ldu != s.ldu) BAD("fill", "reports fill %zu (%zu offsets, %zu factors), holds %zu (%zu, %zu)", q.nnz, q.nnz_ef, q.nnz_ldu, s.nnz, s.ef, s.ldu);
  if (q.schur_size != s.ds || q.schur_rank != s.dr) BAD("last-level", "reports last level rank %zu of %zu, holds %zu of %zu", q.schur_rank, q.schur_size, s.dr, s.ds);
  if (q.rank != s.rank) BAD("rank", "reports rank %zu, order %zu minus deficiency %zu", q.rank, h.n, s.ds - s.dr);
  if (q.stats_status != OK) BAD("stats", "statistics are not available");
  if (q.stats[0] != s.deferred && q.stats[0] != s.deferred + s.alt) BAD("deferral", "reports %zu deferrals, the levels show %zu", q.stats[0], s.deferred);
  if (q.stats[1] > q.stats[0] || q.stats[1] != q.stats[2] + q.stats[3]) BAD("deferral", "deferral statistics %zu, dynamic %zu, diagonal %zu, conditioning %zu do not add up", q.stats[0], q.stats[1], q.stats[2], q.stats[3]);
  if (q.stats[5] > q.stats[4]) BAD("drops", "dropped %zu in total, of these %zu for space", q.stats[4], q.stats[5]);
  droppings(M, h, q);
  Call c = guarded([&] { M.stats(6); });
  if (c.ok()) BAD("stats", "statistics entry 6 exists");
  // every level that can be asked for is a held one, in order
  size_t k = 0;
  for (auto &P : M.precs()) {
    const void *got = nullptr;
    Call cl = guarded([&] { got = &M.prec(k); });
    if (!cl.ok() || got != (const void *)&P) BAD("prec", "prec(%zu) does not give level %zu of %zu", k, k + 1, (size_t)M.precs().size());
    ++k;
  }
  for (size_t extra = 0; extra < 2; ++extra) {
    Call cl = guarded([&] { M.prec(k + extra); });
    if (cl.ok()) BAD("prec", "prec(%zu) is handed out, the object holds %zu sparse levels", k + extra, k);
  }
}
// the rank in use, measured: trace of (solve o product) is the rank of the applied operator
void measured_rank(C::prec &M, size_t n) {
  std::complex<double> tr(0);
  double big = 0, pbig = 0;
  for (size_t j = 0; j < n; ++j) {
    std::vector<T> e(n, T(0)), y(n), x(n);
    e[j] = T(1);
    const hif::Array<T> E(n, e.data(), true);
    hif::Array<T> Y(n, y.data(), true), X(n, x.data(), true);
    Call c = guarded([&] { M.mmultiply(E, Y); M.solve(Y, X); });
    if (!c.ok()) BAD("apply", "apply of the held factors fails: %s %s", sname(c.status), c.what);
    for (size_t i = 0; i < n; ++i) { big = std::max(big, gen::mag(x[i])); pbig = std::max(pbig, gen::mag(y[i])); if (!std::isfinite(gen::mag(x[i]))) big = 1e300; }
    tr += std::complex<double>(x[j]);
  }
  // error scale through the inverse
  double sbig = 0;
  for (size_t j = 0; j < n; ++j) {
    std::vector<T> e(n, T(0)), x(n);
    e[j] = T(1);
    const hif::Array<T> E(n, e.data(), true);
    hif::Array<T> X(n, x.data(), true);
    guarded([&] { M.solve(E, X); });
    for (size_t i = 0; i < n; ++i) { sbig = std::max(sbig, gen::mag(x[i])); if (!std::isfinite(gen::mag(x[i]))) sbig = 1e300; }
  }
  double err = 100.0 * n * n * std::numeric_limits<R>::epsilon() * std::max(1.0, sbig * pbig);
  if (!(err < 0.05)) { sim::count("probe.rank_not_measurable"); return; }
  Queries q = query<C>(M);
  sim::count("probe.rank_measured");
  if (!(std::abs(tr - std::complex<double>((double)q.rank)) < 0.3)) BAD("rank-applied", "reports rank %zu, the applied operator has rank %g (order %zu, last level %zu of %zu)", q.rank, tr.real(), n, q.schur_rank, q.schur_size);
}
void run() {
  int nops = 2 + (int)sim::choose(7), maxn = sim::pick<int>({14, 40, 70});
  auto M = make<C>();
  Held h;
  C::store cur;
  int facts = 0, fails = 0;
  check(*M, h);
  for (int k = 0; k < nops; ++k) {
    int what = k ? (int)sim::choose(8) : 0;
    if (what <= 3) {
      Fact f = draw_fact(maxn);
      if (sim::chance(1, 8)) { f.par.tau_L = f.par.tau_U = 0; f.par.alpha_L = f.par.alpha_U = 1e6; }
      if (sim::chance(1, 4)) {  // one kind of limit only
        double a = sim::pick<double>({0.3, 1, 2}), t = sim::pick<double>({0.05, 0.3});
        if (sim::chance(1, 2)) { f.par.tau_L = f.par.tau_U = 0; f.par.alpha_L = a; f.par.alpha_U = sim::pick<double>({0.3, 1, 2}); }
        else { f.par.tau_L = t; f.par.tau_U = sim::pick<double>({0.05, 0.3}); f.par.alpha_L = f.par.alpha_U = sim::pick<double>({1e6, -1}); }
      }
      if (f.m0 && f.spec.n > 1 && sim::chance(1, 6)) f.m0 = f.spec.n + 3;  // rejected
      log_fact("factorize", f);
      C::store A(gen::build<T>(f.spec), f.row, f.base);
      const char *fk = k && sim::chance(1, 3) ? arm_fault(true, 150) : nullptr;
      Call c = factorize<C>(*M, A, f.par, f.m0);
      fault::disarm_all();
      sim::log("   -> %s %s%s", sname(c.status), c.what, fk ? " (fault armed)" : "");
      h = Held();
      if (c.ok()) {
        h.fact = true; h.n = f.spec.n; h.m0 = f.m0; h.par = f.par; h.A = gen::build<T>(f.spec);
        cur = C::store(gen::build<T>(f.spec), f.row, 0);
        ++facts;
      } else { ++fails; cur = C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0); }
      sim::sig(f.spec.kind * 8 + c.status);
    } else if (what == 4) {
      { Lib l; M->clear(); }
      h = Held();
      cur = C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0);
      sim::log("clear");
    } else if (what == 5 && h.fact) {
      // hand the object over by move construction or swap of the two objects
      sim::log("move");
      Lib l;
      std::unique_ptr<C::prec> N(new C::prec(std::move(*M)));
      M.swap(N);
      N.reset();
    } else {
      Op o = draw_op(h.fact ? (int)h.n : 3);
      const char *fk = sim::chance(1, 3) ? arm_fault(false, 6) : nullptr;
      auto r = apply<C>(*M, cur, o, h.fact ? h.n : 3);
      fault::disarm_all();
      sim::log("%s -> %s%s", opname(o.kind), sname(r.call.status), fk ? " (fault armed)" : "");
    }
    sim::set_context("operation %d", k);
    check(*M, h);
    if (h.fact && h.n <= 40 && sim::chance(1, 3)) { measured_rank(*M, h.n); check(*M, h); }
    Queries q = query<C>(*M);
    sim::sig(q.levels * 7 + q.nnz);
  }
  if (facts) sim::nontrivial();
  sim::describe("%d operations, %d factorizations, %d failed ones", nops, facts, fails);
  drop<C>(M);
}
sim::Register reg("C18", run);
}  // namespace
