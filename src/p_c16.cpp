// C16: all ways of applying a preconditioner realise one operator, in any order of use.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
typedef std::complex<double> Z;
const double EPS = std::numeric_limits<R>::epsilon();

struct Mat {  // dense, column major, as complex double
  size_t n = 0;
  std::vector<Z> a;
  Z &operator()(size_t i, size_t j) { return a[i + j * n]; }
  Z operator()(size_t i, size_t j) const { return a[i + j * n]; }
  bool finite() const { for (auto &v : a) if (!std::isfinite(std::abs(v))) return false; return true; }
  double norm() const {  // infinity norm
    double m = 0;
    for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) s += std::abs((*this)(i, j)); m = std::max(m, s); }
    return m;
  }
  double norm1() const { return herm().norm(); }
  Mat herm() const { Mat B; B.n = n; B.a.resize(n * n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) B(i, j) = std::conj((*this)(j, i)); return B; }
  Mat operator*(const Mat &o) const {
    Mat B; B.n = n; B.a.assign(n * n, Z(0));
    for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) { Z v = o(k, j); if (v != Z(0)) for (size_t i = 0; i < n; ++i) B(i, j) += (*this)(i, k) * v; }
    return B;
  }
  double dist(const Mat &o) const { double m = 0; for (size_t i = 0; i < a.size(); ++i) m = std::max(m, std::abs(a[i] - o.a[i])); return m; }
  double maxabs() const { double m = 0; for (auto &v : a) m = std::max(m, std::abs(v)); return m; }
  Z trace() const { Z t(0); for (size_t i = 0; i < n; ++i) t += (*this)(i, i); return t; }
};
// the matrix of one operation; the argument vector is overwritten, so a stale or aliased result shows
Mat matrix_of(C::prec &M, int kind, size_t n, size_t r) {
  Mat B; B.n = n; B.a.resize(n * n);
  for (size_t j = 0; j < n; ++j) {
    std::vector<T> e(n, T(0)), x(n, T(-3));
    e[j] = T(1);
    const hif::Array<T> E(n, e.data(), true);
    hif::Array<T> X(n, x.data(), true);
    Call c = guarded([&] {
      switch (kind) {
        case OP_SOLVE: M.solve(E, X, false, r); break;
        case OP_TSOLVE: M.solve(E, X, true, r); break;
        case OP_MULT: M.mmultiply(E, X, false, r); break;
        default: M.mmultiply(E, X, true, r);
      }
    });
    if (!c.ok()) sim::violate("C16:operation-fails", "%s of a unit vector: %s %s", opname(kind), sname(c.status), c.what);
    for (size_t i = 0; i < n; ++i) B(i, j) = Z(x[i]);
  }
  return B;
}
void same(const char *what, const Mat &a, const Mat &b, double tol, double scale, size_t r) {
  if (!(a.dist(b) <= tol * scale)) sim::violate("C16:disagree", "%s differ by %g of %g (tolerance %g, rank argument %zu)", what, a.dist(b), scale, tol, r);
  sim::count("probe.matrix_identity");
}
template <class VT>
std::vector<Z> one_apply(C::prec &M, C::store &A, int kind, std::vector<Z> &b, size_t r, Call &call) {
  size_t n = b.size();
  std::vector<VT> vb(n), vx(n, VT(-5));
  for (size_t i = 0; i < n; ++i) { vb[i] = gen::Real<VT>::make(b[i].real(), b[i].imag()); b[i] = Z(vb[i]); }
  Op o;
  o.kind = kind; o.r = r; o.iters = 1;
  o.betas[0] = 1e-6; o.betas[1] = 1e300;
  size_t it = 0; int fl = 0;
  if (A.row_major) {
    const C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
    call = apply_vec<C, VT>(M, W, o, vb, vx, it, fl);
  } else {
    const C::ccs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
    call = apply_vec<C, VT>(M, W, o, vb, vx, it, fl);
  }
  std::vector<Z> x(n);
  for (size_t i = 0; i < n; ++i) x[i] = Z(vx[i]);
  return x;
}
void run() {
  Fact f = draw_fact(sim::pick<int>({16, 36}), false);
  f.par.check = 1;
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), An(gen::build<T>(f.spec), f.row, 0);
  size_t n = f.spec.n;
  auto F = make<C>(), M = make<C>();
  Call cf = factorize<C>(*F, A, f.par, f.m0);
  if (!cf.ok()) { sim::log("factorization: %s %s", sname(cf.status), cf.what); drop<C>(F); drop<C>(M); sim::sig(cf.status); return; }
  factorize<C>(*M, A, f.par, f.m0);
  Queries q = query<C>(*F);
  size_t ds = q.schur_size, dr = q.schur_rank;
  const bool truncates = true;
  // rank arguments worth looking at
  std::vector<size_t> rs = {0};
  if (ds && truncates) {
    rs.push_back(dr);
    rs.push_back(1 + sim::choose((uint32_t)ds));
    if (dr > 1) rs.push_back(1 + sim::choose((uint32_t)dr));
    if (sim::chance(1, 3)) rs.push_back(ds + 1 + sim::choose(3));
  } else if (sim::chance(1, 2)) rs.push_back(1 + sim::choose((uint32_t)n));
  struct Set { size_t r; Mat S, ST, P, PT; double cond, tol; bool good; };
  std::vector<Set> sets;
  for (size_t r : rs) {
    Set s;
    s.r = r;
    s.S = matrix_of(*F, OP_SOLVE, n, r); s.ST = matrix_of(*F, OP_TSOLVE, n, r);
    s.P = matrix_of(*F, OP_MULT, n, r); s.PT = matrix_of(*F, OP_TMULT, n, r);
    bool fin = s.S.finite() && s.P.finite() && s.ST.finite() && s.PT.finite();
    s.cond = fin ? std::max(s.S.norm() * s.P.norm(), s.S.norm1() * s.P.norm1()) : 1e300;
    s.tol  = 300 * EPS * n * std::max(1.0, s.cond);
    s.good = fin && s.tol < 1e-2;
    sim::log("rank argument %zu: cond %g |S| %g |P| %g", r, s.cond, s.S.maxabs(), s.P.maxabs());
    if (s.good) {
      sim::set_context("schur %zu of %zu, %zu levels", dr, ds, q.levels);
      same("transposed solve and adjoint of the solve", s.ST, s.S.herm(), s.tol, s.S.norm(), r);
      same("transposed product and adjoint of the product", s.PT, s.P.herm(), s.tol, s.P.norm(), r);
      Mat SP = s.S * s.P, PS = s.P * s.S;
      size_t er = r == 0 ? dr : std::min(r, ds), deficit = truncates ? ds - er : 0;
      if (!deficit) {
        Mat Id; Id.n = n; Id.a.assign(n * n, Z(0));
        for (size_t i = 0; i < n; ++i) Id(i, i) = 1;
        same("solve times product and the identity", SP, Id, s.tol, 1, r);
        same("product times solve and the identity", PS, Id, s.tol, 1, r);
        same("transposed solve times transposed product and the identity", s.ST * s.PT, Id, s.tol, 1, r);
      } else if (s.tol < 1e-3) {
        same("S P S and S (truncated)", SP * s.S, s.S, 10 * s.tol, s.S.norm(), r);
        same("P S P and P (truncated)", PS * s.P, s.P, 10 * s.tol, s.P.norm(), r);
        double tr = std::abs(SP.trace() - Z((double)(n - deficit)));
        if (!(tr < 0.3)) sim::violate("C16:rank", "rank of the applied operator is %g, expected %zu (n=%zu, last level %zu, rank argument %zu)", SP.trace().real(), n - deficit, n, ds, r);
        sim::count("probe.truncated_rank");
      }
    }
    sets.push_back(s);
  }
  auto scale_of = [](const Mat &m) { return m.norm(); };
  if (sets.size() > 1 && truncates && ds && sets[0].good) {
    same("solve with default rank and with the numerical rank", sets[0].S, sets[1].S, sets[0].tol, scale_of(sets[0].S), dr);
    same("product with default rank and with the numerical rank", sets[0].P, sets[1].P, sets[0].tol, scale_of(sets[0].P), dr);
  }
  // a history of mixed operations on M, each compared with the matrices of F
  int len = 2 + (int)sim::choose(8), checked = 0;
  uint64_t hist = 0;
  for (int step = 0; step < len; ++step) {
    Set &s = sets[sim::choose((uint32_t)sets.size())];
    int kind = (int)sim::choose(14);
    uint32_t seed = sim::choose(1000);
    int vt = (int)sim::choose(3);
    sim::set_context("step %d of the history", step);
    hist = hist * 31 + kind;
    if (kind >= OP_NKINDS) {  // a failing operation
      Op o; o.kind = (int)sim::choose(OP_NKINDS); o.seed = seed; o.r = s.r;
      if (kind == 10) {  // unmatched sizes
        std::vector<T> b(n, T(1)), x(n + 1, T(1));
        const hif::Array<T> B(n, b.data(), true);
        hif::Array<T> X(n + 1, x.data(), true);
        Call c = guarded([&] { if (seed & 1) M->solve(B, X, (seed & 2) != 0, s.r); else M->mmultiply(B, X, (seed & 2) != 0, s.r); });
        sim::log("step %d: sizes do not match: %s", step, sname(c.status));
        if (c.ok()) sim::violate("C16:sizes", "vectors of different lengths accepted");
      } else if (kind == 11) {
        fault::arm_lapack(0, 1, -2);
        auto r = apply<C>(*M, An, o, n);
        fault::disarm_all();
        sim::log("step %d: LAPACK failure in %s: %s", step, opname(o.kind), sname(r.call.status));
      } else if (kind == 12) {
        fault::arm_alloc(sim::choose(3), 1000);
        auto r = apply<C>(*M, An, o, n);
        fault::disarm_all();
        sim::log("step %d: no memory in %s: %s", step, opname(o.kind), sname(r.call.status));
      } else {
        auto r = apply<C>(*M, An, draw_op(n), n);
        sim::log("step %d: some operation: %s", step, sname(r.call.status));
      }
      sim::count("op.failing");
      continue;
    }
    std::vector<Z> b(n);
    { auto b0 = rhs<T>(seed, n); for (size_t i = 0; i < n; ++i) b[i] = Z(b0[i]); }
    const Mat *E = kind == OP_TSOLVE || kind == OP_THIFIR ? &s.ST : kind == OP_MULT ? &s.P : kind == OP_TMULT ? &s.PT : &s.S;
    auto compare = [&](const std::vector<Z> &x, const std::vector<Z> &bb, const char *what, int col) {
      if (!s.good) return;
      double mb = 0, d = 0;
      for (auto &v : bb) mb = std::max(mb, std::abs(v));
      for (size_t i = 0; i < n; ++i) { Z y(0); for (size_t j = 0; j < n; ++j) y += (*E)(i, j) * bb[j]; d = std::max(d, std::abs(y - x[i])); if (!std::isfinite(std::abs(x[i]))) d = 1e300; }
      double sc = E->norm() * mb;
      if (!(d <= s.tol * sc)) sim::violate("C16:mixed", "%s (column %d, vector type %d, rank argument %zu) differs from the operator by %g of %g", what, col, vt, s.r, d, sc);
      ++checked;
    };
    sim::log("step %d: %s r=%zu type %d", step, opname(kind), s.r, vt);
    if (kind == OP_MRHS1 || kind == OP_MRHS2 || kind == OP_MRHS3) {
      int nc = op_cols(kind);
      auto b0 = rhs<T>(seed, n * nc);
      std::vector<T> x(n * nc, T(-9));
      Op o; o.r = s.r;
      Call c = nc == 1 ? apply_mrhs<1, C>(*M, o, n, b0, x) : nc == 2 ? apply_mrhs<2, C>(*M, o, n, b0, x) : apply_mrhs<3, C>(*M, o, n, b0, x);
      if (!c.ok()) sim::violate("C16:operation-fails", "%s: %s %s", opname(kind), sname(c.status), c.what);
      for (int k = 0; k < nc; ++k) {
        std::vector<Z> bb(n), xx(n);
        for (size_t i = 0; i < n; ++i) bb[i] = Z(b0[i * nc + k]), xx[i] = Z(x[i * nc + k]);
        compare(xx, bb, opname(kind), k);
      }
    } else {
      Call c;
      std::vector<Z> x;
      if (vt == 1) x = one_apply<typename Up<T>::type>(*M, An, kind, b, s.r, c);
      else x = one_apply<T>(*M, An, kind, b, s.r, c);
      if (!c.ok()) sim::violate("C16:operation-fails", "%s: %s %s", opname(kind), sname(c.status), c.what);
      compare(x, b, opname(kind), 0);
    }
    sim::count("op.checked");
  }
  // after the history the object still is the same operator
  {
    Set &s = sets[sim::choose((uint32_t)sets.size())];
    sim::set_context("after the history");
    if (s.good) {
      same("solve after the history and before", matrix_of(*M, OP_SOLVE, n, s.r), s.S, 1e-12 + 10 * EPS, s.S.norm(), s.r);
      same("product after the history and before", matrix_of(*M, OP_MULT, n, s.r), s.P, 1e-12 + 10 * EPS, s.P.norm(), s.r);
    }
  }
  sim::sig(f.spec.kind * 10 + q.levels); sim::sig(q.nnz); sim::sig(dr * 100 + ds); sim::sig(hist);
  if (checked && sets[0].good) sim::nontrivial();
  sim::describe("%s n=%zu levels=%zu last level rank %zu/%zu, %zu rank arguments, history of %d", gen::kind_name(f.spec.kind), n, q.levels, dr, ds, sets.size(), len);
  drop<C>(F); drop<C>(M);
}
sim::Register reg("C16", run);
}  // namespace
