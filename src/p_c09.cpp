// C09: a dense-kernel failure is surfaced and never used as a result.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
const double TOL = tol_of<T>();
typedef hif::DenseMatrix<T> DM;

template <class F> uint64_t count_calls(F f) { fault::arm_lapack(~0ull, 0, 0); f(); uint64_t n = fault::lapack_calls(); fault::disarm_all(); return n; }
bool can_be_positive(const char *nm) { return strstr(nm, "syev") || strstr(nm, "heev") || strstr(nm, "getrf"); }

// ---- part 1: through the preconditioner -----------------------------------------------------
void through_prec() {
  Fact f = draw_fact(sim::pick<int>({14, 40}), false);
  f.par.check = 1;
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), An(gen::build<T>(f.spec), f.row, 0);
  size_t n = f.spec.n;
  auto F = make<C>(), M = make<C>();
  Call cf;
  uint64_t nf = count_calls([&] { cf = factorize<C>(*F, A, f.par, f.m0); });
  int mode = (int)sim::choose(3);
  int info = sim::chance(1, 3) ? 1 : -(int)(1 + sim::choose(9));
  uint64_t len = sim::pick<uint64_t>({1, 1, 1000});
  uint64_t points = 0, hit = 0;
  for (uint64_t k = 0; k < nf; ++k) {
    sim::set_context("factorization, LAPACK call %llu of %llu returns %d", (unsigned long long)k, (unsigned long long)nf, info);
    fault::arm_lapack(k, len, info);
    Call c = factorize<C>(*M, A, f.par, f.m0);
    bool fired = fault::lapack_faults_fired() > 0;
    std::string nm = fault::last_lapack_fault();
    fault::disarm_all();
    ++points;
    sim::log("factorize: %s returns %d at call %llu -> %s %s", fired ? nm.c_str() : "-", info, (unsigned long long)k, sname(c.status), c.what);
    if (!fired) continue;
    ++hit;
    sim::sig(k * 3 + (info > 0));
    if (info < 0 || nm.find("getrf") == std::string::npos) {
      if (info > 0 && !can_be_positive(nm.c_str())) continue;  // not a documented outcome of this routine
      if (c.ok()) sim::violate("C09:factorize-accepts", "%s returned info=%d and the factorization reports success", nm.c_str(), info);
      Op o = draw_op((int)n);
      auto r = apply<C>(*M, An, o, n);
      if (r.call.ok()) sim::violate("C09:applies", "%s delivers a solution after the factorization failed in %s", opname(o.kind), nm.c_str());
    } else if (c.ok()) {  // singular pivot
      Queries q = query<C>(*M);
      if (q.schur_rank >= q.schur_size || q.rank >= n) sim::violate("C09:rank", "%s reported a zero pivot but rank %zu of %zu is reported", nm.c_str(), q.schur_rank, q.schur_size);
    }
  }
  if (!cf.ok()) { drop<C>(F); drop<C>(M); sim::sig(999); return; }
  factorize<C>(*M, A, f.par, f.m0);
  for (int t = 0; t < 3; ++t) {
    Op o = draw_op((int)n), o2 = draw_op((int)n);
    Out<std::complex<double>> e, e2 = apply<C>(*F, An, o2, n);
    uint64_t na = count_calls([&] { e = apply<C>(*F, An, o, n); });
    info = -(int)(1 + sim::choose(9));
    len  = sim::pick<uint64_t>({1, 1000});
    enumerate(na, 12, [&](uint64_t k) {
      sim::set_context("%s, LAPACK call %llu of %llu returns %d", opname(o.kind), (unsigned long long)k, (unsigned long long)na, info);
      fault::arm_lapack(k, len, info);
      auto r = apply<C>(*M, An, o, n);
      bool fired = fault::lapack_faults_fired() > 0;
      std::string nm = fault::last_lapack_fault();
      fault::disarm_all();
      ++points;
      sim::log("%s: %s returns %d at call %llu -> %s", opname(o.kind), fired ? nm.c_str() : "-", info, (unsigned long long)k, sname(r.call.status));
      if (fired) {
        ++hit;
        if (r.call.ok()) sim::violate("C09:apply-accepts", "%s returned info=%d and %s reports success", nm.c_str(), info, opname(o.kind));
      }
      // the next operation is not affected
      auto r2 = apply<C>(*M, An, o2, n);
      double err;
      if (!out_equal(r2, e2, TOL, &err)) sim::violate("C09:aftermath", "%s after the failure: %s, without failure: %s, relative difference %g", opname(o2.kind), sname(r2.call.status), sname(e2.call.status), err);
    });
    sim::sig(o.kind * 10 + na);
  }
  if (hit) sim::nontrivial();
  sim::count("probe.failure_points", points);
  Queries q = query<C>(*F);
  sim::sig(q.schur_size * 50 + q.schur_rank + f.spec.kind * 10000);
  sim::describe("%s n=%zu last level %zu/%zu: %llu LAPACK failure points, %llu hit", gen::kind_name(f.spec.kind), n, q.schur_rank, q.schur_size, (unsigned long long)points, (unsigned long long)hit);
  (void)mode;
  drop<C>(F); drop<C>(M);
}

// ---- part 2: the dense solvers themselves ---------------------------------------------------
enum { D_FULL, D_LOWRANK, D_ZERO, D_ZEROCOL, D_DIAG, D_TINY, D_KINDS };
std::vector<T> dense(int kind, size_t n, size_t r, uint32_t seed, bool herm) {
  sim::Rng g(seed + 5);
  auto rnd = [&] { double a = g.sym(), b = g.sym(); return gen::Real<T>::make(a, b); };
  std::vector<T> a(n * n, T(0));
  auto at = [&](size_t i, size_t j) -> T & { return a[i + j * n]; };
  switch (kind) {
    case D_FULL:
    case D_TINY:
      for (auto &v : a) v = rnd() * T((R)0.1);
      for (size_t i = 0; i < n; ++i) at(i, i) += T((R)(i % 2 ? -3.0 : 2.0));
      if (herm) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { at(j, i) = gen::cj(at(i, j)); if (i == j) at(i, i) = T(std::real(at(i, i))); }
      if (kind == D_TINY) for (auto &v : a) v *= T((R)1e-12);
      break;
    case D_LOWRANK:  // small integers: products are exact
      for (size_t k = 0; k < r; ++k) {
        std::vector<T> u(n), v(n);
        for (size_t i = 0; i < n; ++i) { u[i] = T((R)(int)(g.below(5)) - 2); v[i] = T((R)(int)(g.below(5)) - 2); }
        u[k] = T(7 + (R)k); v[k] = T(5);
        for (size_t i = 0; i < k; ++i) u[i] = v[i] = T(0);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) at(i, j) += u[i] * (herm ? (seed >> (1 + k % 3) & 1 ? -u[j] : u[j]) : v[j]);
      }
      break;
    case D_ZERO: break;
    case D_ZEROCOL:
      a = dense(D_FULL, n, n, seed, herm);
      for (size_t i = 0; i < n; ++i) for (size_t k = r; k < n; ++k) at(i, k) = at(k, i) = T(0);
      break;
    default:
      for (size_t i = 0; i < r; ++i) at(i, i) = T((R)((i % 2) ? -1.5 : 1.0) * (R)(1 + (double)i / n) * (R)(seed / 2 % 2 ? -1 : 1));
  }
  if (seed % 2 && kind != D_FULL && kind != D_TINY) {  // the columns that carry the rank come last
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n / 2; ++j) std::swap(at(i, j), at(i, n - 1 - j));
    if (herm) for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n / 2; ++i) std::swap(at(i, j), at(n - 1 - i, j));
  }
  return a;
}
size_t expected_rank(int kind, size_t n, size_t r) { return kind == D_FULL || kind == D_TINY ? n : kind == D_ZERO ? 0 : r; }

template <class S> void set_mat(S &s, const std::vector<T> &a, size_t n) {
  DM d(n, n);
  std::copy(a.begin(), a.end(), d.data());
  s.set_matrix(std::move(d));
}
void mul(const std::vector<T> &a, size_t n, const std::vector<T> &x, std::vector<T> &y, bool tr) {
  y.assign(n, T(0));
  for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (!tr) y[i] += a[i + j * n] * x[j]; else y[j] += gen::cj(a[i + j * n]) * x[i];
}
struct Ops {  // one interface over the three solvers
  static Call solve(const hif::QRCP<T> &s, hif::Array<T> &x, bool tr) { return guarded([&] { s.solve(x, 0, tr); }); }
  static Call solve(const hif::LUP<T> &s, hif::Array<T> &x, bool tr) { return guarded([&] { s.solve(x, 0, tr); }); }
  static Call solve(const hif::SYEIG<T> &s, hif::Array<T> &x, bool) { return guarded([&] { s.solve(x, 0); }); }
  static Call mult(const hif::QRCP<T> &s, hif::Array<T> &x, bool tr) { return guarded([&] { s.multiply(x, 0, tr); }); }
  static Call mult(const hif::LUP<T> &s, hif::Array<T> &x, bool tr) { hif::Array<T> y(x.size()); Call c = guarded([&] { s.multiply(x, y, (size_t)0, tr); }); std::copy(y.begin(), y.end(), x.begin()); return c; }
  static Call mult(const hif::SYEIG<T> &s, hif::Array<T> &x, bool) { return guarded([&] { s.multiply(x, 0); }); }
  template <class S> static Call mrhs(const S &s, hif::Array<std::array<T, 3>> &x, bool tr) { return guarded([&] { s.solve_mrhs(x, 0, tr); }); }
  static Call mrhs(const hif::SYEIG<T> &s, hif::Array<std::array<T, 3>> &x, bool) { return guarded([&] { s.solve_mrhs(x, 0); }); }
};
template <class S> void direct(const char *name, bool herm, bool lup) {
  size_t n = 1 + sim::choose(12);
  int kind = (int)sim::choose(D_KINDS);
  size_t r = sim::choose((uint32_t)n + 1);
  uint32_t seed = sim::choose(1000);
  auto a = dense(kind, n, r, seed, herm);
  size_t er = expected_rank(kind, n, r);
  hif::Params par = hif::get_default_params();
  par.verbose = 0;
  int steps = 2 + (int)sim::choose(8);
  sim::log("%s n=%zu kind=%d rank %zu", name, n, kind, er);
  sim::describe("%s order %zu, matrix kind %d of rank %zu, %d operations", name, n, kind, er, steps);
  S s;
  { Lib l; set_mat(s, a, n); }
  bool ready = false;
  double an = 0;
  for (auto &v : a) an = std::max(an, gen::mag(v));
  for (int k = 0; k < steps; ++k) {
    int op = k ? (int)sim::choose(5) : 0;
    bool tr = sim::chance(1, 2);
    int fk = sim::chance(1, 3) ? 1 + (int)sim::choose(3) : 0;
    int info = op == 0 && sim::chance(1, 2) ? 1 + (int)sim::choose((uint32_t)n) : -(int)(1 + sim::choose(9));
    sim::set_context("%s of order %zu, kind %d, operation %d (%d), injected %d at call %d", name, n, kind, k, op, info, fk - 1);
    if (op && !ready) continue;  // not factorized: nothing is promised
    bool again = false;
    if (op == 0 && k) {
      again = sim::chance(1, 3);  // factorize the matrix handed over before once more
      if (!again && sim::chance(1, 2)) {  // the same solver for another matrix
        n = 1 + sim::choose(12);
        kind = (int)sim::choose(D_KINDS);
        r = sim::choose((uint32_t)n + 1);
        seed = sim::choose(1000);
        a = dense(kind, n, r, seed, herm);
        er = expected_rank(kind, n, r);
        an = 0;
        for (auto &v : a) an = std::max(an, gen::mag(v));
        if (info > (int)n) info = (int)n;
        sim::log("now n=%zu kind=%d rank %zu", n, kind, er);
      }
    }
    if (fk) fault::arm_lapack(fk - 1, 1, info);
    auto b = rhs<T>(seed + k, n);
    std::vector<T> ref;
    Call c;
    std::vector<std::array<T, 3>> xm(n);
    hif::Array<T> x(n);
    std::copy(b.begin(), b.end(), x.begin());
    if (op == 0 && again) c = guarded([&] { s.refactorize(par); });
    else if (op == 0) { if (k) { Lib l; set_mat(s, a, n); } c = guarded([&] { s.factorize(par); }); }
    else if (op == 1 || op == 4) c = Ops::solve(s, x, tr);
    else if (op == 2) c = Ops::mult(s, x, tr);
    else {
      hif::Array<std::array<T, 3>> X(n, xm.data(), true);
      for (int j = 0; j < 3; ++j) for (size_t i = 0; i < n; ++i) X[i][j] = b[i] * T((R)(j + 1));
      c = Ops::mrhs(s, X, tr);
      std::copy(b.begin(), b.end(), x.begin());
      for (size_t i = 0; i < n; ++i) x[i] = xm[i][0];
    }
    bool fired = fk && fault::lapack_faults_fired() > 0;
    std::string nm = fault::last_lapack_fault();
    fault::disarm_all();
    sim::log("operation %d trans=%d -> %s %s%s%s", op, tr, sname(c.status), c.what, fired ? " failed: " : "", fired ? nm.c_str() : "");
    sim::sig(op * 4 + fired + kind * 100 + (info > 0) * 1000); sim::sig(n);
    if (fired && (info < 0 || can_be_positive(nm.c_str()))) {
      sim::nontrivial();
      if (info < 0 || nm.find("getrf") == std::string::npos) {
        if (c.ok()) sim::violate("C09:dense-accepts", "%s returned info=%d and the dense solver reports success", nm.c_str(), info);
        if (op == 0) ready = false;
        continue;
      }
      // positive result of getrf: first zero pivot
      if (c.ok() && (s.rank() >= n || s.full_rank())) sim::violate("C09:dense-rank", "%s reported zero pivot %d, the solver reports rank %zu of %zu", nm.c_str(), info, (size_t)s.rank(), n);
      ready = false;
      continue;
    }
    if (fired) { ready = false; continue; }
    if (op == 0) {
      if (!c.ok()) sim::violate("C09:dense-fails", "factorization failed without a failing kernel: %s", c.what);
      ready = true;
      sim::count("probe.dense_rank");
      if (lup ? (er < n && kind != D_LOWRANK ? s.rank() >= n || s.full_rank() : er == n && s.rank() != n) : s.rank() != er)
        sim::violate("C09:dense-rank", "matrix of rank %zu: the solver reports rank %zu of %zu", er, (size_t)s.rank(), n);
      continue;
    }
    if (!ready) continue;  // not factorized: nothing is promised beyond memory safety
    if (!c.ok()) sim::violate("C09:dense-fails", "operation %d failed without a failing kernel: %s", op, c.what);
    if (er == n) {
      sim::count("probe.dense_result");
      std::vector<T> y, in(b);
      if (op == 2) { mul(a, n, b, y, tr && !herm); ref = y; in.assign(x.begin(), x.end()); }
      else { std::vector<T> xx(x.begin(), x.end()); mul(a, n, xx, ref, tr && !herm); }
      double d = 0, sc = 0;
      for (size_t i = 0; i < n; ++i) { d = std::max(d, gen::mag(ref[i] - in[i])); sc = std::max(sc, gen::mag(ref[i])); if (!std::isfinite(gen::mag(x[i]))) d = 1e300; }
      if (!(d <= 1e4 * n * std::numeric_limits<R>::epsilon() * sc)) sim::violate("C09:dense-result", "operation %d: residual %g of %g", op, d, sc);
      if (op == 3) for (int j = 1; j < 3; ++j) for (size_t i = 0; i < n; ++i)
        if (!(gen::mag(xm[i][j] - xm[i][0] * T((R)(j + 1))) <= 1e3 * std::numeric_limits<R>::epsilon() * (gen::mag(xm[i][j]) + sc / (an > 0 ? an : 1)))) sim::violate("C09:dense-result", "multiple right-hand sides: column %d differs", j);
    } else if (!lup) {
      for (size_t i = 0; i < n; ++i) if (!std::isfinite(gen::mag(x[i]))) sim::violate("C09:dense-result", "operation %d on a matrix of rank %zu of %zu delivers a non-finite value", op, er, n);
    }
  }
}
void run() {
  switch (sim::choose(6)) {
    case 0: case 1: case 2: through_prec(); break;
    case 3: direct<hif::QRCP<T>>("QRCP", false, false); break;
    case 4: direct<hif::SYEIG<T>>("SYEIG", true, false); break;
    default: direct<hif::LUP<T>>("LUP", false, true);
  }
}
sim::Register reg("C09", run);
}  // namespace
