// C01: the threaded factorization equals the one-thread factorization on every schedule.
#include "world.hpp"
#include "sched.hpp"
#include <omp.h>
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef C::Int I;
typedef C::Ptr P;
typedef gen::Real<T>::type R;
#define BAD(cls, ...) sim::violate("C01:" cls, __VA_ARGS__)

// symmetric pattern, leading block sparse and well conditioned, so that m0 controls the size of the Schur
// complement; the offsets are dense enough for the threaded product
gen::Coo<T> draw_matrix(int n, int m0, double dens, bool symm, uint32_t seed, int win) {
  gen::Coo<T> A;
  A.n = n;
  sim::Rng g(seed);
  auto mk = [&](double s) { double a = s * g.sym(), b = s * g.sym(); return gen::Real<T>::make(a, b); };
  auto put = [&](int i, int j) {
    T v = mk(1), w = symm ? gen::cj(v) : mk(1);
    A.e[{i, j}] = v;
    A.e[{j, i}] = w;
  };
  for (int i = 0; i < n; ++i) {
    double d = i < m0 ? 4 + dens * (n - m0) * 0.5 : 4 + dens * n;
    A.e[{i, i}] = gen::Real<T>::make(g.below(7) ? d : -d, symm ? 0.0 : g.sym());
    if (symm && i >= m0 && g.below(16)) A.e.erase({i, i});  // put off before the factorization: these make the Schur complement
    if (i < m0) {
      if (i && g.below(3) == 0) put(i, (int)g.below(i));
    } else {
      // with a window, rows far from each other share no column, and the Schur complement stays sparse
      int lo = win ? (int)((long)(i - m0) * (m0 - win) / (n - m0)) : 0, hi = win ? lo + win : m0;
      for (int j = lo; j < hi; ++j) if (g.unit() < (win ? 0.95 : dens)) put(i, j);
      for (int k = 0; k < 3 && i > m0; ++k) put(i, m0 + (int)g.below(i - m0));
    }
  }
  return A;
}
struct Case { bool symm; int n, m0; double dens; uint32_t seed; int win; hif::Params par; bool row; };
Case draw_case(int how) {
  Case c;
  c.symm = !how && sim::chance(1, 3);
  bool small = how || (!c.symm && sim::choose(3) == 0);  // dropping only: the product stays below the switch to threads
  c.m0 = small ? 90 + sim::choose(20) : 260 + sim::choose(60);
  c.n  = c.m0 + (c.symm ? 222 : 201) + sim::choose(10);
  c.dens = small ? 0.1 : sim::pick<double>({0.24, 0.3});
  c.seed = 1 + sim::choose(1 << 16);
  c.win  = !small && sim::chance(1, 3) ? 60 + sim::choose(10) : 0;
  c.row  = !sim::chance(1, 4);
  hif::Params &p = c.par;
  p = hif::DEFAULT_PARAMS;
  p.is_symm = c.symm;
  p.verbose = sim::chance(1, 8) ? hif::VERBOSE_INFO : 0;
  p.check   = 0;
  p.tau_L = p.tau_U = sim::pick<double>({1e-8, 1e-2});
  p.alpha_L = c.symm ? sim::pick<double>({10, 0.8, 0.9, 2}) : sim::pick<double>({10, 0.8, 0.9, 0.3});  // symmetric levels drop in one thread, the product needs what is left
  p.alpha_U = sim::pick<double>({10, 0.9, 0.8, 0.3});
  if (sim::chance(1, 16)) p.alpha_L = 0;
  p.kappa = p.kappa_d = sim::pick<double>({50, 5});
  p.pivot = sim::pick<int>({hif::PIVOTING_AUTO, hif::PIVOTING_OFF, hif::PIVOTING_ON});
  p.reorder = sim::pick<int>({hif::REORDER_AMD, hif::REORDER_OFF});
  p.fat_schur_1st = sim::chance(1, 4);
  if (sim::chance(1, 4)) p.dense_thres = 60, p.rho = 100;  // the Schur complement gets a sparse level of its own
  return c;
}
Call fact(C::prec &M, C::store &A, const Case &c, int threads) {
  hif::Params p = c.par;
  p.threads = threads;
  return factorize<C>(M, A, p, c.symm ? 0 : c.m0);
}
template <class Mt> uint64_t shape_hash(const Mt &A) {
  uint64_t h = A.nrows() * 1000003ull + A.ncols();
  for (auto v : A.ind_start()) h = (h ^ (uint64_t)v) * 1099511628211ull;
  return h;
}
template <class Mt> bool vals_close(const Mt &A, const Mt &B, double *err) {
  // entry by entry, since the order within a row or column is not part of the result
  size_t np = Mt::ROW_MAJOR ? A.nrows() : A.ncols(), ns = Mt::ROW_MAJOR ? A.ncols() : A.nrows();
  std::vector<T> w(ns, T(0));
  double m = 0, d = 0;
  for (size_t i = 0; i < np; ++i) {
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) w[A.inds()[k]] = A.vals()[k], m = std::max(m, gen::mag(A.vals()[k]));
    for (auto k = B.ind_start()[i]; k < B.ind_start()[i + 1]; ++k) w[B.inds()[k]] -= B.vals()[k];
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) d = std::max(d, gen::mag(w[A.inds()[k]])), w[A.inds()[k]] = T(0);
    for (auto k = B.ind_start()[i]; k < B.ind_start()[i + 1]; ++k) d = std::max(d, gen::mag(w[B.inds()[k]])), w[B.inds()[k]] = T(0);
  }
  *err = m > 0 ? d / m : d;
  return d <= 100 * tol_of<T>() * m;
}
template <class Ar> bool arr_same(const Ar &a, const Ar &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false;
  return true;
}
void compare(C::prec &M, C::prec &S, const char *who) {
  if (M.levels() != S.levels()) BAD("levels", "%s: %zu levels, one thread gives %zu", who, (size_t)M.levels(), (size_t)S.levels());
  if (M.nnz() != S.nnz() || M.nnz_ef() != S.nnz_ef() || M.nnz_ldu() != S.nnz_ldu() || M.rank() != S.rank() || M.schur_rank() != S.schur_rank() || M.schur_size() != S.schur_size())
    BAD("sizes", "%s: nnz %zu/%zu, nnz_EF %zu/%zu, nnz_LDU %zu/%zu, rank %zu/%zu, Schur rank %zu/%zu, Schur size %zu/%zu (threaded / one thread)", who, (size_t)M.nnz(), (size_t)S.nnz(), (size_t)M.nnz_ef(),
        (size_t)S.nnz_ef(), (size_t)M.nnz_ldu(), (size_t)S.nnz_ldu(), (size_t)M.rank(), (size_t)S.rank(), (size_t)M.schur_rank(), (size_t)S.schur_rank(), (size_t)M.schur_size(), (size_t)S.schur_size());
  for (int i = 0; i < 6; ++i)
    if (M.stats(i) != S.stats(i)) BAD("statistics", "%s: statistic %d is %zu, one thread gives %zu", who, i, (size_t)M.stats(i), (size_t)S.stats(i));
  auto a = M.precs().begin(); auto b = S.precs().begin();
  int lvl = 0;
  for (; a != M.precs().end() && b != S.precs().end(); ++a, ++b) {
    ++lvl;
    double e = 0;
    if (a->m != b->m || a->n != b->n) BAD("level-size", "%s: level %d has m=%zu n=%zu, one thread gives m=%zu n=%zu", who, lvl, (size_t)a->m, (size_t)a->n, (size_t)b->m, (size_t)b->n);
    if (!arr_same(a->p, b->p) || !arr_same(a->q, b->q)) BAD("permutation", "%s: level %d permutations differ from one thread", who, lvl);
    if (a->m) {
      if (shape_hash(a->L_B) != shape_hash(b->L_B) || shape_hash(a->U_B) != shape_hash(b->U_B)) BAD("factor-shape", "%s: level %d factors differ in shape from one thread", who, lvl);
      if (!vals_close(a->L_B, b->L_B, &e) || !vals_close(a->U_B, b->U_B, &e)) BAD("factor-values", "%s: level %d factors differ from one thread by %g", who, lvl, e);
    }
    if (a->m < a->n && a->m) {
      if (shape_hash(a->E) != shape_hash(b->E) || shape_hash(a->F) != shape_hash(b->F)) BAD("offset-shape", "%s: level %d offsets differ in shape from one thread", who, lvl);
      if (!vals_close(a->E, b->E, &e) || !vals_close(a->F, b->F, &e)) BAD("offset-values", "%s: level %d offsets differ from one thread by %g", who, lvl, e);
    }
  }
}
void compare_solves(C::prec &M, C::prec &S, size_t n, const char *who) {
  std::vector<T> b = rhs<T>(5, n), x(n), y(n);
  for (int tr = 0; tr < 2; ++tr) {
    C::arr B(n, b.data(), true), X(n, x.data(), true), Y(n, y.data(), true);
    Call c1 = guarded([&] { M.solve(B, X, tr != 0); }), c2 = guarded([&] { S.solve(B, Y, tr != 0); });
    double e = 0;
    if (c1.status != c2.status) BAD("solve-status", "%s: solve ended with %s, one thread gives %s", who, sname(c1.status), sname(c2.status));
    if (c1.ok() && !close(x.data(), y.data(), n, 1000 * tol_of<T>(), &e)) BAD("solution", "%s: solution differs from one thread by %g", who, e);
  }
}
void run() {
  sched::setup();
  int how = sim::chance(1, 8) ? 1 + (int)sim::choose(2) : 0;  // several factorizations at once are costly to simulate: small ones only
  Case c = draw_case(how);
  C::store A(draw_matrix(c.n, c.m0, c.dens, c.symm, c.seed, c.win), c.row, 0), A0 = A;
  sched::set_env_threads(1);
  sim::set_context("reference factorization, order %d, leading block %d, symmetric=%d pivot=%d alpha=%g/%g", c.n, c.m0, (int)c.symm, c.par.pivot, c.par.alpha_L, c.par.alpha_U);
  auto S = make<C>();
  Call r = fact(*S, A, c, 1);
  sim::log("one thread: %s, levels %zu, nnz %zu, EF %zu, schur %zu", sname(r.status), (size_t)S->levels(), (size_t)S->nnz(), (size_t)S->nnz_ef(), (size_t)S->schur_size());
  int steps = 1 + (int)sim::choose(2);
  for (int k = 0; k < steps; ++k) {
    int env = sim::pick<int>({4, 2, 8, 3});
    sched::set_env_threads(env);
    int want = sim::pick<int>({2, 4, 3, 8, 0, 5, -1, 7});
    if (want < 1) sched::draw_environment();
    sched::set_limit(sim::pick<int>({0, 0, 0, 0, 2, 3, 1}), sim::chance(1, 3));
    sched::set_nested(sim::chance(1, 2));
    sched::set_window();
    int team = how ? 2 : 1;
    bool fail = how == 0 && sim::chance(1, 4);
    std::vector<std::unique_ptr<C::prec>> M;
    std::vector<Call> st(team);
    for (int i = 0; i < team; ++i) M.push_back(make<C>());
    char who[100];
    snprintf(who, sizeof who, "%d threads asked, %d available%s", want, env, how == 1 ? ", inside a parallel region" : how == 2 ? ", two callers" : "");
    sim::set_context("order %d, leading block %d, density %g, symmetric=%d pivot=%d alpha=%g/%g, %s", c.n, c.m0, c.dens, (int)c.symm, c.par.pivot, c.par.alpha_L, c.par.alpha_U, who);
    uint64_t rg = sched::regions();
    if (how == 0) {
      if (fail) {
        fault::reset_alloc_count();
        st[0] = fact(*M[0], A, c, want);
        uint64_t total = fault::alloc_count();
        if (r.status != st[0].status) BAD("status", "%s: %s %s, one thread: %s %s", who, sname(st[0].status), st[0].what, sname(r.status), r.what);
        auto N = make<C>();
        fault::arm_alloc(total * sim::choose(64) / 64 + sim::choose(3), 1);
        Call q = fact(*N, A, c, want);
        bool fired = fault::alloc_faults_fired() > 0;
        fault::disarm_all();
        if (fired && q.status != NOMEM && q.status != ERR) BAD("failed-allocation", "%s: an allocation failed, the call ended with %s", who, sname(q.status));
        if (fired && !N->empty()) BAD("failed-allocation", "%s: an allocation failed, the object is not empty", who);
        if (!fired && q.status != r.status) BAD("status", "%s: %s, one thread: %s", who, sname(q.status), sname(r.status));
        drop<C>(N);
      } else
        st[0] = fact(*M[0], A, c, want);
    } else if (how == 1) {
      omp_set_num_threads(env);
#pragma omp parallel num_threads(2)
      {
        int me = omp_get_thread_num(), nt = omp_get_num_threads();
        for (int i = me; i < team; i += nt) st[i] = fact(*M[i], A, c, want);
      }
    } else
      sched::callers(team, [&](int i) { st[i] = fact(*M[i], A, c, want); });
    for (int i = 0; i < team; ++i) {
      if (r.status != st[i].status) BAD("status", "%s: %s %s, one thread: %s %s", who, sname(st[i].status), st[i].what, sname(r.status), r.what);
      if (r.ok()) {
        compare(*M[i], *S, who);
        if (!k) compare_solves(*M[i], *S, c.n, who);
      }
      drop<C>(M[i]);
    }
    if (A.ptr != A0.ptr || A.ind != A0.ind || memcmp(A.val.data(), A0.val.data(), A.val.size() * sizeof(T))) BAD("input-changed", "%s: the input matrix was changed", who);
    sim::sig(how * 100 + want);
    if (sched::regions() > rg) sim::count("ops.threaded_factorization");
    sim::count(how == 0 ? "ops.plain_call" : how == 1 ? "ops.nested_call" : "ops.concurrent_callers");
  }
  if (sched::regions()) sim::nontrivial();
  sim::sig(c.n * 1000 + c.m0);
  sim::sig(sched::switches());
  sim::event(sched::accesses());
  sim::count("sched.switches", sched::switches());
  sim::count("sched.accesses", sched::accesses());
  sim::count("sched.regions", sched::regions());
  sim::describe("%d factorizations of order %d (%s), Schur %zu, %llu switches", steps, c.n, r.ok() ? "ok" : "fails", (size_t)S->schur_size(), (unsigned long long)sched::switches());
  drop<C>(S);
}
sim::Register reg("C01", run);
}  // namespace
