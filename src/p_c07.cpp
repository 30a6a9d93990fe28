// C07: running out of memory is reported, never turned into corruption or wrong results.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
const double TOL = tol_of<T>();

void run() {
  uint64_t live0 = fault::live_blocks();
  int  maxn = sim::pick<int>({14, 40});
  Fact f = draw_fact(maxn, sim::chance(1, 4));
  int  what = (int)sim::choose(4);
  uint64_t len = sim::pick<int>({1, 2, 1000000});
  Op   o = draw_op(f.spec.n), o2 = draw_op(f.spec.n);
  bool nsp = sim::chance(1, 3), warm = sim::chance(1, 2);
  fault::set_fill((int)sim::choose(6), 5);
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), A0 = A;
  C::store An = A;
  if (A.base) An = C::store(gen::build<T>(f.spec), f.row, 0);
  auto attach = [&](C::prec &M) {
    if (!nsp) return;
    Lib l;
    M.nsp = hif::create_nsp_filter();
    M.nsp_tran = hif::create_nsp_filter(0, f.spec.n);
  };
  auto F = make<C>();
  Call cf = factorize<C>(*F, A, f.par, f.m0);
  attach(*F);
  Queries qf = query<C>(*F);
  auto e = apply<C>(*F, An, o, f.spec.n);
  auto e2 = apply<C>(*F, An, o2, f.spec.n);
  uint64_t faults = 0, npts = 0;
  const size_t n = f.spec.n;
  auto check_apply = [&](C::prec &M, const char *when) {
    double err;
    auto r = apply<C>(M, An, o2, n);
    if (!out_equal(r, e2, TOL, &err)) sim::violate("C07:later-result", "%s, %s gives %s %s (expected %s), relative difference %g", when, opname(o2.kind), sname(r.call.status), r.call.what, sname(e2.call.status), err);
  };
  if (what == 0) {  // construction + factorization on a new object
    fault::arm_alloc(~0ull, 0);
    { auto M = make<C>(); factorize<C>(*M, A, f.par, f.m0); npts = fault::alloc_count(); }
    fault::disarm_all();
    enumerate(npts, 60, [&](uint64_t k) {
      sim::set_context("factorize new object, allocation %llu of %llu fails (%llu)", (unsigned long long)k, (unsigned long long)npts, (unsigned long long)len);
      std::unique_ptr<C::prec> M;
      C::store B = A;
      fault::arm_alloc(k, len);
      Call c0 = guarded([&] { M.reset(new C::prec()); });
      Call c = c0;
      if (c0.ok()) c = factorize<C>(*M, B, f.par, f.m0);
      uint64_t fired = fault::alloc_faults_fired();
      fault::disarm_all();
      faults += fired;
      if (c.status == OTHER) sim::violate("C07:error-type", "unknown exception type");
      if (fired == 0 && c.status != cf.status) sim::violate("C07:spurious", "no fault fired but result differs");
      if (c0.ok() && c.ok()) {
        Queries q = query<C>(*M);
        if (!(q == qf)) sim::violate("C07:wrong-result", "factorization reports success with {%s}, correct is {%s}", q.str().c_str(), qf.str().c_str());
        attach(*M);
        check_apply(*M, "after a factorization that survived a failed allocation");
      } else if (c0.ok()) {
        query<C>(*M);
        Call c2 = factorize<C>(*M, B, f.par, f.m0);
        if (c2.status != cf.status) sim::violate("C07:not-reusable", "second factorization: %s %s, expected %s", sname(c2.status), c2.what, sname(cf.status));
        attach(*M);
        check_apply(*M, "after a failed allocation and a second factorization");
      }
      drop<C>(M);
    });
  } else if (what == 1) {  // applies
    auto W = make<C>();
    Call cw = factorize<C>(*W, A, f.par, f.m0);
    if (!cw.ok()) { drop<C>(W); drop<C>(F); return; }
    attach(*W);
    auto M = make<C>();
    factorize<C>(*M, A, f.par, f.m0);
    attach(*M);
    if (warm) apply<C>(*M, An, o2, n);
    fault::arm_alloc(~0ull, 0);
    apply<C>(*W, An, o, n);
    npts = fault::alloc_count();
    fault::disarm_all();
    drop<C>(W);
    enumerate(npts + 1, 24, [&](uint64_t k) {
      sim::set_context("%s, allocation %llu of %llu fails (%llu)", opname(o.kind), (unsigned long long)k, (unsigned long long)npts, (unsigned long long)len);
      fault::arm_alloc(k, len);
      auto r = apply<C>(*M, An, o, n);
      uint64_t fired = fault::alloc_faults_fired();
      fault::disarm_all();
      faults += fired;
      double err;
      if (r.call.status == OTHER) sim::violate("C07:error-type", "unknown exception type");
      if (r.call.ok() ? !out_equal(r, e, TOL, &err) : (!fired && e.call.ok())) sim::violate("C07:wrong-result", "%s gives %s %s, expected %s; relative difference %g", opname(o.kind), sname(r.call.status), r.call.what, sname(e.call.status), err);
      if (sim::chance(1, 2)) check_apply(*M, "after an apply whose allocation failed");
      auto r2 = apply<C>(*M, An, o, n);
      if (!out_equal(r2, e, TOL, &err)) sim::violate("C07:later-result", "the same %s without fault gives %s, expected %s; relative difference %g", opname(o.kind), sname(r2.call.status), sname(e.call.status), err);
    });
    drop<C>(M);
  } else if (what == 2) {  // refactorization of an object in use
    Fact g = draw_fact(maxn, false);
    C::store G(gen::build<T>(g.spec), g.row, g.base);
    fault::arm_alloc(~0ull, 0);
    { auto M = make<C>(); factorize<C>(*M, G, g.par, g.m0); apply<C>(*M, An, o2, g.spec.n); fault::reset_alloc_count(); factorize<C>(*M, A, f.par, f.m0); npts = fault::alloc_count(); drop<C>(M); }
    fault::disarm_all();
    enumerate(npts, 40, [&](uint64_t k) {
      sim::set_context("refactorize, allocation %llu of %llu fails (%llu)", (unsigned long long)k, (unsigned long long)npts, (unsigned long long)len);
      auto M = make<C>();
      factorize<C>(*M, G, g.par, g.m0);
      attach(*M);
      if (warm) apply<C>(*M, An, o2, g.spec.n);
      fault::arm_alloc(k, len);
      Call c = factorize<C>(*M, A, f.par, f.m0);
      uint64_t fired = fault::alloc_faults_fired();
      fault::disarm_all();
      faults += fired;
      if (!c.ok()) {
        if (!fired && cf.ok()) sim::violate("C07:spurious", "no fault fired but factorization failed");
        c = factorize<C>(*M, A, f.par, f.m0);
        if (c.status != cf.status) sim::violate("C07:not-reusable", "second factorization: %s %s, expected %s", sname(c.status), c.what, sname(cf.status));
      }
      Queries q = query<C>(*M);
      if (!(q == qf)) sim::violate("C07:wrong-result", "object reports {%s}, correct is {%s}", q.str().c_str(), qf.str().c_str());
      check_apply(*M, "after a refactorization with a failed allocation");
      drop<C>(M);
    });
  } else {  // matrix utilities: conversion, transpose, copies, products
    int sub = (int)sim::choose(6);
    auto op = [&](std::vector<T> &res) {
      typename C::crs R(A.n, A.n, An.ptr.data(), An.ind.data(), An.val.data(), true);
      typename C::ccs Cc(A.n, A.n, An.ptr.data(), An.ind.data(), An.val.data(), true);
      return guarded([&] {
        auto dump = [&](const auto &p, const auto &i, const auto &v) {
          fault::Outside out;
          for (auto x : p) res.push_back(T((double)x));
          for (auto x : i) res.push_back(T((double)x));
          for (auto x : v) res.push_back(x);
        };
        switch (sub) {
          case 0: { typename C::ccs X(R); dump(X.col_start(), X.row_ind(), X.vals()); break; }
          case 1: { typename C::crs X(Cc); dump(X.row_start(), X.col_ind(), X.vals()); break; }
          case 2: { typename C::crs X(R, true); X.scale_diag_left(std::vector<double>(A.n, 2.0)); dump(X.row_start(), X.col_ind(), X.vals()); break; }
          case 3: { typename C::crs X; X = typename C::crs(R, true); typename C::crs Y(X, true); dump(Y.row_start(), Y.col_ind(), Y.vals()); break; }
          case 4: { typename C::crs X(R, true); X.split(X.nrows() / 2, X.row_start()); break; }
          default: { typename C::crs X = typename C::crs(R, true); auto Y = X.extract_leading(X.nrows() / 2); dump(Y.row_start(), Y.col_ind(), Y.vals()); }
        }
      });
    };
    if (sub == 4) sub = 0;
    std::vector<T> ref, res;
    fault::arm_alloc(~0ull, 0);
    Call cr = op(ref);
    npts = fault::alloc_count();
    fault::disarm_all();
    enumerate(npts, 60, [&](uint64_t k) {
      sim::set_context("matrix operation %d, allocation %llu fails", sub, (unsigned long long)k);
      res.clear();
      fault::arm_alloc(k, len);
      Call c = op(res);
      uint64_t fired = fault::alloc_faults_fired();
      fault::disarm_all();
      faults += fired;
      if (c.ok() && (res.size() != ref.size() || !same_bits(res.data(), ref.data(), ref.size()))) sim::violate("C07:wrong-result", "matrix operation %d reports success with a different result", sub);
      if (!c.ok() && !fired && cr.ok()) sim::violate("C07:spurious", "failed without a fault");
    });
  }
  if (memcmp(A.val.data(), A0.val.data(), A.val.size() * sizeof(T)) || A.ind != A0.ind || A.ptr != A0.ptr) sim::violate("C07:input-modified", "the input matrix changed");
  drop<C>(F);
  if (fault::live_blocks() != live0) { fault::dump_live(5); sim::violate("C07:leak", "%llu blocks allocated inside the library are still live after every object was destroyed", (unsigned long long)(fault::live_blocks() - live0)); }
  sim::count("probe.fault_points", npts);
  sim::sig(what * 1000 + f.spec.kind * 10 + o.kind); sim::sig(npts * 3 + faults);
  if (faults) sim::nontrivial();
  static const char *wn[] = {"factorize on a new object", "apply", "refactorize", "matrix utilities"};
  sim::describe("%s (%s n=%d): %llu allocations, %llu failed one after another", wn[what], gen::kind_name(f.spec.kind), f.spec.n, (unsigned long long)npts, (unsigned long long)faults);
}
// first-use statics are allocated before any ledger comparison
void warm() {
  gen::Spec s = {0, 6, 1};
  C::store A(gen::build<T>(s), true, 0);
  C::prec M;
  hif::Params p = hif::get_default_params();
  p.verbose = 0;
  typename C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
  M.factorize(W, p);
}
sim::Register reg("C07", run, warm);
}  // namespace
