// C06: a factorization that fails leaves an empty, reusable object.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
const double TOL = tol_of<T>();

void expect_empty(C::prec &M, size_t n, const Op &o, const char *when) {
  Queries q = query<C>(M);
  if (!q.empty || q.levels || q.nnz || q.nnz_ef || q.nnz_ldu || q.rank || q.nrows || q.ncols || q.schur_size || q.schur_rank)
    sim::violate("C06:not-empty", "%s the object reports {%s}", when, q.str().c_str());
  gen::Spec s1 = {0, (int)n, 1};
  C::store  A(gen::build<T>(s1), true, 0);
  auto      r = apply<C>(M, A, o, n);
  if (r.call.ok()) sim::violate("C06:applies", "%s %s succeeds", when, opname(o.kind));
  sim::count("probe.apply_on_failed_object");
}
// the same through the interface for plain arrays
Call factorize_raw(C::prec &M, C::store &A, const hif::Params &p, size_t m0, bool null) {
  const C::Ptr *ptr = null ? nullptr : A.ptr.data();
  if (A.row_major) return guarded([&] { M.factorize<true>(A.n, ptr, A.ind.data(), A.val.data(), p, m0); });
  return guarded([&] { M.factorize<false>(A.n, ptr, A.ind.data(), A.val.data(), p, m0); });
}
Call factorize_shape(C::prec &M, C::store &A, const hif::Params &p, size_t m0) {
  C::ccs W(A.n + 2, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true);
  return guarded([&] { M.factorize(W, p, m0); });
}
void run() {
  int  maxn = sim::pick<int>({16, 40});
  bool prior = sim::chance(1, 2);
  Fact f0 = prior ? draw_fact(maxn, false) : Fact();
  Fact f  = draw_fact(maxn, false);
  Op   o1 = draw_op(f.spec.n), o2 = draw_op(f.spec.n);
  int  kind = (int)sim::choose(5);  // 0 alloc, 1 lapack, 2 sink, 3 rejected input, 4 alloc until recovered
  if (kind == 2) f.par.verbose = 0x7fff;
  int depth = 1 + (int)sim::choose(3), info = -(int)(1 + sim::choose(6));
  bool raw = sim::chance(1, 3);
  int bad = (int)sim::choose(10), badpos = (int)sim::choose(64);
  if (prior) log_fact("prior", f0);
  log_fact("failing", f);
  C::store A0, A(gen::build<T>(f.spec), f.row, f.base);
  if (prior) A0 = C::store(gen::build<T>(f0.spec), f0.row, f0.base);
  // reference: a fresh object
  auto F = make<C>();
  fault::arm_alloc(~0ull, 0); fault::arm_lapack(~0ull, 0, 0); fault::arm_sink(~0ull, 0);
  Call cf = factorize<C>(*F, A, f.par, f.m0);
  uint64_t na = fault::alloc_count(), nl = fault::lapack_calls(), ns = fault::sink_calls();
  fault::disarm_all();
  Queries qf = query<C>(*F);
  C::store An = A;
  if (A.base) An = C::store(gen::build<T>(f.spec), f.row, 0);
  auto e1 = apply<C>(*F, An, o1, f.spec.n), e2 = apply<C>(*F, An, o2, f.spec.n);
  sim::log("fresh: %s, %llu allocations, %llu lapack, %llu messages", sname(cf.status), (unsigned long long)na, (unsigned long long)nl, (unsigned long long)ns);
  uint64_t n = kind == 0 || kind == 4 ? na : kind == 1 ? nl : kind == 2 ? ns : 1, failed = 0;
  enumerate(n, 40, [&](uint64_t k) {
    sim::set_context("fault kind %d at point %llu of %llu", kind, (unsigned long long)k, (unsigned long long)n);
    auto M = make<C>();
    if (prior) factorize<C>(*M, A0, f0.par, f0.m0);
    Call c;
    uint64_t fired = 0;
    if (kind == 3) {
      C::store B = A;
      hif::Params p = f.par;
      p.check = 1;
      size_t m0 = f.m0;
      size_t nz = B.ind.size();
      switch (bad) {
        case 0: B.ind[badpos % nz] = -3; break;
        case 1: B.ind[badpos % nz] = (C::Int)(B.n + 5); break;
        case 2: B.ptr[0] += 1000; break;
        case 3: for (auto &v : B.val) v = std::numeric_limits<typename gen::Real<T>::type>::quiet_NaN(); break;
        case 4: for (auto &v : B.val) v = T(0); break;
        case 5: p.reorder = 77; break;
        case 7: case 8: case 9: break;
        default: B.ptr[B.n] = B.ptr[0];  // says: no entries
      }
      if (bad == 9) m0 = B.n + 1 + badpos;
      c = bad == 7 ? factorize_raw(*M, B, p, m0, true) : bad == 8 ? factorize_shape(*M, B, p, m0) : raw ? factorize_raw(*M, B, p, m0, false) : factorize<C>(*M, B, p, m0);
      if (bad >= 7 && c.ok()) sim::violate("C06:accepted", "%s is accepted", bad == 7 ? "a missing array" : bad == 8 ? "a matrix that is not square" : "a leading block larger than the matrix");
      fired = 1;
    } else {
      switch (kind) {
        case 0: fault::arm_alloc(k, depth == 1 ? 1 : depth == 2 ? 3 : 1000000); break;
        case 4: fault::arm_alloc(k, 1000000); break;
        case 1: fault::arm_lapack(k, depth == 1 ? 1 : 1000, info); break;
        case 2: fault::arm_sink(k, depth == 1 ? 1 : 1000); break;
      }
      c = raw ? factorize_raw(*M, A, f.par, f.m0, false) : factorize<C>(*M, A, f.par, f.m0);
      fired = faults_fired();
      fault::disarm_all();
    }
    sim::log("  -> %s %s", sname(c.status), c.what);
    if (!c.ok()) {
      ++failed;
      if (kind == 2 && fired && c.status != SINK) sim::violate("C06:error-changed", "the error raised by the message sink arrived as %s %s", sname(c.status), c.what);
      if (c.status == OTHER) sim::violate("C06:error-type", "unknown exception type");
      expect_empty(*M, f.spec.n, o1, "after the failed factorization");
    } else {
      if (kind == 2 && fired) sim::violate("C06:error-lost", "the error raised by the message sink was swallowed");
      if (kind == 1 && fired) sim::violate("C06:error-lost", "the dense kernel failed (%s) but the factorization reports success", fault::last_lapack_fault());
    }
    // refactorize: must equal the fresh object
    if (!(c.ok() && kind == 3)) {
      if (!c.ok()) {
        Call c2 = factorize<C>(*M, A, f.par, f.m0);
        if (c2.status != cf.status) sim::violate("C06:refactorize", "after a failed factorization, factorizing again gives %s %s; a fresh object gives %s %s", sname(c2.status), c2.what, sname(cf.status), cf.what);
      }
      Queries q = query<C>(*M);
      if (!(q == qf)) sim::violate("C06:refactorize-queries", "object reports {%s}, fresh object {%s}", q.str().c_str(), qf.str().c_str());
      auto r1 = apply<C>(*M, An, o1, f.spec.n);
      double err;
      if (!out_equal(r1, e1, TOL, &err)) sim::violate("C06:refactorize-differs", "%s: %s vs fresh %s, relative difference %g", opname(o1.kind), sname(r1.call.status), sname(e1.call.status), err);
      auto r2 = apply<C>(*M, An, o2, f.spec.n);
      if (!out_equal(r2, e2, TOL, &err)) sim::violate("C06:refactorize-differs", "%s: %s vs fresh %s, relative difference %g", opname(o2.kind), sname(r2.call.status), sname(e2.call.status), err);
    } else {
      Queries q = query<C>(*M);
      auto r1 = apply<C>(*M, An, o1, f.spec.n);
    }
    sim::sig(c.status * 7 + k % 5);
    drop<C>(M);
  });
  sim::count("probe.failed_factorizations", failed);
  sim::sig(f.spec.kind * 40 + kind * 5 + prior); sim::sig(qf.levels * 1000 + qf.nnz);
  if (failed) sim::nontrivial();
  static const char *kn[] = {"allocation", "lapack", "message sink", "rejected input", "out of memory"};
  sim::describe("%s failure in factorize(%s n=%d), %llu points, %llu failed, %s", kn[kind], gen::kind_name(f.spec.kind), f.spec.n, (unsigned long long)n, (unsigned long long)failed, prior ? "object factorized before" : "new object");
  drop<C>(F);
}
sim::Register reg("C06", run);
}  // namespace
