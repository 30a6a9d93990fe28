// C05: a reused preconditioner behaves like a freshly built one. (also serves C06 histories)
#include "twin.hpp"
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
const double TOL = tol_of<T>();

struct Model { bool fact = false; Fact f; C::store A; bool nsp = false, nspt = false; size_t a0 = 0, b0 = 0; };

void fresh_like(const Model &m, std::unique_ptr<C::prec> &F, C::store &A) {
  F = make<C>();
  if (m.fact) {
    Call c = factorize<C>(*F, A, m.f.par, m.f.m0);
    if (!c.ok()) sim::violate("C05:fresh-differs", "factorization succeeded on the reused object but fails on a fresh one: %s %s", sname(c.status), c.what);
  }
}
void set_nsp(C::prec &M, bool on, bool tran, size_t a, size_t b) {
  Lib l;
  auto p = on ? hif::create_nsp_filter(a, b) : hif::NspFilterPtr();
  (tran ? M.nsp_tran : M.nsp) = p;
}
void run() {
  Twin<C> twin;
  if (sim::chance(1, 2)) twin.start();
  auto O = make<C>();
  Model m;
  int nops = 2 + (int)sim::choose(9), maxn = sim::pick<int>({24, 60, 8});
  uint64_t applies = 0, facts = 0;
  for (int k = 0; k < nops; ++k) {
    int what = (int)sim::choose(8);
    sim::set_context("op %d", k);
    if (what == 0 || (what == 1 && m.fact) || k == 0) {  // factorize
      Fact f = draw_fact(maxn);
      if (sim::chance(1, 3)) f.par.rrqr_cond = sim::pick<double>({3, 30, 1e5, 0});
      log_fact("factorize", f);
      C::store A(gen::build<T>(f.spec), f.row, f.base);
      const char *fk = nullptr;
      if (k && sim::chance(1, 4)) { fk = arm_fault(true, 120); sim::log("   with fault %s", fk ? fk : "-"); }
      Call c = factorize<C>(*O, A, f.par, f.m0);
      bool fired = fk && faults_fired() > 0;
      fault::disarm_all();
      sim::log("   -> %s %s", sname(c.status), c.what);
      sim::count(c.ok() ? "op.factorize_ok" : "op.factorize_failed");
      sim::sig(f.spec.kind * 64 + f.par.pivot * 8 + f.par.is_symm + c.status * 1000);
      ++facts;
      if (c.ok()) {
        bool keepn = m.nsp, keept = m.nspt;
        size_t a0 = m.a0, b0 = m.b0;
        m = Model();
        m.fact = true; m.f = f; m.A = A; m.nsp = keepn; m.nspt = keept; m.a0 = a0; m.b0 = b0;
      } else {
        if (!fired) {
          auto F = make<C>();
          Call c2 = factorize<C>(*F, A, f.par, f.m0);
          if (c2.ok()) sim::violate("C05:reuse-rejects", "factorization fails on the reused object (%s %s) but succeeds on a fresh one", sname(c.status), c.what);
          drop<C>(F);
        }
        m.fact = false;
      }
    } else if (what == 2 && sim::chance(1, 3)) {
      sim::log("clear");
      { Lib l; O->clear(); }
      m = Model();
      sim::count("op.clear");
    } else if (what == 3) {
      bool tr = sim::chance(1, 2), on = sim::chance(1, 2);
      size_t n = m.fact ? m.f.spec.n : 4;
      m.a0 = sim::choose((uint32_t)n); m.b0 = sim::chance(1, 2) ? (size_t)-1 : m.a0 + sim::choose((uint32_t)(n - m.a0 + 1));
      if (m.b0 != (size_t)-1 && m.b0 < m.a0) m.b0 = m.a0;
      // both filters use the range of the last attach
      set_nsp(*O, on, tr, m.a0, m.b0);
      (tr ? m.nspt : m.nsp) = on;
      bool other = tr ? m.nsp : m.nspt;
      if (other) set_nsp(*O, true, !tr, m.a0, m.b0);
      sim::log("null-space filter %s %s [%zu,%zu)", tr ? "left" : "right", on ? "on" : "off", m.a0, m.b0);
      sim::count("op.nsp");
    } else {  // apply
      size_t n = m.fact ? m.f.spec.n : 3;
      Op o = draw_op((int)n);
      C::store A = m.fact ? m.A : C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0);
      if (A.base) { Fact g = m.f; g.base = 0; A = C::store(gen::build<T>(g.spec), g.row, 0); }
      const char *fk = nullptr;
      if (sim::chance(1, 6)) fk = arm_fault(false, 8);
      Out<std::complex<double>> r = apply<C>(*O, A, o, n);
      bool fired = fk && faults_fired() > 0;
      fault::disarm_all();
      sim::log("%s r=%zu iters=%d up=%d seed=%u%s -> %s %s", opname(o.kind), o.r, o.iters, o.up, o.seed, fk ? " (fault armed)" : "", sname(r.call.status), r.call.what);
      sim::count("op.apply"); sim::sig(o.kind * 31 + (m.fact ? 1 : 0) + (fired ? 7777 : 0));
      ++applies;
      if (!m.fact) {
        if (r.call.ok()) sim::violate("C05:empty-applies", "%s succeeded on an object that holds no factorization", opname(o.kind));
      } else if (!(fired && !r.call.ok())) {
        std::unique_ptr<C::prec> F;
        C::store A2(m.A);
        fresh_like(m, F, A2);
        if (m.nsp) set_nsp(*F, true, false, m.a0, m.b0);
        if (m.nspt) set_nsp(*F, true, true, m.a0, m.b0);
        Out<std::complex<double>> e = apply<C>(*F, A, o, n);
        double err;
        if (!out_equal(r, e, TOL, &err))
          sim::violate("C05:apply-differs", "%s on the reused object: %s %s iters=%zu flag=%d; on a fresh object: %s %s iters=%zu flag=%d; relative difference %g", opname(o.kind), sname(r.call.status), r.call.what, r.iters, r.flag, sname(e.call.status), e.call.what, e.iters, e.flag, err);
        drop<C>(F);
        if (twin.on()) {
          TwinReq q;
          q.f = m.f; q.o = o; q.nsp = m.nsp; q.nspt = m.nspt; q.a0 = m.a0; q.b0 = m.b0;
          auto t = twin.ask(q);
          if (t.fact != OK) sim::violate("C05:new-process-differs", "factorization succeeded on the reused object but fails on a new object in a new process: %s", sname(t.fact));
          if (!out_equal(r, t.out, TOL, &err))
            sim::violate("C05:new-process-differs", "%s on the reused object: %s iters=%zu flag=%d; on a new object in a new process: %s iters=%zu flag=%d; relative difference %g", opname(o.kind), sname(r.call.status), r.iters, r.flag, sname(t.app), t.out.iters, t.out.flag, err);
          Queries mq = query<C>(*O);
          if (!(t.q == mq)) sim::violate("C05:new-process-differs", "reused object reports {%s}, a new one in a new process {%s}", mq.str().c_str(), t.q.str().c_str());
        }
      }
      if (r.call.ok()) sim::event_bytes(r.x.data(), r.x.size() * sizeof(r.x[0]));
    }
    // queries at every step
    Queries q = query<C>(*O);
    std::unique_ptr<C::prec> F;
    C::store A2(m.A);
    fresh_like(m, F, A2);
    Queries e = query<C>(*F);
    if (!(q == e)) sim::violate("C05:queries-differ", "reused object reports {%s}, fresh object {%s}", q.str().c_str(), e.str().c_str());
    if (!m.fact && (q.levels || q.nnz || q.rank || q.nrows || q.ncols || q.schur_size || !q.empty)) sim::violate("C05:not-empty", "object without a factorization reports {%s}", q.str().c_str());
    sim::sig(q.levels * 3 + q.nnz);
    drop<C>(F);
  }
  if (applies && facts > 1) sim::nontrivial();
  sim::describe("%d ops, %llu factorizations, %llu applies; last matrix %s n=%d", nops, (unsigned long long)facts, (unsigned long long)applies, gen::kind_name(m.f.spec.kind), m.fact ? m.f.spec.n : 0);
  drop<C>(O);
}
sim::Register reg("C05", run);
}  // namespace
