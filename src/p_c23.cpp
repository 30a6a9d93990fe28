// C23: the way the library is built does not change what it does, and its own assertions hold.
#include "world.hpp"
#include "v23.hpp"
#define CAT2(a, b, c) a##b##_##c
#define CAT(a, b, c) CAT2(a, b, c)
extern "C" const V23 CAT(v23_, CFG, 0), CAT(v23_, CFG, 1), CAT(v23_, CFG, 2), CAT(v23_, CFG, 3), CAT(v23_, CFG, 4);
namespace {
using namespace world;
typedef C0 C;
typedef C::T T;
#define BAD(cls, ...) sim::violate("C23:" cls, __VA_ARGS__)
void run() {
  const V23 *V[] = {&CAT(v23_, CFG, 0), &CAT(v23_, CFG, 1), &CAT(v23_, CFG, 2), &CAT(v23_, CFG, 3), &CAT(v23_, CFG, 4)};
  const int NV = 5;
  void *M[NV];
  for (int v = 0; v < NV; ++v) M[v] = V[v]->make();
  int nops = 2 + (int)sim::choose(6), maxn = sim::pick<int>({12, 40, 90});
  bool have = false, cmp[NV] = {};  // the last build has no space dropping: comparable where the limits cannot be reached
  int agreed = 0, facts = 0;
  Fact f;
  gen::Coo<T> A;
  for (int k = 0; k < nops; ++k) {
    sim::set_context("operation %d", k);
    int what = k == 0 ? 0 : (int)sim::choose(6);
    if (what <= 1) {
      f = draw_fact(maxn);
      if (sim::chance(1, 3)) f.par.threads = sim::pick<int>({0, 2, 7});
      if (sim::chance(1, 4)) {  // nothing is dropped: the longest rows
        f.par.tau_L = f.par.tau_U = 0; f.par.alpha_L = f.par.alpha_U = 1e5;
        f.par.kappa = sim::pick<double>({1.5, 3, 1e3}); f.par.kappa_d = sim::pick<double>({3, 30, 1e3});
      }
      if (sim::chance(1, 4)) { f.par.rho = 1e12; f.par.c_d = 0.01; f.par.dense_thres = 1 + (int)sim::choose(8); }
      log_fact("factorize", f);
      A = gen::build<T>(f.spec);
      bool faulty = k && sim::chance(1, 4);
      for (int v = 0; v < NV; ++v) cmp[v] = v < 4 || (f.par.alpha_L >= 1e5 && f.par.alpha_U >= 1e5);
      Call c[NV];
      Queries q[NV];
      for (int v = 0; v < NV; ++v) {
        const char *fk = faulty ? arm_fault(true, 150) : nullptr;
        V[v]->factorize(M[v], &f, &A, &c[v]);
        bool fired = fk && faults_fired();
        fault::disarm_all();
        V[v]->query(M[v], &q[v]);
        if (fired) {
          sim::log("   %s with failing %s -> %s %s", V[v]->name, fk, sname(c[v].status), c[v].what);
          if (!c[v].ok() && !q[v].empty) BAD("failed", "%s: the factorization failed with %s, but the object is not empty", V[v]->name, sname(c[v].status));
          // once more without the failure
          V[v]->factorize(M[v], &f, &A, &c[v]);
          V[v]->query(M[v], &q[v]);
        }
        sim::log("   %s -> %s %s {%s}", V[v]->name, sname(c[v].status), c[v].what, q[v].str().c_str());
        if (!cmp[v]) continue;
        if (v == 4) sim::count("probe.no_space_dropping_compared");
        if (c[v].status != c[0].status) BAD("status", "factorize: %s: %s %s; %s: %s %s", V[v]->name, sname(c[v].status), c[v].what, V[0]->name, sname(c[0].status), c[0].what);
        if (!(q[v] == q[0])) BAD("queries", "%s: {%s}; %s: {%s}", V[v]->name, q[v].str().c_str(), V[0]->name, q[0].str().c_str());
      }
      have = c[0].ok();
      facts += have;
      sim::count("probe.factorizations_compared");
      sim::sig(f.spec.kind * 64 + q[0].levels * 8 + c[0].status); sim::sig(q[0].nnz);
    } else if (what == 5 && sim::chance(1, 2)) {
      sim::log("clear");
      for (int v = 0; v < NV; ++v) V[v]->clear(M[v]);
      have = false;
    } else {
      Op o = draw_op(f.spec.n);
      Out<std::complex<double>> r[NV];
      for (int v = 0; v < NV; ++v) {
        V[v]->apply(M[v], &f, &A, &o, &r[v]);
        if (!cmp[v]) continue;
        double err;
        sim::log("   %s %s -> %s %s", V[v]->name, opname(o.kind), sname(r[v].call.status), r[v].call.what);
        if (!out_equal(r[v], r[0], 0, &err)) BAD("apply", "%s: %s gives %s %s, %s gives %s %s, difference %g", opname(o.kind), V[v]->name, sname(r[v].call.status), r[v].call.what, V[0]->name, sname(r[0].call.status), r[0].call.what, err);
      }
      sim::sig(o.kind);
      sim::count("probe.applies_compared");
      if (have && r[0].call.ok()) ++agreed;
    }
  }
  for (int v = 0; v < NV; ++v) V[v]->drop(M[v]);
  if (facts && agreed) sim::nontrivial();
  sim::describe("%d operations, %d factorizations, %d applies in %d builds", nops, facts, agreed, NV);
}
sim::Register reg("C23", run);
}  // namespace
