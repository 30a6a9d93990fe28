// C04: results do not depend on heap or stack contents, clock, verbosity or environment.
#include "world.hpp"
#include <cstdlib>
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
struct Step {
  int kind = 0;  // 0 factorize, 1 clear, 2 filter, 3 apply
  Fact f;
  Op o;
  bool on = false, tr = false;
  size_t a = 0, b = 0;
  int fault = 0;  // 1 allocation, 2 lapack
  uint32_t k = 0;
};
struct Env { int fill, clock, verbose, stack, hifn, ompn; uint32_t seed; };
struct Res { int status; std::string what; Queries q; std::vector<std::complex<double>> x; size_t iters; int flag; };

__attribute__((noinline)) void dirty_stack(int pat, uint32_t seed) {
  volatile unsigned char buf[160000];
  sim::Rng r(seed);
  for (size_t i = 0; i < sizeof buf; i += 1) buf[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? 0x41 : (unsigned char)(r.s += 0x9E3779B97F4A7C15ull, r.s >> 56);
}
void apply_env(const Env &e) {
  fault::set_fill(e.fill, e.seed);
  fault::set_clock_mode(e.clock, e.seed);
  auto put = [](const char *n, int v) { if (v == 0) unsetenv(n); else { char b[40]; snprintf(b, sizeof b, v == -1 ? "junk" : "%d", v); setenv(n, b, 1); } };
  put("HIF_NUM_THREADS", e.hifn);
  put("OMP_NUM_THREADS", e.ompn);
}
std::vector<Res> execute(const std::vector<Step> &steps, const Env &e, bool trace) {
  std::vector<Res> out;
  apply_env(e);
  auto M = make<C>();
  C::store cur(gen::build<T>(gen::Spec{0, 3, 1}), true, 0);
  for (auto &s : steps) {
    Res r;
    r.status = OK; r.iters = 0; r.flag = 0;
    dirty_stack(e.stack, e.seed + out.size());
    if (s.fault == 1) fault::arm_alloc(s.k, 2);
    if (s.fault == 2) fault::arm_lapack(s.k, 1, -3);
    if (s.kind == 0) {
      C::store A(gen::build<T>(s.f.spec), s.f.row, s.f.base);
      hif::Params p = s.f.par;
      p.verbose = e.verbose;
      Call c = factorize<C>(*M, A, p, s.f.m0);
      fault::disarm_all();
      r.status = c.status; r.what = c.what;
      cur = c.ok() ? C::store(gen::build<T>(s.f.spec), s.f.row, 0) : C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0);
    } else if (s.kind == 1) {
      Call c = guarded([&] { M->clear(); });
      r.status = c.status;
      cur = C::store(gen::build<T>(gen::Spec{0, 3, 1}), true, 0);
    } else if (s.kind == 2) {
      size_t n = cur.n, a = s.a % n, b = s.b == (size_t)-1 ? s.b : a + s.b % (n - a + 1);
      Call c = guarded([&] { (s.tr ? M->nsp_tran : M->nsp) = s.on ? hif::create_nsp_filter(a, b) : hif::NspFilterPtr(); });
      r.status = c.status;
    } else {
      Op o = s.o;
      o.r %= cur.n + 1;
      auto a = apply<C>(*M, cur, o, cur.n);
      r.status = a.call.status; r.what = a.call.what; r.x = a.x; r.iters = a.iters; r.flag = a.flag;
    }
    fault::disarm_all();
    fault::set_fill(e.fill, e.seed + out.size() * 77);
    r.q = query<C>(*M);
    if (trace) sim::log("  %zu: %s %s {%s}", out.size(), sname(r.status), r.what.c_str(), r.q.str().c_str());
    out.push_back(r);
  }
  drop<C>(M);
  return out;
}
void run() {
  std::vector<Step> steps;
  int n = 2 + (int)sim::choose(6), maxn = sim::pick<int>({20, 50, 90});
  bool same_verb = sim::chance(1, 2);
  int napply = 0;
  for (int k = 0; k < n; ++k) {
    Step s;
    int w = k ? (int)sim::choose(10) : 0;
    s.kind = w < 3 ? 0 : w == 3 ? 1 : w == 4 ? 2 : 3;
    if (s.kind == 1 && sim::chance(1, 2)) s.kind = 0;
    if (s.kind == 0) { s.f = draw_fact(maxn, false); log_fact("factorize", s.f); }
    if (s.kind == 2) { s.on = sim::chance(2, 3); s.tr = sim::chance(1, 2); s.a = sim::choose(50); s.b = sim::chance(1, 2) ? (size_t)-1 : sim::choose(50); }
    if (s.kind == 3) { s.o = draw_op(maxn); sim::log("%s r=%zu up=%d", opname(s.o.kind), s.o.r, s.o.up); ++napply; }
    if (sim::chance(1, 5)) { s.fault = same_verb && sim::chance(1, 2) ? 1 : 2; s.k = sim::choose(s.kind == 0 ? (s.fault == 1 ? 120 : 3) : 3); }
    steps.push_back(s);
    sim::sig(s.kind * 100 + s.o.kind * 7 + s.f.spec.kind + s.fault * 1000);
  }
  if (!napply) { Step s; s.kind = 3; s.o = draw_op(maxn); steps.push_back(s); }
  auto draw_env = [&] {
    Env e;
    e.fill = (int)sim::choose(6); e.clock = (int)sim::choose(4);
    e.verbose = sim::pick<int>({0, 0x7fff, hif::VERBOSE_INFO, hif::VERBOSE_INFO | hif::VERBOSE_PRE, hif::VERBOSE_WARN | hif::VERBOSE_FAC | hif::VERBOSE_MEM});
    e.stack = (int)sim::choose(4);
    e.hifn = sim::pick<int>({0, 1, 7, -1, 100000, -5}); e.ompn = sim::pick<int>({0, 1, 3, -1, -2});
    e.seed = sim::choose(1u << 16);
    return e;
  };
  Env e0{fault::FILL_ZERO, 0, 0, 0, 0, 0, 1};
  auto R0 = execute(steps, e0, sim::tracing());
  int others = 2 + (int)sim::choose(2);
  for (int t = 0; t < others; ++t) {
    Env e = draw_env();
    if (same_verb) e.verbose = 0;
    if (t == 0) e.fill = sim::pick<int>({fault::FILL_RANDOM, fault::FILL_FF, fault::FILL_SMALLINT, fault::FILL_BIGIDX, fault::FILL_CB}), e.stack = 1 + (int)sim::choose(3);
    sim::log("execution %d: heap fill %d, stack fill %d, clock %d, verbosity 0x%x, HIF_NUM_THREADS %d, OMP_NUM_THREADS %d", t + 1, e.fill, e.stack, e.clock, e.verbose, e.hifn, e.ompn);
    sim::set_context("second execution with heap fill %d, stack fill %d, clock %d, verbosity 0x%x, HIF_NUM_THREADS %d, OMP_NUM_THREADS %d", e.fill, e.stack, e.clock, e.verbose, e.hifn, e.ompn);
    sim::count(e.fill ? "fault.heap_garbage" : "probe.heap_zero");
    if (e.clock) sim::count("fault.clock_mode");
    if (e.verbose) sim::count("fault.verbosity_change");
    if (e.hifn || e.ompn) sim::count("fault.environment_change");
    auto R = execute(steps, e, sim::tracing());
    for (size_t k = 0; k < R.size(); ++k) {
      const Res &a = R0[k], &b = R[k];
      if (a.status != b.status || a.what != b.what) sim::violate("C04:errors", "operation %zu: \"%s %s\" versus \"%s %s\"", k, sname(a.status), a.what.c_str(), sname(b.status), b.what.c_str());
      if (!(a.q == b.q)) sim::violate("C04:queries", "operation %zu: {%s} versus {%s}", k, a.q.str().c_str(), b.q.str().c_str());
      if (a.iters != b.iters || a.flag != b.flag) sim::violate("C04:refinement", "operation %zu: %zu iterations flag %d versus %zu iterations flag %d", k, a.iters, a.flag, b.iters, b.flag);
      if (a.x.size() != b.x.size() || !same_bits(a.x.data(), b.x.data(), a.x.size())) {
        double err = 0;
        if (a.x.size() == b.x.size()) close(a.x.data(), b.x.data(), a.x.size(), 0, &err);
        sim::violate("C04:values", "operation %zu: the vectors differ (relative difference %g)", k, err);
      }
      sim::count("probe.compared_operations");
    }
  }
  for (auto &r : R0) { sim::sig(r.q.nnz * 3 + r.q.levels + r.status); if (r.status == OK && r.x.size()) sim::nontrivial(); }
  sim::describe("%zu operations executed %d times under different heap, stack, clock, verbosity and environment", steps.size(), others + 1);
}
sim::Register reg("C04", run);
}  // namespace
