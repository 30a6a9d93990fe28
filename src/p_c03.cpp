// C03: callers working on different objects do not disturb each other. Every caller runs a script drawn beforehand;
// what it saw among the others must be what it sees alone.
#include "capi.hpp"
#include "sched.hpp"

#if CFG == 0
int c03_int32;  // a strong symbol of its own for each unit
#else
int c03_int64;
#endif
using namespace world;
namespace {
#define BAD(cls, ...) sim::violate("C03:" cls, __VA_ARGS__)

struct Rec {  // what one step showed its caller
  int step = 0, status = 0;
  std::string msg;
  std::vector<size_t> ints;
  std::vector<std::complex<double>> num;
};
struct Script {
  virtual ~Script() {}
  virtual void run(std::vector<Rec> &out) = 0;
  virtual const char *step_name(int k) = 0;
  bool single = false;
  int verbose = 0, oks = 0;
};
std::string cut(const char *s) { std::string t(s ? s : ""); return t.substr(0, t.find("stack trace")); }

struct Draws {  // of the whole run
  int maxn;
  bool verbose, faults;
};
template <class T> gen::Coo<T> dense(int n, uint32_t seed) {
  gen::Coo<T> D;
  D.n = n;
  sim::Rng g(seed);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i == j || g.below(10)) { double a = g.sym(), b = g.sym(); D.e[{i, j}] = gen::Real<T>::make(i == j ? n * 0.7 + a : a, b); }
  return D;
}
hif::Params draw_par(const gen::Spec &sp, const Draws &d) {
  hif::Params p = gen::draw_params(gen::symmetric_kind(sp.kind), d.verbose);
  p.threads = sim::pick<int>({1, 2, 4, 3, 0});
  if (sim::chance(1, 10)) p.tau_L = -1;  // refused
  return p;
}
struct Fault { int kind = 0; uint32_t at = 0; int len = 1; };
Fault draw_fault(const Draws &d, bool fact) {
  Fault f;
  if (!d.faults || !sim::chance(1, 4)) return f;
  f.kind = 1 + (int)sim::choose(2);
  f.at = f.kind == 1 ? sim::choose(fact ? 150 : 4) : sim::choose(3);
  f.len = sim::pick<int>({1, 1000000});
  return f;
}
void arm(const Fault &f) {
  if (f.kind == 1) fault::arm_alloc(f.at, f.len);
  if (f.kind == 2) fault::arm_lapack(f.at, f.len, -3);
}
void disarm() {
  if (fault::alloc_faults_fired()) sim::count("fault.alloc_fail", fault::alloc_faults_fired());
  if (fault::lapack_faults_fired()) sim::count("fault.lapack", fault::lapack_faults_fired());
  fault::arm_alloc(~0ull >> 1, 0); fault::arm_lapack(~0ull >> 1, 0, 0); fault::disarm_all();
}

// ---- scripts over C++ objects ----
template <class V> struct CppScript : Script {
  typedef Cfg<V, LhfInt, LhfIndPtr> C;
  typedef typename C::store store;
  enum { FACT, APPLY, CLEAR, QUERY, FRESH };
  struct Step { int kind, mat; hif::Params par; size_t m0; Op op; Fault f; };
  std::vector<std::shared_ptr<store>> mats;
  std::vector<Step> steps;
  const char *step_name(int k) override { static const char *n[] = {"factorize", "apply", "clear", "queries", "new object"}; return n[steps[k].kind]; }
  CppScript(const Draws &d, std::shared_ptr<store> shared) {
    int nm = 1 + (int)sim::choose(2);
    std::vector<gen::Spec> sp(nm);
    for (int i = 0; i < nm; ++i) {
      sp[i] = gen::draw_spec(d.maxn);
      bool den = sim::chance(1, 3), row = !sim::chance(1, 3);
      if (den) { sp[i].kind = gen::K_DENSE; sp[i].n = 24 + sim::choose(12); }
      mats.push_back(std::make_shared<store>(den ? dense<V>(sp[i].n, sp[i].seed) : gen::build<V>(sp[i]), row, 0));
    }
    if (shared) { mats[0] = shared; sp[0].kind = gen::K_RANDOM; sp[0].n = shared->n; }
    int ns = 2 + (int)sim::choose(4);
    for (int k = 0; k < ns; ++k) {
      Step s;
      s.kind = k == 0 ? sim::pick<int>({FACT, FACT, FACT, FACT, APPLY}) : sim::pick<int>({APPLY, APPLY, FACT, QUERY, CLEAR, FRESH});
      s.mat = (int)sim::choose(nm);
      s.par = draw_par(sp[s.mat], d);
      s.m0 = 0;
      s.op = draw_op(sp[s.mat].n, false);
      s.op.up = false;
      s.f = draw_fault(d, s.kind == FACT);
      steps.push_back(s);
    }
  }
  void run(std::vector<Rec> &out) override {
    auto M = make<C>();
    int have = -1;
    for (size_t k = 0; k < steps.size(); ++k) {
      Step &s = steps[k];
      Rec r;
      r.step = (int)k;
      Call c;
      switch (s.kind) {
        case FACT:
          arm(s.f);
          c = factorize<C>(*M, *mats[s.mat], s.par, s.m0);
          disarm();
          have = c.ok() ? s.mat : -1;
          r.status = c.status; r.msg = c.what;
          if (c.ok()) { ++oks; Queries q = query<C>(*M); r.ints = {q.levels, q.nnz, q.nnz_ef, q.rank, q.schur_rank, q.schur_size}; for (size_t v : q.stats) r.ints.push_back(v); }
          break;
        case APPLY: {
          int a = have < 0 ? s.mat : have;
          arm(s.f);
          auto o = apply<C>(*M, *mats[a], s.op, mats[a]->n);
          disarm();
          r.status = o.call.status; r.msg = o.call.what; r.ints = {o.iters, (size_t)o.flag};
          if (o.call.ok()) { r.num = o.x; ++oks; }
          break;
        }
        case CLEAR: c = guarded([&] { M->clear(); }); r.status = c.status; have = -1; break;
        case FRESH: drop<C>(M); M = make<C>(); have = -1; break;
        case QUERY: { Queries q = query<C>(*M); r.ints = {q.empty, q.levels, q.nnz, q.nnz_ef, q.nnz_ldu, q.rank, q.schur_rank, q.schur_size, q.nrows, q.ncols, (size_t)q.stats_status}; }
      }
      out.push_back(r);
    }
    drop<C>(M);
  }
};

// ---- scripts over C handles ----
template <class F> LhfStatus capi(F f) {
  try {
    Lib l;
    return f();
  } catch (const std::exception &e) {
    BAD("escape", "a C function let an exception out: %.120s", e.what());
  } catch (...) {
    BAD("escape", "a C function let an exception out");
  }
}
template <class V> struct CScript : Script {
  typedef Api<V> A;
  typedef gen::Store<V, LhfInt, LhfIndPtr> store;
  enum { SETUP, REFACT, UPDATE, APPLY, SOLVE, STATS, MESSAGE, CREATE, DESTROY, MATRIX };
  struct Step { int kind, a, s, op, nirs; double betas[2]; bool with_betas, given; uint32_t seed; std::vector<double> par; Fault f; };
  std::vector<std::shared_ptr<store>> mats;
  std::vector<Step> steps;
  const char *step_name(int k) override { static const char *n[] = {"Setup", "Refactorize", "Update", "Apply", "Solve", "GetStats", "lhfGetErrorMsg", "Create", "Destroy", "matrix handle"}; return n[steps[k].kind]; }
  CScript(const Draws &d, std::shared_ptr<store> shared) {
    int nm = 1 + (int)sim::choose(2);
    for (int i = 0; i < nm; ++i) {
      gen::Spec sp = gen::draw_spec(d.maxn);
      bool den = sim::chance(1, 3), row = !sim::chance(1, 3);
      if (den) sp.n = 24 + sim::choose(12);
      mats.push_back(std::make_shared<store>(den ? dense<V>(sp.n, sp.seed) : gen::build<V>(sp), row, 0));
    }
    if (shared) mats[0] = shared;
    int ns = 3 + (int)sim::choose(5);
    for (int k = 0; k < ns; ++k) {
      Step s;
      s.kind = k == 0 ? sim::pick<int>({CREATE, CREATE, CREATE, SOLVE, SETUP}) : sim::pick<int>({APPLY, SETUP, MESSAGE, STATS, REFACT, SOLVE, UPDATE, CREATE, DESTROY, MATRIX});
      s.a = (int)sim::choose(nm + 1) - (sim::chance(1, 2) ? 1 : 0);
      if (s.a >= nm) s.a = 0;
      s.s = (int)sim::choose(nm + 1) - 1;
      s.op = (int)sim::choose(4);
      s.nirs = sim::pick<int>({1, 2, 3, 0});
      s.betas[0] = sim::pick<double>({1e-6, 1e-12, 0.5}); s.betas[1] = sim::pick<double>({10, 0.9, 1e300});
      s.with_betas = sim::chance(1, 2);
      s.seed = sim::choose(1000);
      hif::Params q = draw_par(gen::Spec{gen::K_RANDOM, 10, 1}, d);
      s.given = !sim::chance(1, 6);
      if (d.faults || !d.verbose) s.given = true;  // the defaults are verbose
      s.par.assign(LHF_NUMBER_PARAMS, 0);
      lhfSetDefaultParams(s.par.data());
      auto put = [&](int i, double v) { s.par[i] = v; };
      put(LHF_DROPTOL_L, q.tau_L); put(LHF_DROPTOL_U, q.tau_U); put(LHF_COND_D, q.kappa_d); put(LHF_COND, q.kappa); put(LHF_ALPHA_L, q.alpha_L); put(LHF_ALPHA_U, q.alpha_U);
      put(LHF_VERBOSE, q.verbose); put(LHF_REORDER, q.reorder); put(LHF_SYMMPRELVLS, q.symm_pre_lvls); put(LHF_THREADS, q.threads); put(LHF_PIVOT, q.pivot); put(LHF_DENSE_THRES, q.dense_thres);
      s.f = draw_fault(d, s.kind == SETUP || s.kind == REFACT || s.kind == CREATE);
      steps.push_back(s);
    }
  }
  void run(std::vector<Rec> &out) override {
    std::vector<typename A::Mat> m(mats.size());
    for (size_t i = 0; i < m.size(); ++i) { Lib l; m[i] = A::mcreate(mats[i]->row_major, mats[i]->n, mats[i]->ptr.data(), mats[i]->ind.data(), mats[i]->val.data()); }
    typename A::Hif h = nullptr;
    int  opA = -1;
    auto hdl = [&](int i) { return i < 0 ? nullptr : m[i]; };
    size_t n = 1;
    for (auto &q : mats) n = std::max(n, (size_t)q->n);  // long enough for whatever the handle holds
    for (size_t k = 0; k < steps.size(); ++k) {
      Step &s = steps[k];
      Rec r;
      r.step = (int)k;
      std::vector<V> b = rhs<V>(s.seed, n), x(n, V(-7));
      int st[2] = {-77, -77};
      arm(s.f);
      switch (s.kind) {
        case CREATE:
          if (h) { capi([&] { return A::destroy(h); }); h = nullptr; }
          disarm(); arm(s.f);
          opA = s.a >= 0 ? s.a : s.s;
          capi([&] { h = A::create(hdl(s.a), hdl(s.s), s.given ? s.par.data() : nullptr); return LHF_SUCCESS; });
          r.status = !!h;
          if (h) ++oks; else opA = -1;
          break;
        case SETUP:
          r.status = capi([&] { return A::setup(h, hdl(s.a), hdl(s.s), s.given ? s.par.data() : nullptr); });
          if (h) opA = s.a >= 0 ? s.a : s.s;
          oks += r.status == LHF_SUCCESS;
          break;
        case REFACT: {
          bool same = s.s >= 0 && opA >= 0 && mats[s.s]->n == mats[opA]->n;
          r.status = capi([&] { return A::refactorize(h, same ? hdl(s.s) : nullptr, s.given ? s.par.data() : nullptr); });
          break;
        }
        case UPDATE: r.status = capi([&] { return A::update(h, hdl(s.s)); }); if (h) opA = opA >= 0 && s.s >= 0 && mats[s.s]->n == mats[opA]->n ? s.s : opA; if (r.status == LHF_SUCCESS && h && s.s < 0) capi([&] { return A::update(h, hdl(opA)); }); break;
        case APPLY: r.status = capi([&] { return A::apply(h, (LhfOperationType)s.op, b.data(), s.nirs, s.with_betas ? s.betas : nullptr, LHF_DEFAULT_RANK, x.data(), st); }); break;
        case SOLVE: r.status = capi([&] { return A::solve(h, b.data(), x.data()); }); break;
        case STATS: {
          size_t w[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
          r.status = capi([&] { return A::stats(h, w); });
          r.ints.assign(w, w + 9);
          break;
        }
        case MESSAGE: { const char *t = nullptr; capi([&] { t = lhfGetErrorMsg(); return LHF_SUCCESS; }); r.status = !!t; r.msg = cut(t); break; }
        case DESTROY: r.status = capi([&] { return A::destroy(h); }); h = nullptr; opA = -1; break;
        case MATRIX: {
          typename A::Mat t = nullptr;
          auto &d = *mats[0];
          capi([&] { t = A::mcreate(!d.row_major, 0, nullptr, nullptr, nullptr); return LHF_SUCCESS; });
          if (t) { r.status = capi([&] { return A::mwrap(t, s.given ? d.n : 0, d.ptr.data(), d.ind.data(), d.val.data()); }); r.ints = {A::msize(t), A::mnnz(t)}; capi([&] { return A::mdestroy(t); }); }
          else r.status = -1;
        }
      }
      disarm();
      if (s.kind == APPLY || s.kind == SOLVE) {
        r.ints = {(size_t)st[0], (size_t)st[1]};
        if (r.status == LHF_SUCCESS) { r.num.assign(x.begin(), x.end()); ++oks; }
      }
      if (r.status == LHF_HIFIR_ERROR && s.kind != MESSAGE && s.kind != CREATE && (s.seed & 1)) { r.msg = cut(lhfGetErrorMsg()); }
      out.push_back(r);
    }
    capi([&] { return A::destroy(h); });
    for (auto &t : m) capi([&] { return A::mdestroy(t); });
  }
};
template <class V> std::unique_ptr<Script> draw_script(const Draws &d, bool c, std::shared_ptr<gen::Store<V, LhfInt, LhfIndPtr>> shared = nullptr) {
  std::unique_ptr<Script> s;
  if (c) s.reset(new CScript<V>(d, shared));
  else s.reset(new CppScript<V>(d, shared));
  s->single = sizeof(typename gen::Real<V>::type) == 4;
  return s;
}
void compare(int i, Script &s, std::vector<Rec> &a, std::vector<Rec> &b) {
  double tol = s.single ? 2e-4 : 1e-9;
  for (size_t k = 0; k < a.size(); ++k) {
    const char *w = s.step_name((int)k);
    if (a[k].status != b[k].status) BAD("status", "caller %d, step %zu (%s): status %d %s among other callers, %d %s alone", i, k, w, a[k].status, a[k].msg.c_str(), b[k].status, b[k].msg.c_str());
    if (a[k].msg != b[k].msg) BAD("message", "caller %d, step %zu (%s): message \"%.150s\" among other callers, \"%.150s\" alone", i, k, w, a[k].msg.c_str(), b[k].msg.c_str());
    if (a[k].ints != b[k].ints) {
      std::string p;
      for (size_t j = 0; j < a[k].ints.size() && j < b[k].ints.size(); ++j) p += " " + std::to_string(a[k].ints[j]) + "/" + std::to_string(b[k].ints[j]);
      BAD("counts", "caller %d, step %zu (%s): sizes and statistics differ (among others/alone)%s", i, k, w, p.c_str());
    }
    double err;
    if (a[k].num.size() != b[k].num.size() || !close(a[k].num.data(), b[k].num.data(), a[k].num.size(), tol, &err)) BAD("result", "caller %d, step %zu (%s): the result among other callers differs from the one alone by %g", i, k, w, err);
  }
}
void run() {
  sched::setup();
  sched::set_env_threads(sim::pick<int>({4, 2, 1, 8, 3}));
  sched::set_limit(sim::pick<int>({0, 0, 2, 1}), sim::chance(1, 3));
  sched::set_nested(sim::chance(1, 3));
  Draws d;
  d.maxn = sim::pick<int>({8, 20, 40});
  d.verbose = sim::chance(1, 4);
  d.faults = !d.verbose && sim::chance(1, 3);
  int k = 2 + (sim::chance(1, 3) ? 1 + (int)sim::choose(2) : 0);
  int type = (int)sim::choose(4), api = (int)sim::choose(3);  // all alike, or
  bool mixed = sim::chance(1, 2), share = !mixed && sim::chance(1, 3);
  std::vector<std::unique_ptr<Script>> s;
  std::shared_ptr<gen::Store<double, LhfInt, LhfIndPtr>> shared;
  if (share) { gen::Spec sp = gen::draw_spec(d.maxn); shared = std::make_shared<gen::Store<double, LhfInt, LhfIndPtr>>(gen::build<double>(sp), !sim::chance(1, 3), 0); type = 0; }
  for (int i = 0; i < k; ++i) {
    int t = mixed ? (int)sim::choose(4) : type;
    bool c = api == 0 ? true : api == 1 ? false : sim::chance(1, 2);
    switch (t) {
      case 0: s.push_back(draw_script<double>(d, c, shared)); break;
      case 1: s.push_back(draw_script<float>(d, c)); break;
      case 2: s.push_back(draw_script<std::complex<double>>(d, c)); break;
      case 3: s.push_back(draw_script<std::complex<float>>(d, c)); break;
    }
    sim::sig(t * 2 + c);
  }
  std::vector<std::vector<Rec>> among(k), alone(k);
  sched::set_window();
  sim::set_context("%d callers at once", k);
  sched::callers(k, [&](int i) { s[i]->run(among[i]); });
  uint64_t sw = sched::switches();
  for (int i = 0; i < k; ++i) {
    sim::set_context("caller %d alone", i);
    sched::callers(1, [&](int) { s[i]->run(alone[i]); });
  }
  int oks = 0, errs = 0;
  for (int i = 0; i < k; ++i) {
    sim::set_context("%d callers", k);
    compare(i, *s[i], among[i], alone[i]);
    oks += s[i]->oks;
    for (auto &r : among[i]) { errs += r.status != 0; sim::event(r.status); sim::event_str(r.msg.c_str()); }
  }
  if (sw && oks > 1) sim::nontrivial();
  sim::sig(sw);
  sim::event(sched::accesses());
  sim::count("ops.callers", k);
  sim::count("ops.steps_ok", oks);
  sim::count("ops.steps_failed", errs);
  sim::count("sched.switches", sw);
  sim::count("sched.accesses", sched::accesses());
  sim::count("sched.regions", sched::regions());
  sim::describe("%d callers%s%s, %d successful and %d failed steps, %llu switches", k, mixed ? " of mixed types" : "", share ? " sharing an input matrix" : "", oks / 2, errs, (unsigned long long)sw);
}
sim::Register reg("C03", run);
}  // namespace
