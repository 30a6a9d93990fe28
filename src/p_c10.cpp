// C10: failing or misbehaving user callbacks cannot damage the preconditioner.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
typedef std::complex<double> Z;
const double TOL = tol_of<T>();

// what the simulated user callback does; shared by filters and operators
struct Script {
  int  fail_at = -1;   // raise at this call (0-based)
  int  what = 0;       // 0 user error, 1 bad_alloc, 2 runtime_error, 3 int
  int  when = 0;       // 0 before writing, 1 after writing half, 2 after writing everything (all wrong)
  bool nested = false; // calls back into the preconditioner
};
struct Seen { size_t n; char tag; const void *p; std::vector<Z> before; };
struct IntError {};
struct Recorder {
  Script          s;
  std::vector<Seen> seen;
  uint32_t        alpha = 1;
  std::function<void()> nest;
  int             tag_expected = 0;
  void raise() {
    sim::count("fault.callback_throws");
    switch (s.what) {
      case 1: throw std::bad_alloc();
      case 2: throw std::runtime_error("message: callback failed\n");
      case 3: throw 4711;
      default: throw UserError{77};
    }
  }
  // the filter: projects out a fixed vector w (w_i = 1 + i mod 3), complex-safe
  void run(void *x, size_t n, char tag) {
    Seen q{n, tag, x, {}};
    bool dbl = tag == 'd';
    const bool cplx = gen::Real<T>::cplx;
    auto body = [&](auto zero) {
      typedef decltype(zero) V;
      V *v = (V *)x;
      for (size_t i = 0; i < n; ++i) q.before.push_back(Z(v[i]));
      int k = (int)seen.size();
      seen.push_back(q);
      bool fail = k == s.fail_at;
      if (s.nested && nest) nest();
      if (fail && s.when == 0) raise();
      if (fail) { for (size_t i = 0; i < (s.when == 1 ? n / 2 : n); ++i) v[i] = V((typename gen::Real<V>::type)(i % 2 ? std::numeric_limits<float>::quiet_NaN() : 1e30)); raise(); }
      V dot(0), ww(0);
      for (size_t i = 0; i < n; ++i) { V w((typename gen::Real<V>::type)(1 + (i + alpha) % 3)); dot += w * v[i]; ww += w * w; }
      for (size_t i = 0; i < n; ++i) v[i] -= V((typename gen::Real<V>::type)(1 + (i + alpha) % 3)) * dot / ww;
    };
    if (cplx) { if (dbl) body(Z(0)); else body(std::complex<float>(0)); }
    else { if (dbl) body(double(0)); else body(float(0)); }
  }
};
struct UserFilter : hif::NspFilter {
  Recorder *r;
  UserFilter(Recorder *r_) : r(r_) { _type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char tag) const override { fault::Outside o; r->run(x, n, tag); }
};
struct NoOverride : hif::NspFilter { NoOverride() { _type = USER_OR; } };

// a second preconditioner of the same types that user code may use from inside its callbacks
struct Inner {
  std::unique_ptr<C::prec> M;
  std::unique_ptr<C::store> A;
  Fact f;
  size_t n = 0;
  std::vector<T> b, want[4];
  bool fin[4];
  // 0 fixed refinement, 1 bounded refinement, 2 solve, 3 product; 4 factorize again
  bool compute(int what, std::vector<T> &x) {
    x.assign(n, T(0));
    const hif::Array<T> B(n, b.data(), true);
    hif::Array<T> X(n, x.data(), true);
    typename C::crs W(n, n, A->ptr.data(), A->ind.data(), A->val.data(), true);
    double betas[2] = {1e-3, 1e10};
    Call c = guarded([&] {
      if (what == 0) M->hifir(W, B, 3, X);
      else if (what == 1) M->hifir(W, B, 4, betas, X);
      else if (what == 2) M->solve(B, X);
      else M->mmultiply(B, X);
    });
    return c.ok();
  }
  void start() {
    f = draw_fact(sim::pick<int>({6, 20, 45}), false);
    f.par.check = 1;
    f.row = true; f.base = 0;
    auto t = gen::build<T>(f.spec);
    A.reset(new C::store(t, true, 0));
    M = make<C>();
    if (!factorize<C>(*M, *A, f.par, f.m0).ok()) { drop<C>(M); return; }
    n = f.spec.n;
    b = rhs<T>(3, n);
    for (int k = 0; k < 4; ++k) {
      fin[k] = compute(k, want[k]);
      for (auto &v : want[k]) if (!std::isfinite(gen::mag(v))) fin[k] = false;
    }
  }
  void use(int what) {
    if (!M) return;
    sim::count("fault.nested_other");
    if (what >= 4) {
      if (!factorize<C>(*M, *A, f.par, f.m0).ok()) sim::violate("C10:nested", "factorizing another object inside a callback fails");
      what = 2;
    }
    if (!fin[what]) return;
    std::vector<T> x;
    bool ok = compute(what, x);
    if (!ok || !close(x.data(), want[what].data(), n, TOL)) sim::violate("C10:nested", "another object gives another result when it is used inside a callback (%s)", what < 2 ? "refinement" : what == 2 ? "solve" : "product");
  }
} *g_inner = nullptr;

enum FKind { F_NONE, F_CONST, F_CB, F_DERIVED, F_BADRANGE, F_NOOVERRIDE, F_NKINDS };
struct Side {
  int kind = F_NONE;
  size_t a = 0, b = (size_t)-1;
  Recorder rec;
  hif::NspFilterPtr ptr;
};
// guarded call that also knows the user's own exception types
template <class F> Call call(F f, bool *is_int) {
  *is_int = false;
  Call c;
  c = guarded([&] { try { f(); } catch (int v) { if (v != 4711) throw; *is_int = true; throw UserError{4711}; } });
  return c;
}
void expected_error(const Script &s, const Call &c, bool is_int, const char *where) {
  int want = s.what == 1 ? NOMEM : s.what == 2 ? ERR : USER;
  bool same = c.status == want && (s.what != 2 || !strcmp(c.what, "callback failed")) && (s.what != 0 || (c.code == 77 && !is_int)) && (s.what != 3 || is_int);
  if (!same) sim::violate("C10:error-changed", "%s: the callback raised error kind %d, the caller received %s \"%s\"", where, s.what, sname(c.status), c.what);
}
template <class VT> void const_filter(std::vector<VT> &x, size_t a, size_t b) {
  if (b == (size_t)-1 || b < a) b = x.size();
  if (a == b) return;
  VT s(0);
  for (size_t i = a; i < b; ++i) s += x[i];
  s /= VT((typename gen::Real<VT>::type)(b - a));
  for (size_t i = a; i < b; ++i) x[i] -= s;
}
bool bad(const Side &s, size_t n) { size_t e = s.b == (size_t)-1 || s.b < s.a ? n : s.b; return e < s.a || e > n; }

void attach(C::prec &M, Side &s, bool tr, size_t n) {
  int kind = (int)sim::choose(F_NKINDS);
  s.rec.alpha = sim::choose(3);
  s.a = sim::choose((uint32_t)n);
  s.b = sim::chance(1, 2) ? (size_t)-1 : s.a + sim::choose((uint32_t)(n - s.a + 1));
  hif::NspFilterPtr &p = tr ? M.nsp_tran : M.nsp;
  bool reuse = s.ptr && s.kind != F_DERIVED && s.kind != F_NOOVERRIDE && sim::chance(1, 2);
  auto cb = [&s](void *x, const std::size_t m, const char tag) { fault::Outside o; s.rec.run(x, m, tag); };
  Call c = guarded([&] {
    switch (kind) {
      case F_NONE: p.reset(); break;
      case F_CONST:
        if (reuse) p->set_nsp_const(s.a, s.b); else p = hif::create_nsp_filter(s.a, s.b);
        break;
      case F_BADRANGE:
        s.b = n + 1 + s.a % 3; 
        if (reuse) p->set_nsp_const(s.a, s.b); else p = hif::create_nsp_filter(s.a, s.b);
        break;
      case F_CB:
        if (reuse) p->set_nsp_callback(hif::NspFilter::user_cb_type(cb)); else p = hif::create_nsp_filter(hif::NspFilter::user_cb_type(cb));
        break;
      case F_DERIVED: p.reset(new UserFilter(&s.rec)); break;
      default: p.reset(new NoOverride());
    }
  });
  if (!c.ok()) sim::violate("C10:attach", "attaching a filter: %s %s", sname(c.status), c.what);
  s.kind = kind;
  s.ptr  = p;
  sim::log("attach %s filter kind %d [%zu,%zd) %s", tr ? "left" : "right", kind, s.a, s.b, reuse ? "(same filter object)" : "");
}
template <class VT>
void solve_op(C::prec &M, C::prec &S, Side side[2], size_t n) {
  bool tr = sim::chance(1, 2);
  Side &sd = side[tr];
  size_t r = sim::chance(1, 5) ? 1 + sim::choose((uint32_t)n) : 0;
  auto b = rhs<VT>(sim::choose(1000), n);
  std::vector<VT> b0(b), x(n, VT(2)), plain(n);
  Script sc;
  if (sim::chance(1, 2)) { sc.fail_at = 0; sc.what = (int)sim::choose(4); sc.when = (int)sim::choose(3); }
  sc.nested = sim::chance(1, 4);
  bool has_cb = sd.kind == F_CB || sd.kind == F_DERIVED;
  for (int k = 0; k < 2; ++k) { side[k].rec.s = sc; side[k].rec.seen.clear(); }
  {
    const hif::Array<VT> B(n, b.data(), true);
    hif::Array<VT> X(n, plain.data(), true);
    guarded([&] { S.solve(B, X, tr, r); });
  }
  const hif::Array<VT> B(n, b.data(), true);
  hif::Array<VT> X(n, x.data(), true);
  // a nested use of the preconditioner from inside the callback (product, does not filter)
  std::vector<VT> nx(n);
  int nk = sc.nested ? (int)sim::choose(6) : 5;
  auto nest = [&] {
    if (nk < 5 && g_inner) { g_inner->use(nk); return; }
    hif::Array<VT> NX(n, nx.data(), true);
    const hif::Array<VT> NB(n, b0.data(), true);
    M.mmultiply(NB, NX, tr);
    sim::count("fault.nested_call");
  };
  side[0].rec.nest = side[1].rec.nest = nest;
  bool is_int;
  Call c = call([&] { M.solve(B, X, tr, r); }, &is_int);
  sim::log("solve trans=%d r=%zu type %zu fail_at %d what %d when %d nested %d -> %s %s", tr, r, sizeof(VT), sc.fail_at, sc.what, sc.when, sc.nested, sname(c.status), c.what);
  sim::sig(tr + sd.kind * 2 + (sc.fail_at + 1) * 20 + sc.what * 50 + sc.when * 300 + sc.nested * 1000);
  if (!same_bits(b.data(), b0.data(), n)) sim::violate("C10:rhs", "the right-hand side changed");
  if (M.nsp != side[0].ptr || M.nsp_tran != side[1].ptr) sim::violate("C10:filter-lost", "an attached filter was replaced");
  if (side[!tr].rec.seen.size()) sim::violate("C10:wrong-side", "the filter of the other side was called");
  if (sd.kind == F_NONE || sd.kind == F_CONST) {
    if (!c.ok()) sim::violate("C10:fails", "solve: %s %s", sname(c.status), c.what);
    std::vector<VT> e(plain);
    if (sd.kind == F_CONST) const_filter(e, sd.a, sd.b);
    double err, m = 0, d = 0;
    for (size_t i = 0; i < n; ++i) { if (!std::isfinite(gen::mag(plain[i]))) return; m = std::max(m, gen::mag(plain[i])); d = std::max(d, gen::mag(e[i] - x[i])); }
    (void)err;
    if (!(d <= 1e3 * std::numeric_limits<R>::epsilon() * m)) sim::violate("C10:filter-result", "solve with a constant filter [%zu,%zd) differs by %g of %g", sd.a, sd.b, d, m);
    sim::count("probe.constant_filter");
    return;
  }
  if (sd.kind == F_BADRANGE || sd.kind == F_NOOVERRIDE) {
    if (c.status != ERR) sim::violate("C10:filter-unusable", "an unusable filter was accepted: %s", sname(c.status));
    return;
  }
  if (!has_cb) return;
  if (sd.rec.seen.size() != 1) sim::violate("C10:filter-calls", "filter called %zu times in one solve", sd.rec.seen.size());
  const Seen &q = sd.rec.seen[0];
  if (q.n != n || q.tag != tag_of<VT>() || q.p != (void *)x.data()) sim::violate("C10:filter-arguments", "filter called with length %zu tag %c (expected %zu %c), %s", q.n, q.tag, n, tag_of<VT>(), q.p == (void *)x.data() ? "own vector" : "foreign vector");
  bool fin = true;
  for (size_t i = 0; i < n; ++i) if (!std::isfinite(gen::mag(plain[i]))) fin = false;
  if (fin) {
    double m = 0, d = 0;
    for (size_t i = 0; i < n; ++i) m = std::max(m, gen::mag(plain[i])), d = std::max(d, std::abs(q.before[i] - Z(plain[i])));
    if (!(d <= 1e2 * std::numeric_limits<R>::epsilon() * m)) sim::violate("C10:filter-arguments", "the filter received a vector that differs from the solution by %g of %g", d, m);
  }
  sim::count("probe.filter_called");
  if (sc.fail_at == 0) {
    if (c.ok()) sim::violate("C10:error-lost", "the error of the filter was swallowed by solve");
    expected_error(sc, c, is_int, "filter during solve");
  } else {
    if (!c.ok()) sim::violate("C10:fails", "solve: %s %s", sname(c.status), c.what);
    if (fin) {
      Recorder t; t.alpha = sd.rec.alpha;
      std::vector<VT> e(plain);
      t.run(e.data(), n, tag_of<VT>());
      double m = 0, d = 0;
      for (size_t i = 0; i < n; ++i) m = std::max(m, gen::mag(plain[i])), d = std::max(d, gen::mag(e[i] - x[i]));
      if (!(d <= 1e2 * std::numeric_limits<R>::epsilon() * m)) sim::violate("C10:filter-result", "the filtered solution differs by %g of %g", d, m);
    }
  }
}
// refinement with a failing operator and/or filter
template <class VT>
void refine_op(C::prec &M, C::prec &S, C::store &A, Side side[2], size_t n) {
  bool tr = sim::chance(1, 2), bounded = sim::chance(1, 2);
  Side &sd = side[tr];
  int N = 1 + (int)sim::choose(5);
  auto b = rhs<VT>(sim::choose(1000), n);
  std::vector<VT> b0(b), x(n, VT(2));
  Script so, sf;
  bool of = sim::chance(1, 2), ff = sim::chance(1, 3);
  if (of) { so.fail_at = (int)sim::choose(4); so.what = (int)sim::choose(4); so.when = (int)sim::choose(3); }
  if (ff) { sf.fail_at = (int)sim::choose(4); sf.what = (int)sim::choose(4); sf.when = (int)sim::choose(3); }
  bool nested = sim::chance(1, 3);
  int nk = nested ? (int)sim::choose(6) : 5;
  for (int k = 0; k < 2; ++k) { side[k].rec.s = sf; side[k].rec.seen.clear(); side[k].rec.nest = nullptr; }
  int ocalls = 0;
  bool bad_args = false;
  Recorder orec;
  orec.s = so;
  auto op = [&](const void *px, const std::size_t len, const char tx, void *py, const char ty, const bool t) {
    fault::Outside o;
    // bounded: user type in, work type out; fixed count: the other way round
    char ex = bounded ? tag_of<VT>() : tag_of<T>(), ey = bounded ? tag_of<T>() : tag_of<VT>();
    if (len != n || tx != ex || ty != ey || t != tr) { bad_args = true; return; }
    auto body = [&](auto zx, auto zy) {
      typedef decltype(zx) X_;
      typedef decltype(zy) Y_;
      const X_ *xx = (const X_ *)px;
      Y_ *yy = (Y_ *)py;
      int k = ocalls++;
      if (nested && nk < 5 && g_inner) g_inner->use(nk);
      else if (nested) {
        std::vector<VT> nb(b0), nx(n);
        const hif::Array<VT> NB(n, nb.data(), true);
        hif::Array<VT> NX(n, nx.data(), true);
        M.mmultiply(NB, NX, tr);
        sim::count("fault.nested_call");
      }
      std::vector<Z> acc(n, Z(0));
      for (int i = 0; i < A.n; ++i)
        for (C::Ptr q = A.ptr[i]; q < A.ptr[i + 1]; ++q) {
          int r = A.row_major ? i : (int)A.ind[q], c = A.row_major ? (int)A.ind[q] : i;
          if (!tr) acc[r] += Z(A.val[q]) * Z(xx[c]);
          else acc[c] += std::conj(Z(A.val[q])) * Z(xx[r]);
        }
      size_t lim = n;
      bool fail = k == so.fail_at;
      if (fail && so.when == 0) orec.raise();
      if (fail && so.when == 1) lim = n / 2;
      for (size_t i = 0; i < lim; ++i) yy[i] = gen::Real<Y_>::make(acc[i].real(), acc[i].imag());
      if (fail) orec.raise();
    };
    if (bounded) body(VT(0), T(0)); else body(T(0), VT(0));
  };
  typedef std::function<void(const void *, const std::size_t, const char, void *, const char, const bool)> OpFn;
  OpFn fn = op;
  double betas[2] = {1e-12, 1e300};
  std::pair<size_t, int> res(0, 0);
  bool is_int;
  const hif::Array<VT> B(n, b.data(), true);
  hif::Array<VT> X(n, x.data(), true);
  Call c = call([&] { if (bounded) res = M.hifir(fn, B, (size_t)N, betas, X, tr, (size_t)0); else M.hifir(fn, B, (size_t)N, X, tr, (size_t)0); }, &is_int);
  size_t fcalls = sd.rec.seen.size();
  bool has_cb = sd.kind == F_CB || sd.kind == F_DERIVED;
  bool ofail = so.fail_at >= 0 && so.fail_at < ocalls, ffail = has_cb && sf.fail_at >= 0 && sf.fail_at < (int)fcalls;
  sim::log("refine %s N=%d trans=%d type %zu: operator fails at %d kind %d, filter fails at %d kind %d -> %s %s (%d operator calls, %zu filter calls)", bounded ? "bounded" : "fixed", N, tr, sizeof(VT), so.fail_at, so.what, sf.fail_at, sf.what, sname(c.status), c.what, ocalls, fcalls);
  sim::sig(N * 3 + ofail * 100 + ffail * 200 + bounded * 400 + sd.kind * 1000);
  if (bad_args) sim::violate("C10:operator-arguments", "operator called with a wrong length, type tag or transpose flag");
  if (!same_bits(b.data(), b0.data(), n)) sim::violate("C10:rhs", "the right-hand side changed");
  if (M.nsp != side[0].ptr || M.nsp_tran != side[1].ptr) sim::violate("C10:filter-lost", "an attached filter was replaced");
  if (side[!tr].rec.seen.size()) sim::violate("C10:wrong-side", "the filter of the other side was called");
  if (ofail || ffail) {
    if (c.ok()) sim::violate("C10:error-lost", "the error of the %s was swallowed by refinement", ofail ? "operator" : "filter");
    // only one of them can have fired first; it is the one that got the control last
    bool op_first = ofail && !ffail;
    if (ofail && ffail) sim::violate("C10:continues", "refinement went on after a callback had raised an error");
    expected_error(op_first ? so : sf, c, is_int, op_first ? "operator during refinement" : "filter during refinement");
    if (op_first ? ocalls != so.fail_at + 1 : (int)fcalls != sf.fail_at + 1) sim::violate("C10:continues", "a callback was called again after it had raised an error");
    return;
  }
  if (sd.kind == F_BADRANGE || sd.kind == F_NOOVERRIDE) {
    if (c.status != ERR) sim::violate("C10:filter-unusable", "an unusable filter was accepted: %s", sname(c.status));
    return;
  }
  if (!c.ok()) sim::violate("C10:fails", "refinement: %s %s", sname(c.status), c.what);
  size_t solves = bounded ? res.first : (size_t)N;
  if (has_cb && fcalls != solves) sim::violate("C10:filter-calls", "filter called %zu times in %zu solves", fcalls, solves);
  if (!bounded && ocalls != N - 1) sim::violate("C10:operator-calls", "operator called %d times in %d iterations", ocalls, N);
  for (auto &q : sd.rec.seen) {
    char et = N <= 1 ? tag_of<VT>() : tag_of<T>();
    if (q.n != n || q.tag != et) sim::violate("C10:filter-arguments", "filter called with length %zu tag %c (expected %zu %c)", q.n, q.tag, n, et);
  }
  sim::count("probe.refinement");
  if (nested) {  // the same refinement without the nested use
    nested = false;
    std::vector<VT> x2(n, VT(2));
    hif::Array<VT> X2(n, x2.data(), true);
    std::pair<size_t, int> res2(0, 0);
    for (int k = 0; k < 2; ++k) side[k].rec.s = Script();
    so = orec.s = Script();
    Call c2 = call([&] { if (bounded) res2 = M.hifir(fn, B, (size_t)N, betas, X2, tr, (size_t)0); else M.hifir(fn, B, (size_t)N, X2, tr, (size_t)0); }, &is_int);
    if (!c2.ok()) sim::violate("C10:fails", "refinement: %s %s", sname(c2.status), c2.what);
    bool fin = true;
    for (auto &v : x2) if (!std::isfinite(gen::mag(v))) fin = false;
    if (res2 != res || (fin && !close(x.data(), x2.data(), n, TOL))) sim::violate("C10:nested", "refinement gives another result when its operator uses preconditioners");
  }
}
void run() {
  Fact f = draw_fact(sim::pick<int>({10, 30}), false);
  f.par.check = 1;
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), An(gen::build<T>(f.spec), f.row, 0);
  auto M = make<C>(), S = make<C>();
  Call c = factorize<C>(*M, A, f.par, f.m0);
  if (!c.ok()) { drop<C>(M); drop<C>(S); sim::sig(c.status); return; }
  factorize<C>(*S, A, f.par, f.m0);
  size_t n = f.spec.n;
  Inner inner;
  g_inner = nullptr;
  if (sim::chance(1, 3)) { inner.start(); g_inner = &inner; }
  Side side[2];
  int steps = 3 + (int)sim::choose(9), fired = 0;
  const bool has_up = sizeof(typename Up<T>::type) != sizeof(T);
  for (int k = 0; k < steps; ++k) {
    sim::set_context("operation %d", k);
    int what = k ? (int)sim::choose(10) : 0;
    bool up = has_up && sim::chance(1, 3);
    if (what < 3) { int t = (int)sim::choose(2); attach(*M, side[t], t != 0, n); }
    else if (what < 6) { if (up) solve_op<typename Up<T>::type>(*M, *S, side, n); else solve_op<T>(*M, *S, side, n); ++fired; }
    else if (what < 8) { if (up) refine_op<typename Up<T>::type>(*M, *S, An, side, n); else refine_op<T>(*M, *S, An, side, n); ++fired; }
    else if (what == 8) {  // empty callback is refused and changes nothing
      Side &s = side[sim::choose(2)];
      if (s.ptr && s.kind != F_DERIVED && s.kind != F_NOOVERRIDE) {
        Call ce = guarded([&] { s.ptr->set_nsp_callback(hif::NspFilter::user_cb_type()); });
        if (ce.status != ERR) sim::violate("C10:empty-callback", "an empty callback was accepted: %s", sname(ce.status));
        sim::log("empty callback refused");
      }
    } else {  // operations that never filter
      std::vector<T> b = rhs<T>(k, n * 2), x(n * 2), y(n * 2);
      Op o;
      for (int t = 0; t < 2; ++t) side[t].rec.seen.clear(), side[t].rec.s = Script(), side[t].rec.nest = nullptr;
      Call cm = apply_mrhs<2, C>(*M, o, n, b, x);
      if (side[0].ptr) { if (cm.status != ERR) sim::violate("C10:mrhs", "solve with several right-hand sides ignores the null-space filter: %s", sname(cm.status)); }
      else {
        if (!cm.ok()) sim::violate("C10:fails", "solve_mrhs: %s %s", sname(cm.status), cm.what);
        apply_mrhs<2, C>(*S, o, n, b, y);
        if (!close(x.data(), y.data(), 2 * n, TOL)) sim::violate("C10:aftermath", "solve_mrhs differs from an undisturbed preconditioner");
      }
      Op om; om.kind = sim::chance(1, 2) ? OP_MULT : OP_TMULT; om.seed = k;
      auto r1 = apply<C>(*M, An, om, n), r2 = apply<C>(*S, An, om, n);
      double err;
      if (!out_equal(r1, r2, TOL, &err)) sim::violate("C10:aftermath", "%s differs from an undisturbed preconditioner by %g", opname(om.kind), err);
      if (side[0].rec.seen.size() + side[1].rec.seen.size()) sim::violate("C10:wrong-operation", "a filter was called by an operation that does not filter");
    }
  }
  // detach everything: the preconditioner is the undisturbed one
  M->nsp.reset();
  M->nsp_tran.reset();
  for (int k = 0; k < 2; ++k) {
    Op o; o.kind = k; o.seed = 5 + k;
    auto r1 = apply<C>(*M, An, o, n), r2 = apply<C>(*S, An, o, n);
    double err;
    if (!out_equal(r1, r2, TOL, &err)) sim::violate("C10:aftermath", "after the history %s differs from an undisturbed preconditioner by %g", opname(k), err);
  }
  if (!(query<C>(*M) == query<C>(*S))) sim::violate("C10:aftermath", "reported sizes changed");
  if (fired) sim::nontrivial();
  sim::sig(f.spec.kind); sim::sig(n);
  sim::describe("%d operations with user callbacks on %s n=%zu", steps, gen::kind_name(f.spec.kind), n);
  if (inner.M) drop<C>(inner.M);
  g_inner = nullptr;
  drop<C>(M); drop<C>(S);
}
sim::Register reg("C10", run);
}  // namespace
