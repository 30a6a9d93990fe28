// C22: the way a matrix is handed over does not matter: any accepted form of one matrix gives the same preconditioner.
#include "world.hpp"
using namespace world;
namespace {
#if CFG == 0
typedef double T;
typedef long I2; typedef long P2;
#elif CFG == 1
typedef std::complex<double> T;
typedef long I2; typedef std::ptrdiff_t P2;
#elif CFG == 2
typedef float T;
typedef int I2; typedef int P2;
#else
typedef std::complex<float> T;
typedef long I2; typedef std::ptrdiff_t P2;
#endif
typedef gen::Real<T>::type R;
typedef Cfg<T, int, std::ptrdiff_t> CA;  // two preconditioner types that differ in their integers only
typedef Cfg<T, I2, P2>              CB;
typedef hif::HIF<T, int, std::ptrdiff_t> MA;
typedef hif::HIF<T, I2, P2>              MB;
#define BAD(cls, ...) sim::violate("C22:" cls, __VA_ARGS__)

// one way of handing a matrix over
struct Form {
  bool row = true, two = false;  // by row or by column; which preconditioner type
  int  base = 0, how = 0;        // wrapped arrays, arrays owned by the matrix object, plain arrays
  int  val = 0;                  // value type: the preconditioner's, the other precision, real of both
  int  ptr = 0;                  // start array: the preconditioner's type, the other width
  int  slack = 0;                // entries of the arrays after the end of the matrix
  std::string str() const {
    char b[200];
    snprintf(b, sizeof b, "%s, base %d, %s, %s values, %s starts, %d spare, preconditioner type %d", row ? "CRS" : "CCS", base, how == 0 ? "wrapped" : how == 1 ? "owned" : "plain arrays", val == 0 ? "same" : val == 1 ? "other precision" : val == 2 ? "real" : "real, other precision", ptr ? "other" : "same", slack, (int)two);
    return b;
  }
};
template <class V> struct OtherPrec;
template <> struct OtherPrec<double> { typedef float type; };
template <> struct OtherPrec<float> { typedef double type; };
template <class V> struct OtherPrec<std::complex<V>> { typedef std::complex<typename OtherPrec<V>::type> type; };
template <class V> struct Conv { static V of(const std::complex<double> &z) { return V(z.real()); } };
template <class V> struct Conv<std::complex<V>> { static std::complex<V> of(const std::complex<double> &z) { return std::complex<V>(V(z.real()), V(z.imag())); } };

// calls of the library happen inside of guarded(), the caller's arrays are checked for changes
template <class M, class I, class P, class V>
Call hand(M &m, const gen::Coo<T> &A, const Form &f, const hif::Params &p, size_t m0) {
  gen::Store<T, I, P> s(A, f.row, f.base);
  std::vector<V> val;
  for (auto &v : s.val) val.push_back(Conv<V>::of(std::complex<double>(v)));
  for (int k = 0; k < f.slack; ++k) { s.ind.push_back((I)(k % 2 ? -1 : 1 << 30)); val.push_back(V(std::numeric_limits<typename gen::Real<V>::type>::quiet_NaN())); }
  if (f.slack && f.how == 0) s.ptr.push_back((P)(1 << 30));
  val.reserve(1);
  auto ptr0 = s.ptr; auto ind0 = s.ind; auto val0 = val;
  size_t n = (size_t)A.n;
  Call c;
  auto obj = [&](auto &W) {
    if (f.slack && f.how == 0) {  // arrays longer than the matrix needs
      W.ind_start() = hif::Array<P>(s.ptr.size(), s.ptr.data(), true);
      W.inds()      = hif::Array<I>(s.ind.size(), s.ind.data(), true);
      W.vals()      = hif::Array<V>(val.size(), val.data(), true);
    }
    c = guarded([&] { m.factorize(W, p, m0); });
    for (size_t k = 0; k < s.ptr.size(); ++k) if (W.ind_start()[k] != ptr0[k]) BAD("input", "the start array of the matrix was changed (%s)", f.str().c_str());
    for (size_t k = 0; k < s.ind.size(); ++k) if (W.inds()[k] != ind0[k]) BAD("input", "the indices of the matrix were changed (%s)", f.str().c_str());
    if (val.size() && memcmp(W.vals().data(), val0.data(), val.size() * sizeof(V))) BAD("input", "the values of the matrix were changed (%s)", f.str().c_str());
  };
  if (f.how == 2) c = guarded([&] { if (f.row) m.template factorize<true>(n, s.ptr.data(), s.ind.data(), val.data(), p, m0); else m.template factorize<false>(n, s.ptr.data(), s.ind.data(), val.data(), p, m0); });
  else if (f.row) { hif::CRS<V, I, P> W(n, n, s.ptr.data(), s.ind.data(), val.data(), f.how == 0); obj(W); }
  else { hif::CCS<V, I, P> W(n, n, s.ptr.data(), s.ind.data(), val.data(), f.how == 0); obj(W); }
  if (s.ptr != ptr0 || s.ind != ind0 || memcmp(val.data(), val0.data(), val.size() * sizeof(V))) BAD("input", "the arrays handed over were changed (%s)", f.str().c_str());
  return c;
}
template <class M, class I, class P>
Call hand_val(M &m, const gen::Coo<T> &A, const Form &f, const hif::Params &p, size_t m0) {
  if (f.val == 1) return hand<M, I, P, typename OtherPrec<T>::type>(m, A, f, p, m0);
  if (f.val == 2) return hand<M, I, P, R>(m, A, f, p, m0);
  if (f.val == 3) return hand<M, I, P, typename OtherPrec<R>::type>(m, A, f, p, m0);
  return hand<M, I, P, T>(m, A, f, p, m0);
}
template <class P> struct OtherPtr { typedef typename std::conditional<sizeof(P) == 8, int, std::ptrdiff_t>::type type; };
struct Obj {
  std::unique_ptr<MA> a;
  std::unique_ptr<MB> b;
  Obj() { Lib l; a.reset(new MA()); b.reset(new MB()); }
  ~Obj() { Lib l; a.reset(); b.reset(); }
  Call factorize(const gen::Coo<T> &A, const Form &f, const hif::Params &p, size_t m0) {
    if (!f.two) {
      if (f.ptr) return hand_val<MA, int, OtherPtr<std::ptrdiff_t>::type>(*a, A, f, p, m0);
      return hand_val<MA, int, std::ptrdiff_t>(*a, A, f, p, m0);
    }
#if CFG == 2  // narrower integers throughout
    if (f.ptr) return hand_val<MB, I2, OtherPtr<P2>::type>(*b, A, f, p, m0);
#endif
    return hand_val<MB, I2, P2>(*b, A, f, p, m0);
  }
  Queries queries(bool two) { return two ? query<CB>(*b) : query<CA>(*a); }
  Out<std::complex<double>> op(bool two, gen::Coo<T> &A, const Op &o) {
    // the matrix of the refinement is always the same form
    if (two) { CB::store S(A, true, 0); return apply<CB>(*b, S, o, (size_t)A.n); }
    CA::store S(A, true, 0);
    return apply<CA>(*a, S, o, (size_t)A.n);
  }
};
Form draw_form(bool exact, bool real) {
  Form f;
  f.row  = !sim::chance(1, 2);
  f.two  = sim::chance(1, 4);
  f.base = sim::chance(1, 3);
  f.how  = (int)sim::choose(3);
  if (exact) f.val = (int)sim::choose(gen::Real<T>::cplx && real ? 4 : 2);
  f.ptr = sim::chance(1, 4);
  if (f.how == 0 && sim::chance(1, 3)) f.slack = 1 + (int)sim::choose(4);
  return f;
}
void run() {
  Fact fa = draw_fact(sim::pick<int>({12, 40, 80}));
  gen::Coo<T> A = gen::build<T>(fa.spec);
  bool exact = sim::chance(1, 2), real = exact && sim::chance(1, 3);
  if (exact) for (auto &x : A.e) { std::complex<double> z(x.second); x.second = Conv<T>::of({(double)(float)z.real(), real ? 0.0 : (double)(float)z.imag()}); }
  log_fact("matrix", fa);
  Form plain;
  if (fa.par.is_symm) plain.row = !sim::chance(1, 3);
  auto ref = std::unique_ptr<Obj>(new Obj());
  Call cr = ref->factorize(A, plain, fa.par, fa.m0);
  Queries qr = ref->queries(false);
  int nops = 1 + (int)sim::choose(3);
  std::vector<Op> ops;
  std::vector<Out<std::complex<double>>> want;
  for (int i = 0; i < nops; ++i) { ops.push_back(draw_op(fa.spec.n)); want.push_back(ref->op(false, A, ops.back())); }
  sim::log("plain form: %s %s %s", sname(cr.status), cr.what, qr.str().c_str());
  std::unique_ptr<Obj> M(new Obj());
  int steps = 2 + (int)sim::choose(4), compared = 0;
  for (int k = 0; k < steps; ++k) {
    Form f = draw_form(exact, real);
    if (fa.par.is_symm) f.row = plain.row;  // one triangle is read, which one (and so the rounding) depends on the form
    if (sim::chance(1, 3)) M.reset(new Obj());
    const char *fk = sim::chance(1, 3) ? arm_fault(true, 120) : nullptr;
    sim::set_context("step %d: %s%s%s", k, f.str().c_str(), fk ? ", fault: " : "", fk ? fk : "");
    Call c = M->factorize(A, f, fa.par, fa.m0);
    uint64_t fired = fk ? faults_fired() : 0;
    fault::disarm_all();
    Queries q = M->queries(f.two);
    sim::log("step %d: %s -> %s %s%s", k, f.str().c_str(), sname(c.status), c.what, fired ? " (fault)" : "");
    sim::count(f.val == 0 ? "probe.same_values" : f.val == 1 ? "probe.other_precision" : "probe.real_values");
    sim::sig(((f.row * 2 + f.two) * 2 + f.base) * 48 + (f.how * 4 + f.val) * 4 + f.ptr * 2 + (f.slack > 0));
    if (fired) {
      if (fk && !c.ok() && !q.empty) BAD("failed", "the factorization failed with %s, but the object is not empty", sname(c.status));
      if (!c.ok()) continue;
      if (!strcmp(fk, "lapack")) continue;
    }
    if (c.status != cr.status) BAD("status", "%s: %s %s, as wrapped 0-based arrays: %s %s", f.str().c_str(), sname(c.status), c.what, sname(cr.status), cr.what);
    if (!(q == qr)) BAD("queries", "%s: {%s}, as wrapped 0-based arrays: {%s}", f.str().c_str(), q.str().c_str(), qr.str().c_str());
    ++compared;
    if (!c.ok()) continue;
    for (int i = 0; i < nops; ++i) {
      auto got = M->op(f.two, A, ops[i]);
      double err;
      if (!out_equal(got, want[i], 0, &err)) BAD("apply", "%s: %s differs by %g from the object built from wrapped 0-based arrays (%s/%s)", f.str().c_str(), opname(ops[i].kind), err, sname(got.call.status), sname(want[i].call.status));
    }
    sim::count("probe.forms_compared");
  }
  if (compared && cr.ok()) sim::nontrivial();
  sim::describe("%d forms of a %s matrix of order %d, %d compared (%s)", steps, gen::kind_name(fa.spec.kind), fa.spec.n, compared, sname(cr.status));
}
sim::Register reg("C22", run);
}  // namespace
