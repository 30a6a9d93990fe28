// C14: caller-owned inputs are never modified, outputs stay in their range, the matrix is not needed after factorization.
#include "world.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
const double TOL = tol_of<T>();

// caller memory: the last element touches an inaccessible page, the first one (optionally) follows one
struct Pages {
  char *base = nullptr;
  size_t total = 0, room = 0;
  void *data = nullptr;
  size_t bytes = 0;
  bool left = false;
  void make(size_t nbytes, bool at_left) {
    const size_t pg = 4096;
    room  = (nbytes + pg - 1) / pg * pg;
    if (!room) room = pg;
    total = room + 2 * pg;
    base  = (char *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) _exit(3);
    mprotect(base + pg, room, PROT_READ | PROT_WRITE);
    memset(base + pg, 0xA5, room);
    left  = at_left;
    data  = at_left ? base + pg : base + pg + room - nbytes;
    bytes = nbytes;
  }
  void ro() { mprotect(base + 4096, room, PROT_READ); }
  void rw() { mprotect(base + 4096, room, PROT_READ | PROT_WRITE); }
  void gone() { mprotect(base + 4096, room, PROT_NONE); }
  bool slack_intact() const {  // bytes of the accessible pages outside of the object
    for (char *p = base + 4096; p < base + 4096 + room; ++p)
      if ((p < (char *)data || p >= (char *)data + bytes) && (unsigned char)*p != 0xA5) return false;
    return true;
  }
  void drop() { if (base) munmap(base, total); base = nullptr; }
};
template <class V> struct In {  // read-only for the library
  Pages pg;
  std::vector<V> copy;
  size_t n = 0;
  void make(const std::vector<V> &v) { copy = v; n = v.size(); pg.make(n * sizeof(V), sim::chance(1, 3)); if (n) memcpy(pg.data, v.data(), n * sizeof(V)); pg.ro(); }
  V *p() const { return (V *)pg.data; }
  void check(const char *what) {
    if ((n && memcmp(pg.data, copy.data(), n * sizeof(V))) || !pg.slack_intact()) sim::violate("C14:input-changed", "%s was changed", what);
  }
};
template <class V> struct OutBuf {
  Pages pg;
  size_t n = 0;
  void make(size_t n_) { n = n_; pg.make(n * sizeof(V), sim::chance(1, 3)); for (size_t i = 0; i < n; ++i) p()[i] = V(-11); }
  V *p() const { return (V *)pg.data; }
  void check(const char *what) { if (!pg.slack_intact()) sim::violate("C14:output-range", "memory next to %s was written", what); }
};
struct UserMatrix {
  gen::Spec spec;
  bool row = true;
  int base = 0, n = 0;
  In<C::Ptr> ptr;
  In<C::Int> ind;
  In<T> val;
  void make(const gen::Spec &s, bool r, int b) {
    spec = s; row = r; base = b;
    C::store A(gen::build<T>(s), r, b);
    n = A.n;
    ptr.make(A.ptr); ind.make(A.ind); val.make(A.val);
  }
  void check() { ptr.check("the array of start positions"); ind.check("the index array"); val.check("the value array"); }
  void rw() { ptr.pg.rw(); ind.pg.rw(); val.pg.rw(); }
  void drop() { ptr.pg.drop(); ind.pg.drop(); val.pg.drop(); }
};
Call fact(C::prec &M, UserMatrix &U, const hif::Params &p, size_t m0, int way) {
  if (way == 1) {  // plain arrays
    return guarded([&] {
      if (U.row) M.factorize<true>((size_t)U.n, U.ptr.p(), U.ind.p(), U.val.p(), p, m0);
      else M.factorize<false>((size_t)U.n, U.ptr.p(), U.ind.p(), U.val.p(), p, m0);
    });
  }
  if (U.row) {
    const C::crs W(U.n, U.n, U.ptr.p(), U.ind.p(), U.val.p(), true);
    return guarded([&] { M.factorize(W, p, m0); });
  }
  const C::ccs W(U.n, U.n, U.ptr.p(), U.ind.p(), U.val.p(), true);
  return guarded([&] { M.factorize(W, p, m0); });
}

enum { V_OK, V_SHORT, V_LONG, V_ZERO, V_MISMATCH };
// one operation with guarded vectors; size_kind selects unmatched or wrong lengths
template <class VT>
void vector_op(C::prec &M, C::prec *S, UserMatrix *U, size_t n, bool armed) {
  Op o;
  o.kind = sim::pick<int>({OP_SOLVE, OP_TSOLVE, OP_MULT, OP_TMULT, OP_HIFIR, OP_THIFIR, OP_HIFIRB});
  if (!U && o.kind >= OP_HIFIR) o.kind = OP_SOLVE;
  o.seed = sim::choose(1000);
  o.iters = 1 + (int)sim::choose(4);
  o.r = sim::chance(1, 3) ? sim::choose((uint32_t)n + 2) : 0;
  int sk = sim::chance(1, 3) ? 1 + (int)sim::choose(4) : V_OK;
  size_t nb = n, nx = n;
  switch (sk) {
    case V_SHORT: nb = nx = sim::choose((uint32_t)n); break;
    case V_LONG: nb = nx = n + 1 + sim::choose((uint32_t)n + 4); break;
    case V_ZERO: nb = nx = 0; break;
    case V_MISMATCH: nb = sim::chance(1, 2) ? n : sim::choose(2 * (uint32_t)n + 2); nx = sim::choose(2 * (uint32_t)n + 2); break;
  }
  bool proper = nb == n && nx == n;
  In<VT> b;
  OutBuf<VT> x;
  In<double> betas;
  b.make(rhs<VT>(o.seed, nb));
  x.make(nx);
  betas.make({o.betas[0], o.betas[1]});
  const hif::Array<VT> B(nb, b.p(), true);
  hif::Array<VT> X(nx, x.p(), true);
  bool tr = (o.seed & 1) != 0;
  auto refine = [&](const auto &W) {
    if (o.kind == OP_HIFIRB) M.hifir(W, B, (size_t)o.iters, betas.p(), X, tr, o.r);
    else M.hifir(W, B, (size_t)o.iters, X, o.kind == OP_THIFIR, o.r);
  };
  const char *fk = armed ? arm_fault(false, 6) : nullptr;
  Call c = guarded([&] {
    switch (o.kind) {
      case OP_SOLVE: M.solve(B, X, false, o.r); break;
      case OP_TSOLVE: M.solve(B, X, true, o.r); break;
      case OP_MULT: M.mmultiply(B, X, false, o.r); break;
      case OP_TMULT: M.mmultiply(B, X, true, o.r); break;
      default:
        if (U->row) { const C::crs W(U->n, U->n, U->ptr.p(), U->ind.p(), U->val.p(), true); refine(W); }
        else { const C::ccs W(U->n, U->n, U->ptr.p(), U->ind.p(), U->val.p(), true); refine(W); }
    }
  });
  fault::disarm_all();
  sim::log("%s sizes %zu -> %zu (order %zu) r=%zu%s -> %s %s", opname(o.kind), nb, nx, n, o.r, fk ? " with fault" : "", sname(c.status), c.what);
  sim::sig(o.kind * 10 + sk + (fk ? 100 : 0));
  b.check("the right-hand side");
  betas.check("the pair of bounds");
  x.check("the result vector");
  if (U) U->check();
  if (X.size() != nx || X.data() != x.p()) sim::violate("C14:output-replaced", "the caller's result array was replaced");
  if (!proper) {
    sim::count("probe.wrong_sizes");
    if (c.ok()) sim::violate("C14:sizes", "%s accepts vectors of lengths %zu and %zu, the preconditioner has order %zu", opname(o.kind), nb, nx, n);
  } else if (c.ok() && S) {
    // an undisturbed preconditioner gives the same answer
    Op q = o;
    std::vector<VT> bb(b.copy), xx(n);
    const hif::Array<VT> BB(n, bb.data(), true);
    hif::Array<VT> XX(n, xx.data(), true);
    Call c2 = guarded([&] {
      auto rf = [&](const auto &W) {
        if (o.kind == OP_HIFIRB) S->hifir(W, BB, (size_t)o.iters, o.betas, XX, tr, o.r);
        else S->hifir(W, BB, (size_t)o.iters, XX, o.kind == OP_THIFIR, o.r);
      };
      switch (o.kind) {
        case OP_SOLVE: S->solve(BB, XX, false, o.r); break;
        case OP_TSOLVE: S->solve(BB, XX, true, o.r); break;
        case OP_MULT: S->mmultiply(BB, XX, false, o.r); break;
        case OP_TMULT: S->mmultiply(BB, XX, true, o.r); break;
        default: {
          C::store A(gen::build<T>(U->spec), U->row, 0);
          if (U->row) { const C::crs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true); rf(W); }
          else { const C::ccs W(A.n, A.n, A.ptr.data(), A.ind.data(), A.val.data(), true); rf(W); }
        }
      }
    });
    double err = 0;
    if (!c2.ok() || !close(x.p(), xx.data(), n, TOL, &err)) sim::violate("C14:depends-on-matrix", "%s differs from a preconditioner whose matrix is untouched: %s, relative difference %g", opname(q.kind), sname(c2.status), err);
    sim::count("probe.compared");
  }
  b.pg.drop(); x.pg.drop(); betas.pg.drop();
}
template <size_t N>
void mrhs_op(C::prec &M, size_t n, bool armed) {
  int sk = sim::chance(1, 3) ? 1 + (int)sim::choose(4) : V_OK;
  size_t nb = n, nx = n, r = sim::chance(1, 3) ? sim::choose((uint32_t)n + 2) : 0;
  switch (sk) {
    case V_SHORT: nb = nx = sim::choose((uint32_t)n); break;
    case V_LONG: nb = nx = n + 1 + sim::choose((uint32_t)n + 4); break;
    case V_ZERO: nb = nx = 0; break;
    case V_MISMATCH: nb = sim::choose(2 * (uint32_t)n + 2); nx = sim::choose(2 * (uint32_t)n + 2); break;
  }
  In<T> b;
  OutBuf<T> x;
  b.make(rhs<T>(sim::choose(1000), nb * N));
  x.make(nx * N);
  typedef std::array<T, N> E;
  const hif::Array<E> B(nb, (E *)b.p(), true);
  hif::Array<E> X(nx, (E *)x.p(), true);
  const char *fk = armed ? arm_fault(false, 6) : nullptr;
  Call c = guarded([&] { M.solve_mrhs(B, X, r); });
  fault::disarm_all();
  sim::log("solve_mrhs<%zu> sizes %zu -> %zu (order %zu)%s -> %s %s", N, nb, nx, n, fk ? " with fault" : "", sname(c.status), c.what);
  b.check("the block of right-hand sides");
  x.check("the block of results");
  if ((nb != n || nx != n) && c.ok()) sim::violate("C14:sizes", "solve_mrhs accepts vectors of lengths %zu and %zu, the preconditioner has order %zu", nb, nx, n);
  b.pg.drop(); x.pg.drop();
}
void run() {
  auto M = make<C>(), S = make<C>();
  int rounds = 1 + (int)sim::choose(3), ops = 0;
  for (int k = 0; k < rounds; ++k) {
    Fact f = draw_fact(sim::pick<int>({10, 40}), false);
    log_fact("factorize", f);
    UserMatrix U;
    U.make(f.spec, f.row, f.base);
    size_t n = U.n;
    In<hif::Params> par;
    par.make({f.par});
    int way = (int)sim::choose(2);
    const char *fk = !way && sim::chance(1, 3) ? arm_fault(true, 150) : nullptr;
    sim::set_context("factorization %d", k);
    Call c = fact(*M, U, *par.p(), f.m0, way);
    fault::disarm_all();
    sim::log("  -> %s %s%s", sname(c.status), c.what, fk ? " (fault armed)" : "");
    U.check();
    par.check("the options");
    sim::sig(f.spec.kind * 10 + way + c.status * 100 + (fk ? 1000 : 0));
    par.pg.drop();
    C::store A(gen::build<T>(f.spec), f.row, f.base);
    // what happens to the caller's matrix afterwards
    int fate = (int)sim::choose(4);
    if (c.ok()) {
      Call cs = factorize<C>(*S, A, f.par, f.m0);
      if (!cs.ok()) sim::violate("C14:depends-on-matrix", "the same factorization from other memory: %s %s", sname(cs.status), cs.what);
    }
    UserMatrix V;  // zero-based copy for refinement
    bool haveV = false;
    if (fate == 1) { U.rw(); memset(U.val.pg.data, 0xFF, U.val.pg.bytes); memset(U.ind.pg.data, 0x7F, U.ind.pg.bytes); memset(U.ptr.pg.data, 0x7F, U.ptr.pg.bytes); sim::count("fault.matrix_overwritten"); }
    if (fate == 2) { U.ptr.pg.gone(); U.ind.pg.gone(); U.val.pg.gone(); sim::count("fault.matrix_inaccessible"); }
    if (fate == 3) { U.drop(); sim::count("fault.matrix_freed"); }
    if (sim::chance(1, 2)) { V.make(f.spec, sim::chance(1, 2), 0); haveV = true; }
    int m = 1 + (int)sim::choose(5);
    for (int j = 0; j < m; ++j) {
      sim::set_context("operation %d after factorization %d, fate of the matrix %d", j, k, fate);
      bool armed = sim::chance(1, 4);
      bool up = sizeof(typename Up<T>::type) != sizeof(T) && sim::chance(1, 3);
      if (!c.ok()) {
        In<T> b; OutBuf<T> x;
        b.make(rhs<T>(1, n)); x.make(n);
        const hif::Array<T> B(n, b.p(), true);
        hif::Array<T> X(n, x.p(), true);
        Call ce = guarded([&] { M->solve(B, X); });
        if (ce.ok()) sim::violate("C14:empty", "solve without factors succeeds");
        b.check("the right-hand side"); x.check("the result vector");
        b.pg.drop(); x.pg.drop();
        break;
      }
      ++ops;
      if (sim::chance(1, 4)) { if (sim::chance(1, 2)) mrhs_op<2>(*M, n, armed); else mrhs_op<3>(*M, n, armed); }
      else if (up) vector_op<typename Up<T>::type>(*M, S.get(), haveV ? &V : nullptr, n, armed);
      else vector_op<T>(*M, S.get(), haveV ? &V : nullptr, n, armed);
    }
    if (fate != 3) { if (fate == 0) U.check(); U.drop(); }
    if (haveV) { V.check(); V.drop(); }
  }
  if (ops) sim::nontrivial();
  sim::describe("%d factorizations from write-protected arrays, %d operations on guarded vectors", rounds, ops);
  drop<C>(M); drop<C>(S);
}
sim::Register reg("C14", run);
}  // namespace
