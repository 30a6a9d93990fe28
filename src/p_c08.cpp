// C08: the C interface against the C++ library it wraps: status, outputs, messages, ownership, no escaping exception.
#include "capi.hpp"
#include "mm.hpp"

#if CFG == 0
int c08_int32;  // a strong symbol of its own for each unit
#else
int c08_int64;
#endif
using namespace world;
namespace {

#define BAD(cls, ...) sim::violate("C08:" cls, __VA_ARGS__)
const char *stname(int s) { static const char *n[] = {"success", "null object", "mismatched sizes", "bad preconditioner", "hifir error"}; return s >= 0 && s < 5 ? n[s] : "unknown status"; }

// every call of the interface runs in here
template <class F> auto capi(const char *what, F f) -> decltype(f()) {
  try {
    Lib l;
    return f();
  } catch (const std::exception &e) {
    BAD("escape", "%s let an exception out: %.120s", what, e.what());
  } catch (...) {
    BAD("escape", "%s let an exception out", what);
  }
}

// ---- messages: what lhfGetErrorMsg has to return next ----
bool        pending, known;  // a library error is waiting; its text is known
std::string text;
std::string cut(const std::string &s) { return s.substr(0, s.find("stack trace")); }
void        saw(const char *what, LhfStatus st, bool faulted, const char *expect) {
  if ((int)st < 0 || st > LHF_HIFIR_ERROR) BAD("status", "%s returned %d", what, (int)st);
  if (st != LHF_HIFIR_ERROR) return;
  pending = true; known = expect && !faulted;
  if (known) text = cut(expect);
}
void message() {
  const char *m = capi("lhfGetErrorMsg", [] { return lhfGetErrorMsg(); });
  if (!pending && m) BAD("message", "a message without a new error: %.100s", m);
  if (pending && (!m || !*m)) BAD("message", "no message after a library error");
  if (pending && known && text != cut(m)) BAD("message", "the message is \"%.200s\", the error said \"%.200s\"", m, text.c_str());
  pending = false;
}
void fresh_text() { if (sim::chance(1, 3)) message(); }

template <class F> bool thrown(F f, std::string &msg) {
  try { f(); } catch (const std::exception &e) { msg = e.what(); return true; }
  return false;
}
bool fired() { return fault::alloc_faults_fired() + fault::lapack_faults_fired() > 0; }
void arm(bool fact) {
  switch (sim::choose(5)) {
    case 1: fault::arm_alloc(sim::choose(fact ? 200 : 3), sim::pick<int>({1, 1000000})); break;
    case 2: fault::arm_lapack(sim::choose(fact ? 4 : 3), sim::pick<int>({1, 1000}), -(int)(1 + sim::choose(5))); break;
  }
}
void done_faults() {
  if (fault::alloc_faults_fired()) sim::count("fault.alloc_fail", fault::alloc_faults_fired());
  if (fault::lapack_faults_fired()) sim::count("fault.lapack", fault::lapack_faults_fired());
  fault::arm_alloc(~0ull >> 1, 0); fault::arm_lapack(~0ull >> 1, 0, 0); fault::disarm_all();  // counts start again
}

template <class V> struct Slot {  // a matrix handle and what it denotes
  typedef gen::Store<V, LhfInt, LhfIndPtr> store;
  typename Api<V>::Mat h = nullptr;
  bool row = true;
  std::shared_ptr<store> s;  // null: the handle is empty
  size_t n() const { return s ? (size_t)s->n : 0; }
  size_t nnz() const { return s ? (size_t)(s->ptr[s->n] - s->ptr[0]) : 0; }
  void check() const {
    if (!h) return;
    auto H = h;
    if (capi("GetMatrixSize", [&] { return Api<V>::msize(H); }) != n()) BAD("matrix", "size differs from the wrapped arrays");
    if (capi("GetMatrixNnz", [&] { return Api<V>::mnnz(H); }) != nnz()) BAD("matrix", "number of nonzeros differs from the wrapped arrays");
  }
};
const size_t CANARY = 0xABCDEF01;

template <class T> struct World {
  typedef typename Mix<T>::U U;
  typedef hif::HIF<T, LhfInt, LhfIndPtr> prec;
  Slot<T> m[3];
  Slot<U> u[2];
  struct Held { typename Api<T>::Hif h = nullptr; std::unique_ptr<prec> ref; int A = -1, Au = -1; } p[2];
  int ok_facts = 0, ok_applies = 0, errors = 0;
  int maxn = 12, common = 5;

  template <class V> std::shared_ptr<typename Slot<V>::store> data(bool row) {
    gen::Spec sp = gen::draw_spec(maxn);
    if (sim::chance(2, 3)) sp.n = common;
    int base = sim::chance(1, 8);  // factorized and counted like any other; refinement is only defined for operators numbered from zero
    std::shared_ptr<typename Slot<V>::store> s(new typename Slot<V>::store(gen::build<V>(sp), row, base));
    sim::log("   matrix %s n=%d seed=%u", gen::kind_name(sp.kind), sp.n, sp.seed);
    return s;
  }
  template <class V> void new_matrix(Slot<V> &s) {
    if (s.h) return;
    s.row = !sim::chance(1, 3);
    bool empty = sim::chance(1, 6);
    s.s.reset();
    if (!empty) s.s = data<V>(s.row);
    if (sim::chance(1, 12)) { fault::arm_alloc(0, 1); }
    int  drop = empty ? (int)sim::choose(4) : -1;
    std::shared_ptr<typename Slot<V>::store> tmp = empty ? data<V>(s.row) : s.s;
    s.h = capi("CreateMatrix", [&] { return Api<V>::mcreate(s.row, drop == 3 ? 0 : tmp->n, drop == 0 ? nullptr : tmp->ptr.data(), drop == 1 ? nullptr : tmp->ind.data(), drop == 2 ? nullptr : tmp->val.data()); });
    bool f = fault::alloc_faults_fired() > 0;
    done_faults(); fault::disarm_all();
    if (!s.h != f) BAD("create-matrix", f ? "a handle although its allocation failed" : "no handle");
    if (!s.h) { s.s.reset(); return; }
    s.check();
  }
  template <class V> void wrap(Slot<V> &s) {
    auto d = data<V>(s.row);
    int drop = sim::chance(1, 3) ? (int)sim::choose(4) : -1;
    LhfStatus st = capi("WrapMatrix", [&] { return Api<V>::mwrap(s.h, drop == 3 ? 0 : d->n, drop == 0 ? nullptr : d->ptr.data(), drop == 1 ? nullptr : d->ind.data(), drop == 2 ? nullptr : d->val.data()); });
    LhfStatus ex = !s.h || drop >= 0 ? LHF_NULL_OBJ : LHF_SUCCESS;
    if (st != ex) BAD("status", "WrapMatrix returned %s instead of %s", stname(st), stname(ex));
    if (st == LHF_SUCCESS) s.s = d;
    s.check();
  }
  // files: the documented protocol (query, allocate, wrap, read)
  template <class V> void read_matrix(Slot<V> &s) {
    disk::reset();
    sim::Rng g(sim::choose(1u << 30) + 8);
    mm::Model mod = mm::draw(true, gen::Real<V>::cplx, g, 8);
    if (sim::chance(1, 2)) { for (auto &e : mod.e) e.first.second %= mod.rows; mod.cols = mod.rows; std::map<std::pair<long, long>, mm::Text> z(mod.e.begin(), mod.e.end()); mod.e.assign(z.begin(), z.end()); if (mod.storage != mm::GENERAL) mod.storage = mm::GENERAL; }
    mm::Rendered r = mm::render(mod, g, true);
    bool damaged = false;
    if (sim::chance(1, 6) && !r.s.empty()) { damaged = true; size_t k = sim::choose((uint32_t)r.s.size()); if (sim::chance(1, 2)) { r.s.resize(k); sim::count("fault.truncated_file"); } else { r.s[k] ^= (char)(1 << sim::choose(7)); sim::count("fault.bit_flip"); } }
    disk::files["sim:/in.mm"] = r.s;
    int is_sparse = -7, is_real = -7; size_t nr = CANARY, nc = CANARY, nz = CANARY;
    const char *name = sim::chance(1, 8) ? "sim:/absent.mm" : "sim:/in.mm";
    auto disk_fault = [&](const char *why) {
      disk::plan = disk::Plan();
      if (!sim::chance(1, 4)) return false;
      switch (sim::choose(4)) {
        case 0: disk::plan.read_error_at = sim::choose((uint32_t)r.s.size() + 1); break;
        case 1: if (r.s.empty() || damaged || r.header_end >= r.last_token) return false; disk::plan.read_eof_at = r.header_end + sim::choose((uint32_t)(r.last_token - r.header_end)); break;
        case 2: disk::plan.open_fail = true; break;
        case 3: disk::plan.chunk = 3; fault::arm_alloc(sim::choose(20), 1000000); break;
      }
      (void)why;
      return true;
    };
    bool df = disk_fault("query");
    LhfStatus st = capi("lhfQueryMmFile", [&] { return lhfQueryMmFile(name, &is_sparse, &is_real, &nr, &nc, &nz); });
    bool armed = fired(); done_faults(); fault::disarm_all();
    saw("lhfQueryMmFile", st, true, nullptr);
    if (disk::open_files()) BAD("handle-leak", "lhfQueryMmFile left the file open (status %s)", stname(st));
    // what the reader says about the same, healthy bytes
    disk::plan = disk::Plan();
    hif::CRS<V, LhfInt, LhfIndPtr> C;
    std::string why;
    bool bad = thrown([&] { C = hif::CRS<V, LhfInt, LhfIndPtr>::from_mm(name); }, why);
    if (!df && !bad && st != LHF_SUCCESS) BAD("query", "readable file, but %s", stname(st));
    if (strcmp(name, "sim:/in.mm") && st == LHF_SUCCESS) BAD("query", "success for an absent file");
    if (st != LHF_SUCCESS) { ++errors; sim::log("query -> %s", stname(st)); if (bad) return; }
    if (!bad && st == LHF_SUCCESS) {
      if (!is_sparse || is_real != !mod.complex) BAD("query", "kind of file is wrong");
      if (nr != C.nrows() || nc != C.ncols()) BAD("query", "sizes %zux%zu of a %zux%zu file", nr, nc, (size_t)C.nrows(), (size_t)C.ncols());
      if (nz < C.nnz()) BAD("query", "%zu nonzeros announced, reading yields %zu", nz, (size_t)C.nnz());
    }
    if (bad && (nr > 4096 || nc > 4096 || nz > 100000 || st != LHF_SUCCESS)) return;
    if (st != LHF_SUCCESS) { nr = C.nrows(); nc = C.ncols(); nz = C.nnz(); }
    // read into arrays of exactly the announced lengths
    auto d = std::make_shared<typename Slot<V>::store>();
    size_t n = sim::chance(1, 10) ? nr + 1 : nr;
    if (!n) return;
    d->n = (int)n; d->row_major = s.row;
    d->ptr.assign(n + 1, 0); d->ind.assign(nz, -3); d->val.assign(nz, V(-3));
    d->ptr.shrink_to_fit(); d->ind.shrink_to_fit(); d->val.shrink_to_fit();
    if (!nz) { d->ind.reserve(1); d->val.reserve(1); }
    if (!s.h) {
      LhfStatus q = capi("ReadSparse", [&] { return Api<V>::read(name, s.h); });
      if (q != LHF_NULL_OBJ) BAD("status", "ReadSparse into a null handle returned %s", stname(q));
      return;
    }
    LhfStatus w = capi("WrapMatrix", [&] { return Api<V>::mwrap(s.h, n, d->ptr.data(), d->ind.data(), d->val.data()); });
    if (w != LHF_SUCCESS) BAD("status", "WrapMatrix returned %s", stname(w));
    s.s = d;
    df = disk_fault("read");
    st = capi("ReadSparse", [&] { return Api<V>::read(name, s.h); });
    armed = fired(); done_faults(); fault::disarm_all();
    saw("ReadSparse", st, true, nullptr);
    if (disk::open_files()) BAD("handle-leak", "ReadSparse left the file open (status %s)", stname(st));
    LhfStatus ex = bad ? LHF_HIFIR_ERROR : C.nrows() != n || C.ncols() != n ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
    if (!df && st != ex) BAD("status", "ReadSparse returned %s instead of %s (%s)", stname(st), stname(ex), why.c_str());
    if (df && st != ex && st != LHF_HIFIR_ERROR) BAD("status", "ReadSparse under faults returned %s instead of %s or an error", stname(st), stname(ex));
    sim::log("read -> %s", stname(st));
    (void)armed;
    if (st == LHF_SUCCESS) {
      disk::plan = disk::Plan();
      auto same = [&](const auto &X) {
        if (!same_bits(d->val.data(), X.vals().data(), X.nnz())) BAD("read", "values differ from the file");
        for (size_t i = 0; i <= n; ++i) if (d->ptr[i] != X.ind_start()[i]) BAD("read", "starts differ from the file");
        for (size_t k = 0; k < X.nnz(); ++k) if (d->ind[k] != X.inds()[k]) BAD("read", "indices differ from the file");
      };
      if (s.row) same(C); else { auto X = hif::CCS<V, LhfInt, LhfIndPtr>::from_mm(name); same(X); }
      s.check();
    } else {
      ++errors;
      std::fill(d->ptr.begin(), d->ptr.end(), 0);  // unspecified contents: use an empty pattern, an error for the library
    }
  }
  void read_vector() {
    disk::reset();
    sim::Rng g(sim::choose(1u << 30) + 9);
    mm::Model mod = mm::draw(false, gen::Real<T>::cplx, g, 20);
    mm::Rendered r = mm::render(mod, g, true);
    disk::files["sim:/v.mm"] = r.s;
    size_t n = sim::chance(1, 4) ? (size_t)mod.rows + 1 - sim::choose(3) : (size_t)mod.rows;
    if ((long)n < 0 || n > 100) n = 0;
    std::vector<T> v(n, T(-3));
    v.shrink_to_fit();
    hif::Array<T> C;
    std::string why;
    bool bad = thrown([&] { C = hif::Array<T>::from_mm("sim:/v.mm"); }, why);
    bool df = sim::chance(1, 3);
    if (df) switch (sim::choose(3)) { case 0: disk::plan.read_error_at = sim::choose((uint32_t)r.s.size()); break; case 1: disk::plan.open_fail = true; break; case 2: fault::arm_alloc(sim::choose(8), 1000000); }
    LhfStatus st = capi("ReadVector", [&] { return Api<T>::readv("sim:/v.mm", n, v.data()); });
    done_faults(); fault::disarm_all();
    saw("ReadVector", st, true, nullptr);
    if (disk::open_files()) BAD("handle-leak", "ReadVector left the file open");
    LhfStatus ex = bad ? LHF_HIFIR_ERROR : C.size() != n ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
    if (st != ex && !(df && st == LHF_HIFIR_ERROR)) BAD("status", "ReadVector returned %s instead of %s", stname(st), stname(ex));
    if (st == LHF_SUCCESS && !same_bits(v.data(), C.data(), n)) BAD("read", "vector differs from the file");
    if (st != LHF_SUCCESS) for (auto &x : v) if (!(x == T(-3))) BAD("read", "vector changed by a failed call");
    sim::log("read vector -> %s", stname(st));
  }

  // parameters: the C array and what it means
  void draw_params(std::vector<double> &a, hif::Params &q, bool &given) {
    given = !sim::chance(1, 5);
    q = hif::get_default_params();
    a.assign(LHF_NUMBER_PARAMS, -99);
    a.shrink_to_fit();
    if (!given) { return; }
    if (capi("lhfSetDefaultParams", [&] { return lhfSetDefaultParams(a.data()); }) != LHF_SUCCESS) BAD("params", "defaults refused");
    auto put = [&](int k, double v) { a[k] = v; };
    auto D = hif::DEFAULT_PARAMS;
    double want[] = {D.tau_L, D.tau_U, D.kappa_d, D.kappa, D.alpha_L, D.alpha_U, (double)D.verbose, (double)D.reorder, (double)D.symm_pre_lvls, (double)D.threads, D.rrqr_cond, (double)D.pivot, D.beta, (double)D.is_symm, (double)D.no_pre, D.nzp_thres, (double)D.dense_thres};
    for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) if (a[i] != want[i]) BAD("params", "default of parameter %d is %g instead of %g", i, a[i], want[i]);
    hif::Params g = gen::draw_params(true, false);
    q.threads = 1; put(LHF_THREADS, 1);
    q.verbose = 0; put(LHF_VERBOSE, 0);
    if (sim::chance(1, 3)) { double t = g.tau_L; capi("lhfSetDroptol", [&] { return lhfSetDroptol(t, a.data()); }); q.tau_L = q.tau_U = t; } else { put(LHF_DROPTOL_L, q.tau_L = g.tau_L); put(LHF_DROPTOL_U, q.tau_U = g.tau_U); }
    if (sim::chance(1, 3)) { double t = g.alpha_L; capi("lhfSetAlpha", [&] { return lhfSetAlpha(t, a.data()); }); q.alpha_L = q.alpha_U = t; } else { put(LHF_ALPHA_L, q.alpha_L = g.alpha_L); put(LHF_ALPHA_U, q.alpha_U = g.alpha_U); }
    if (sim::chance(1, 3)) { double t = g.kappa; capi("lhfSetKappa", [&] { return lhfSetKappa(t, a.data()); }); q.kappa = q.kappa_d = t; } else { put(LHF_COND, q.kappa = g.kappa); put(LHF_COND_D, q.kappa_d = sim::pick<double>({3, 2, 20})); }
    put(LHF_REORDER, q.reorder = g.reorder); put(LHF_SYMMPRELVLS, q.symm_pre_lvls = g.symm_pre_lvls); put(LHF_RRQR_COND, q.rrqr_cond = g.rrqr_cond);
    put(LHF_PIVOT, q.pivot = g.pivot); put(LHF_BETA, q.beta = g.beta); put(LHF_ISSYMM, q.is_symm = sim::chance(1, 6)); put(LHF_NOPRE, q.no_pre = g.no_pre);
    put(LHF_NZP_THRES, q.nzp_thres = g.nzp_thres); put(LHF_DENSE_THRES, q.dense_thres = g.dense_thres);
    if (sim::chance(1, 12)) put(LHF_DROPTOL_L, q.tau_L = -1);  // rejected by the library
  }
  bool ref_factorize(Held &h, Slot<T> &s, bool given, const hif::Params &q, std::string &why) {
    auto n = s.n(); auto *d = s.s.get();
    LhfIndPtr *ip = d ? d->ptr.data() : nullptr; LhfInt *ii = d ? d->ind.data() : nullptr; T *iv = d ? d->val.data() : nullptr;
    return !thrown([&] {
      if (s.row) { if (given) h.ref->template factorize<true>(n, ip, ii, iv, q); else h.ref->template factorize<true>(n, ip, ii, iv); }
      else { if (given) h.ref->template factorize<false>(n, ip, ii, iv, q); else h.ref->template factorize<false>(n, ip, ii, iv); }
    }, why);
  }
  void factorize(Held &h, bool refact) {
    int ia = (int)sim::choose(4) - 1, is = (int)sim::choose(4) - 1;
    if (sim::chance(1, 2) && ia < 0) ia = 0;
    std::vector<double> a; hif::Params q; bool given;
    draw_params(a, q, given);
    std::vector<double> a0 = a;
    auto hdl = [&](int i) { return i < 0 ? nullptr : m[i].h; };
    bool create = !h.h && !refact;
    sim::log("%s(A=%d%s, S=%d%s)%s", create ? "Create" : refact ? "Refactorize" : "Setup", ia, hdl(ia) ? "" : " null", is, hdl(is) ? "" : " null", given ? "" : " default parameters");
    int fa = -1, opA = hdl(ia) ? ia : is;  // factorized, refinement operator
    fa = hdl(is) ? is : refact ? -1 : ia;
    if (!hdl(opA)) opA = -1;
    if (fa >= 0 && !hdl(fa)) fa = -1;
    if (fa >= 0 && m[fa].s && given) sim::log("   n=%zu", m[fa].n());
    std::unique_ptr<prec> fresh;
    if (create) { fresh.reset(new prec()); }
    prec *keep = h.ref.get();
    std::string why;
    Held probe;
    LhfStatus ex = !h.h && !create ? LHF_NULL_OBJ : fa < 0 ? LHF_NULL_OBJ : LHF_SUCCESS;
    (void)keep;
    if (ex == LHF_SUCCESS) {
      if (create) h.ref = std::move(fresh);
      if (!ref_factorize(h, m[fa], given, q, why)) ex = LHF_HIFIR_ERROR;
    }
    bool faulty = sim::chance(1, 3);
    if (faulty) arm(true);
    LhfStatus st;
    uint64_t live0 = fault::live_blocks();
    if (create) {
      h.h = capi("Create", [&] { return Api<T>::create(hdl(ia), hdl(is), given ? a.data() : nullptr); });
      bool f = fired(); bool lp = fault::lapack_faults_fired() > 0;
      done_faults(); fault::disarm_all();
      h.A = opA; h.Au = -1;
      if (!h.h) {
        if (ex != LHF_HIFIR_ERROR && !f) BAD("create", "no handle although the C++ call works");
        ++errors;
        if (!f) { saw("Create", LHF_HIFIR_ERROR, false, why.c_str()); }
        else {  // either the library failed (message) or the handle itself could not be had (none)
          const char *msg = capi("lhfGetErrorMsg", [] { return lhfGetErrorMsg(); });
          if (lp && !msg) BAD("message", "no message after a library error in Create");
          pending = false;
        }
        if (fault::live_blocks() > live0 + 2) BAD("leak", "a failed Create keeps %lu blocks", (unsigned long)(fault::live_blocks() - live0));
        h.ref.reset(); h.A = -1;
        return;
      }
      if (ex == LHF_HIFIR_ERROR) BAD("create", "a handle although the C++ call fails: %s", why.c_str());
      if (lp) BAD("create", "a handle although LAPACK failed");
      if (ex == LHF_NULL_OBJ) h.ref.reset(new prec());
      else ++ok_facts;
    } else {
      st = refact ? capi("Refactorize", [&] { return Api<T>::refactorize(h.h, hdl(is), given ? a.data() : nullptr); }) : capi("Setup", [&] { return Api<T>::setup(h.h, hdl(ia), hdl(is), given ? a.data() : nullptr); });
      bool f = fired(); bool lp = fault::lapack_faults_fired() > 0;
      done_faults(); fault::disarm_all();
      saw(refact ? "Refactorize" : "Setup", st, f, why.c_str());
      if (st != ex && !(f && st == LHF_HIFIR_ERROR && ex == LHF_SUCCESS)) BAD("status", "%s returned %s, the C++ call means %s", refact ? "Refactorize" : "Setup", stname(st), stname(ex));
      if (lp && st == LHF_SUCCESS) BAD("status", "success although LAPACK failed");
      if (h.h && !refact) { h.A = opA; h.Au = -1; }
      if (st == LHF_HIFIR_ERROR) { ++errors; h.ref->clear(); }
      if (st == LHF_SUCCESS) ++ok_facts;
      sim::log("   -> %s", stname(st));
    }
    if (memcmp(a.data(), a0.data(), a.size() * sizeof(double))) BAD("params", "the parameters were changed");
    queries(h);
  }
  void queries(Held &h) {
    size_t s[10];
    for (auto &x : s) x = CANARY;
    auto H = h.h;
    if (capi("GetStats", [&] { return Api<T>::stats(H, s); }) != LHF_SUCCESS) BAD("status", "GetStats failed");
    size_t w[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
    if (H && !h.ref->empty()) {
      prec &R = *h.ref;
      size_t v[9] = {R.nnz(), R.stats(0), R.stats(1), R.stats(4), R.stats(5), R.levels(), R.rank(), R.schur_rank(), R.schur_size()};
      memcpy(w, v, sizeof v);
    }
    for (int i = 0; i < 9; ++i) if (s[i] != w[i]) BAD("stats", "stats[%d] is %zu, the library says %zu", i, s[i], w[i]);
    if (s[9] != CANARY) BAD("stats", "wrote past the statistics");
    size_t g[4] = {capi("GetNnz", [&] { return Api<T>::nnz(H); }), capi("GetLevels", [&] { return Api<T>::levels(H); }), capi("GetSchurSize", [&] { return Api<T>::ssize(H); }), capi("GetSchurRank", [&] { return Api<T>::srank(H); })};
    size_t e[4] = {w[0], w[5], w[8], w[7]};
    for (int i = 0; i < 4; ++i) if (g[i] != e[i]) BAD("stats", "query %d is %zu, the library says %zu", i, g[i], e[i]);
  }
  template <class V, class F, class G, class SL> void apply_op(Held &h, SL *slots, int ia, F api, G simple, bool refine = false) {
    LhfOperationType op = (LhfOperationType)sim::choose(4);
    int nirs = sim::pick<int>({1, 0, 2, 4, -1, 3}), rank = sim::pick<int>({LHF_DEFAULT_RANK, LHF_DEFAULT_RANK, -1, 0, 1});
    size_t n = h.h ? (size_t)h.ref->nrows() : 5;
    if (rank == 1) rank = 1 + (int)sim::choose((uint32_t)n + 1);
    if (rank > (int)n) rank = (int)n;
    bool with_betas = sim::chance(1, 2), with_st = !sim::chance(1, 4), plain = sim::chance(1, 5);
    double betas[2] = {sim::pick<double>({1e-6, 1e-12, 0.5}), sim::pick<double>({10, 0.9, 1e300})}, betas0[2] = {betas[0], betas[1]};
    uint32_t seed = sim::choose(1000);
    std::vector<V> b = rhs<V>(seed, n), b0 = b, x(n, V(-7)), rx(n, V(-7));
    b.reserve(1); x.reserve(1); rx.reserve(1);
    int st2[3] = {-77, -77, -77};
    if (refine) { op = sim::chance(1, 3) ? LHF_SH : LHF_S; nirs = 2 + (int)sim::choose(2); plain = false; }
    if (plain) { op = LHF_S; nirs = 1; rank = LHF_DEFAULT_RANK; }
    bool trans = op == LHF_SH || op == LHF_MH, mult = op == LHF_M || op == LHF_MH;
    // expected
    LhfStatus ex = LHF_SUCCESS;
    std::string why;
    int  e2[2] = {-77, -77};
    SL * A = ia >= 0 ? &slots[ia] : nullptr;
    if (A && A->s && A->s->ptr[0] && nirs > 1) nirs = 1;
    if (!h.h) ex = LHF_NULL_OBJ;
    else {
      const hif::Array<V> B(n, b.data(), true);
      hif::Array<V>       X(n, rx.data(), true);
      size_t rs = rank == LHF_DEFAULT_RANK ? (mult || nirs > 1 ? (size_t)-1 : 0) : (size_t)(ptrdiff_t)rank;
      bool bad = false;
      if (mult) bad = thrown([&] { h.ref->mmultiply(B, X, trans, rs); }, why);
      else if (nirs <= 1) bad = thrown([&] { h.ref->solve(B, X, trans, rs); }, why);
      else if (!A) ex = LHF_NULL_OBJ;
      else if (A->n() != n) ex = LHF_MISMATCHED_SIZES;
      else bad = thrown([&] {
        auto go = [&](const auto &W) {
          if (with_betas) { auto pr = h.ref->hifir(W, B, nirs, betas, X, trans, rs); if (with_st) { e2[0] = (int)pr.first; e2[1] = pr.second; } }
          else h.ref->hifir(W, B, nirs, X, trans, rs);
        };
        if (!A->s) throw std::runtime_error("");
        if (A->row) go(hif::wrap_const_crs(n, n, A->s->ptr.data(), A->s->ind.data(), (const V *)A->s->val.data(), false));
        else go(hif::wrap_const_ccs(n, n, A->s->ptr.data(), A->s->ind.data(), (const V *)A->s->val.data(), false));
      }, why);
      if (bad) ex = LHF_HIFIR_ERROR;
      else if (ex == LHF_SUCCESS && nirs > 1 && !mult) sim::count(std::is_same<V, T>::value ? "probe.refinements" : "probe.mixed_refinements");
    }
    if (sim::chance(1, 3)) arm(false);
    LhfStatus st = plain ? capi("Solve", [&] { return simple(b.data(), x.data()); }) : capi("Apply", [&] { return api(op, b.data(), nirs, with_betas ? betas : nullptr, rank, x.data(), with_st ? st2 : nullptr); });
    bool f = fired(); bool lp = fault::lapack_faults_fired() > 0;
    done_faults(); fault::disarm_all();
    sim::log("%s op=%d nirs=%d rank=%d betas=%d A=%d -> %s", plain ? "Solve" : "Apply", (int)op, nirs, rank, with_betas, ia, stname(st));
    saw("Apply", st, f || (A && !A->s), why.c_str());
    if (st != ex && !(f && st == LHF_HIFIR_ERROR)) BAD("status", "Apply(op %d, nirs %d, rank %d) returned %s, the C++ call means %s", (int)op, nirs, rank, stname(st), stname(ex));
    if (lp && st == LHF_SUCCESS) BAD("status", "success although LAPACK failed");
    if (memcmp(b.data(), b0.data(), n * sizeof(V)) || betas[0] != betas0[0] || betas[1] != betas0[1]) BAD("inputs", "Apply changed its input");
    if (st2[2] != -77) BAD("inputs", "wrote past ir_status");
    if (st == LHF_SUCCESS) {
      double err;
      if (!close(x.data(), rx.data(), n, tol_of<T>(), &err)) BAD("result", "Apply(op %d, nirs %d, rank %d, n %zu) differs from the C++ result by %g", (int)op, nirs, rank, n, err);
      if (st2[0] != e2[0] || st2[1] != e2[1]) BAD("result", "refinement status %d,%d instead of %d,%d", st2[0], st2[1], e2[0], e2[1]);
      ++ok_applies;
    } else {
      ++errors;
      if (st != LHF_HIFIR_ERROR) for (auto &v : x) if (!(v == V(-7))) BAD("result", "the output was touched although the call was refused");
    }
  }
  template <class V> int other(Slot<V> *s, int n) { int i = (int)sim::choose(n + 1) - 1; return i >= 0 && s[i].h ? i : -1; }
  template <class V> bool used(int i, bool up) { for (auto &h : p) if ((up ? h.Au : h.A) == i) return true; return false; }

  void run() {
    maxn = sim::pick<int>({10, 30, 60});
    common = 1 + (int)sim::choose(maxn);
    int nops = 4 + (int)sim::choose(10);
    bool two = sim::chance(2, 3);
    auto go = [&](Held &h, bool refine) { apply_op<T>(h, m, h.A, [&](LhfOperationType o, const T *b, int n, const double *be, int r, T *x, int *s) { return Api<T>::apply(h.h, o, b, n, be, r, x, s); }, [&](const T *b, T *x) { return Api<T>::solve(h.h, b, x); }, refine); };
    auto mixed_update = [&](Held &h, int ia) {
      LhfStatus st = capi("Update (mixed)", [&] { return Mix<T>::update(h.h, ia < 0 ? nullptr : u[ia].h); });
      LhfStatus ex = !h.h ? LHF_NULL_OBJ : ia >= 0 && !h.ref->empty() && u[ia].n() != (size_t)h.ref->nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
      if (st != ex) BAD("status", "mixed Update returned %s instead of %s", stname(st), stname(ex));
      if (h.h) h.Au = ia;
      sim::log("mixed Update(%d) -> %s", ia, stname(st));
    };
    auto mixed_go = [&](Held &h, bool refine) { apply_op<U>(h, u, h.Au, [&](LhfOperationType o, const U *b, int n, const double *be, int r, U *x, int *s) { return Mix<T>::apply(h.h, o, b, n, be, r, x, s); }, [&](const U *b, U *x) { return Mix<T>::solve(h.h, b, x); }, refine); };
    for (int k = 0; k < nops; ++k) {
      sim::set_context("operation %d", k);
      Held &h = p[sim::choose(2)];
      int what = k == 0 ? 0 : k == 1 && two ? 0 : k == 1 + two ? 2 : (int)sim::choose(13);
      switch (what) {
        case 0: new_matrix(m[k < 2 ? k : sim::choose(3)]); break;
        case 1: if (Mix<T>::has) { new_matrix(u[sim::choose(2)]); break; }  // fall through
        case 2: case 3: factorize(h, false);
          if (sim::chance(1, 2)) go(h, true);
          if (Mix<T>::has && sim::chance(1, 3)) { int i = (int)sim::choose(2); new_matrix(u[i]); mixed_update(h, u[i].h ? i : -1); mixed_go(h, true); }
          break;
        case 4: factorize(h, true); break;
        case 5: {
          int ia = other(m, 3);
          LhfStatus st = capi("Update", [&] { return Api<T>::update(h.h, ia < 0 ? nullptr : m[ia].h); });
          LhfStatus ex = !h.h ? LHF_NULL_OBJ : ia >= 0 && !h.ref->empty() && m[ia].n() != (size_t)h.ref->nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
          if (st != ex) BAD("status", "Update returned %s instead of %s", stname(st), stname(ex));
          if (h.h) h.A = ia;
          sim::log("Update(%d) -> %s", ia, stname(st));
          break;
        }
        case 6: if (Mix<T>::has) {
          mixed_update(h, other(u, 2));
          break;
        }  // fall through
        case 7: case 8:
          go(h, false);
          break;
        case 9:
          if (Mix<T>::has) mixed_go(h, sim::chance(1, 4));
          else queries(h);
          break;
        case 10: { int i = (int)sim::choose(3); if (sim::chance(1, 2)) wrap(m[i]); else if (!used<T>(i, false)) read_matrix(m[i]); break; }
        case 11: if (sim::chance(1, 2)) read_vector(); else { auto &s = u[sim::choose(2)]; if (Mix<T>::has) wrap(s); } break;
        case 12: {
          if (sim::chance(1, 2)) {
            uint64_t l = fault::live_blocks();
            LhfStatus st = capi("Destroy", [&] { return Api<T>::destroy(h.h); });
            if (st != LHF_SUCCESS) BAD("status", "Destroy returned %s", stname(st));
            if (h.h && fault::live_blocks() >= l) BAD("leak", "Destroy released nothing");
            h = Held();
            sim::log("Destroy");
          } else {
            int i = (int)sim::choose(3);
            if (used<T>(i, false)) break;
            if (capi("DestroyMatrix", [&] { return Api<T>::mdestroy(m[i].h); }) != LHF_SUCCESS) BAD("status", "DestroyMatrix failed");
            m[i] = Slot<T>();
          }
          break;
        }
      }
      fresh_text();
      sim::sig((uint64_t)what * 131 + errors * 7 + ok_applies * 3 + ok_facts);
    }
    message();
    for (auto &h : p) { capi("Destroy", [&] { return Api<T>::destroy(h.h); }); h = Held(); }
    for (auto &s : m) capi("DestroyMatrix", [&] { return Api<T>::mdestroy(s.h); });
    for (auto &s : u) capi("DestroyMatrix", [&] { return Api<U>::mdestroy(s.h); });
    if (ok_facts) sim::nontrivial();
    sim::describe("%d operations, %d factorizations, %d applies, %d failed calls", nops, ok_facts, ok_applies, errors);
  }
};

void run() {
  disk::reset();
  pending = known = false;
  for (int i = 0; i < 2; ++i) {  // the message buffers take their size
    std::string name = "sim:/" + std::string(900, 'x');
    double v;
    LhfStatus st = capi("ReadVector", [&] { return lhfdReadVector(name.c_str(), 1, &v); });
    saw("ReadVector", st, true, nullptr);
    if (st != LHF_HIFIR_ERROR) BAD("status", "ReadVector of an absent file returned %s", stname(st));
    message();
  }
  message();
  uint64_t live = fault::live_blocks();
  switch (sim::choose(4)) {
    case 0: { World<double> w; w.run(); break; }
    case 1: { World<std::complex<double>> w; w.run(); break; }
    case 2: { World<float> w; w.run(); break; }
    default: { World<std::complex<float>> w; w.run(); }
  }
  if (fault::live_blocks() > live + 1) BAD("leak", "%lu blocks more than before after everything was destroyed", (unsigned long)(fault::live_blocks() - live));
}
sim::Register reg("C08", run);
}  // namespace
