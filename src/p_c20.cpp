// C20: no setting can break an object: hostile parameter values are normalised, honoured or rejected.
#include <climits>
#include <sstream>
#include "twin.hpp"
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
const double TOL = tol_of<T>();
const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();

struct Field { const char *name; bool dbl; size_t off; };
#define D_(f) {#f, true, offsetof(hif::Params, f)}
#define I_(f) {#f, false, offsetof(hif::Params, f)}
const Field FIELDS[] = {D_(tau_L), D_(tau_U), D_(kappa_d), D_(kappa), D_(alpha_L), D_(alpha_U), D_(rho), D_(c_d), D_(c_h), I_(N), I_(verbose), I_(rf_par), I_(reorder), I_(spd), I_(check), I_(pre_scale), I_(symm_pre_lvls), I_(threads), I_(mumps_blr), I_(fat_schur_1st), D_(rrqr_cond), I_(pivot), D_(gamma), D_(beta), I_(is_symm), I_(no_pre), D_(nzp_thres), I_(dense_thres)};
const int NF = sizeof FIELDS / sizeof FIELDS[0];
double get(const hif::Params &p, int k) {
  const char *b = (const char *)&p + FIELDS[k].off;
  return FIELDS[k].dbl ? *(const double *)b : (double)*(const int *)b;
}
void put(hif::Params &p, int k, double v) {
  char *b = (char *)&p + FIELDS[k].off;
  if (FIELDS[k].dbl) *(double *)b = v;
  else *(int *)b = v >= 2147483647. ? INT_MAX : v <= -2147483648. ? INT_MIN : (int)v;
}
bool same_num(double a, double b) { return a == b || (a != a && b != b); }

// ---- settings by name against a plain model --------------------------------------------------
void names() {
  hif::Params p = hif::get_default_params();
  double model[NF];
  for (int k = 0; k < NF; ++k) model[k] = get(p, k);
  int steps = 1 + (int)sim::choose(12);
  for (int s = 0; s < steps; ++s) {
    int  what = (int)sim::choose(8), k = (int)sim::choose(NF);
    bool as_int = sim::chance(1, 2);
    double v = sim::pick<double>({0, 1, -1, 2, 7, -3, 100000, 0.5, 1e-9, 1e9});
    if (as_int || !FIELDS[k].dbl) v = std::trunc(v);
    std::string name = FIELDS[k].name;
    bool known = true;
    if (what == 0) { name += sim::pick<const char *>({"x", " ", "_", "\n"}); known = false; }
    if (what == 1) { name = name.substr(0, name.size() - 1); known = false; }
    if (what == 2) { name = sim::pick<const char *>({"", "TAU_L", "droptol", "tau", "alpha", "threshold", "n"}); known = false; }
    for (int q = 0; q < NF && !known; ++q) if (name == FIELDS[q].name) { k = q; known = true; if (!FIELDS[k].dbl) v = std::trunc(v); }
    bool failed = false;
    bool alias = sim::chance(1, 2);
    Call c = guarded([&] {
      if (as_int) failed = alias ? hif::set_param_attr(name, (int)v, p) : hif::set_option_attr(name, (int)v, p);
      else failed = alias ? hif::set_param_attr(name, v, p) : hif::set_option_attr(name, v, p);
    });
    if (!c.ok()) sim::violate("C20:name", "setting '%s' by name raised %s", name.c_str(), sname(c.status));
    if (failed == known) sim::violate("C20:name", "setting '%s' by name reports %s", name.c_str(), failed ? "failure" : "success");
    if (known) model[k] = v;
    for (int q = 0; q < NF; ++q) if (!same_num(model[q], get(p, q))) sim::violate("C20:name", "after setting '%s' to %g by name %s is %g, expected %g", name.c_str(), v, FIELDS[q].name, get(p, q), model[q]);
    sim::count("probe.set_by_name");
  }
}
// ---- settings read from a stream, verbosity flags, textual form ------------------------------
void texts() {
  hif::Params p = hif::get_default_params();
  double model[NF];
  for (int k = 0; k < NF; ++k) {
    if (sim::chance(1, 2)) put(p, k, sim::pick<double>({0, 1, 2, 3, 4, 64, 1000, -1}) + (FIELDS[k].dbl ? sim::pick<double>({0, 0.25, 0.5}) : 0));
    model[k] = get(p, k);
  }
  auto same = [&](const char *what) {
    for (int q = 0; q < NF; ++q) if (!same_num(model[q], get(p, q))) sim::violate("C20:text", "%s: %s is %g, expected %g", what, FIELDS[q].name, get(p, q), model[q]);
  };
  int verb = 10, piv = 0;
  for (int q = 0; q < NF; ++q) { if (!strcmp(FIELDS[q].name, "verbose")) verb = q; if (!strcmp(FIELDS[q].name, "pivot")) piv = q; }
  // flags are added one by one, anything that is not positive silences
  for (int i = (int)sim::choose(5); i > 0; --i) {
    int flag = sim::pick<int>({0, -1, 1, 2, 4, 8, 16, 32, 64, 12, 127, INT_MIN});
    int now = (int)model[verb];
    if (sim::chance(1, 2)) hif::enable_verbose(flag, p); else hif_enable_verbose(flag, &p);
    model[verb] = flag > 0 ? now | flag : 0;
    same("after switching messages on");
  }
  hif_enable_verbose(1, nullptr);
  // one value after the other, in the order of the fields
  std::stringstream in;
  int k = (int)sim::choose(piv + 1);
  for (int q = 0; q < k; ++q) { model[q] = FIELDS[q].dbl ? sim::pick<double>({0, 0.125, 7.5, -2, 1e-3, 1e9}) : sim::pick<double>({0, 1, 5, -3, 123456}); in.precision(17); in << model[q] << sim::pick<const char *>({" ", "\n", "\t ", "  "}); }
  hif::Params r = p;
  in >> r;
  for (int q = 0; q < k; ++q) if (model[q] != get(r, q)) sim::violate("C20:text", "%s read from a stream is %g, expected %g", FIELDS[q].name, get(r, q), model[q]);
  for (int q = 0; q < k; ++q) put(p, q, model[q]);
  // every line names a field and shows its value
  std::istringstream rep(hif::opt_repr(p));
  std::string name, val, line;
  int lines = 0;
  while (std::getline(rep, line)) {
    std::istringstream l(line);
    val.clear();
    l >> name >> val;
    int q = 0;
    while (q < NF && name != FIELDS[q].name) ++q;
    if (q == NF) sim::violate("C20:text", "the textual form has a line for '%s'", name.c_str());
    ++lines;
    std::string want;
    int v = FIELDS[q].dbl ? 0 : (int)model[q];
    if (name == "verbose") {
      if (!v) want = "none";
      else {
        if (v & 1) want = "warning"; else if (v & 2) want = "info";
        const struct { int f; const char *s; } fl[] = {{4, "pre"}, {8, "fac"}, {16, "pre_time"}, {32, "mem"}};
        for (auto &x : fl) if (v & x.f) want += (want.empty() ? "" : ",") + std::string(x.s);
      }
    } else if (name == "reorder") want = v >= 0 && v <= 3 ? std::vector<const char *>{"Off", "Auto", "AMD", "RCM"}[v] : "Null";
    else if (name == "check") want = v ? "yes" : "no";
    else if (name == "pivot") want = v == 0 ? "off" : v == 1 ? "on" : "auto";
    else want = FIELDS[q].dbl ? std::to_string(model[q]) : std::to_string(v);
    if (val != want) sim::violate("C20:text", "the textual form shows %s as '%s', expected '%s'", name.c_str(), val.c_str(), want.c_str());
  }
  if (lines < NF - 1) sim::violate("C20:text", "the textual form has %d lines", lines);
  sim::count("probe.textual");
}
// ---- hostile values --------------------------------------------------------------------------
double hostile(int k) {
  if (FIELDS[k].dbl) return sim::pick<double>({0, -1, NaN, INF, -INF, 1e-300, 1e300, 1e6, -1e-3, -1e300, 0.999, 1, 1e-20, 4.9e-324, 1e10, -10, 1e19});
  return sim::pick<double>({0, -1, 1, 2, 3, 4, 5, -2, -7, 100, 12345, (double)INT_MAX, (double)INT_MIN, -100000, 0x100});
}
// a change of settings that must not change anything; returns false when none was drawn
bool equivalent(hif::Params &p, const hif::Params &o, size_t n) {
  p = o;
  int times = 1 + (int)sim::choose(3);
  for (int t = 0; t < times; ++t) switch (sim::choose(15)) {
    case 0: p.c_h = sim::pick<double>({0, -1, NaN, INF, 100}); break;
    case 1: p.mumps_blr = sim::pick<int>({0, -1, 5, INT_MAX}); break;
    case 2: if (o.rf_par) p.rf_par = sim::pick<int>({1, -3, INT_MIN}); break;
    case 3: if (o.no_pre) p.no_pre = sim::pick<int>({1, 2, -1}); break;
    case 4: if (o.fat_schur_1st) p.fat_schur_1st = sim::pick<int>({1, 9, -1}); break;
    case 5: p.check = sim::pick<int>({0, 1, -5, 77}); break;
    case 6: if (!o.is_symm) p.spd = sim::pick<int>({0, -1, 1, 55}); else p.spd = o.spd > 0 ? 9 : o.spd < 0 ? -9 : 0; break;
    case 7: if (o.dense_thres <= 0 || o.dense_thres == 2000) p.dense_thres = sim::pick<int>({0, -1, INT_MIN, 2000}); break;
    case 8: p.verbose = sim::pick<int>({0, -1, 0x7fffffff, 1}); break;
    case 9: if (o.rrqr_cond <= 0) p.rrqr_cond = sim::pick<double>({0, -1, -INF}); break;
    case 11: p.threads = sim::pick<int>({0, 1, 4, -1, INT_MAX, INT_MIN}); break;
    case 12: if (o.pivot == hif::PIVOTING_OFF || o.is_symm) p.gamma = sim::pick<double>({0, -1, NaN, INF, 3}); break;
    case 13: if (o.symm_pre_lvls >= 0) p.nzp_thres = sim::pick<double>({0, -1, NaN, INF, 0.5}); break;
    case 14:  // no reference size: the dense threshold alone decides
      if (o.c_d != 0 && o.N != 0) break;
      if (sim::chance(1, 2)) { p.c_d = sim::pick<double>({10, 3, 100}); p.N = 0; } else { p.c_d = 0; p.N = sim::pick<int>({-1, 0, 7, 100000}); }
      break;
    case 10: if (o.c_d != 0 && (o.N < 0 || o.N == (int)n)) p.N = sim::pick<int>({-1, -9, INT_MIN, (int)n}); break;
  }
  (void)n;
  return memcmp(&p, &o, sizeof p) != 0;
}
void expect_empty(C::prec &M, size_t n) {
  Queries q = query<C>(M);
  if (!q.empty || q.levels || q.nnz || q.nnz_ef || q.nnz_ldu || q.rank || q.nrows || q.ncols || q.schur_size || q.schur_rank)
    sim::violate("C20:not-empty", "settings were rejected, but the object reports {%s}", q.str().c_str());
  std::vector<T> b(n, T(1)), x(n, T(0));
  Call c = guarded([&] { hif::Array<T> B(n, b.data(), true), X(n, x.data(), true); M.solve(B, X); });
  if (c.ok()) sim::violate("C20:applies", "settings were rejected, but a solve succeeds");
}
void run() {
  Twin<C> twin;
  if (sim::chance(1, 4)) twin.start();
  if (sim::chance(1, 10)) names();
  if (sim::chance(1, 10)) texts();
  int  maxn = sim::pick<int>({8, 25, 60});
  Fact f  = draw_fact(maxn);
  Fact f0 = draw_fact(maxn, false);
  bool prior = sim::chance(1, 3);
  size_t n = f.spec.n;
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base), An = A, A0(gen::build<T>(f0.spec), f0.row, f0.base);
  if (f.base) An = C::store(gen::build<T>(f.spec), f.row, 0);
  fault::set_alloc_limit(64u << 20);
  auto M = make<C>();
  if (prior) factorize<C>(*M, A0, f0.par, f0.m0);
  hif::Params p = f.par;
  size_t m0 = f.m0;
  int mode = (int)sim::choose(4);  // 0: a change without effect, else hostile values
  if (mode == 0) {
    if (sim::chance(1, 2)) {  // only the size thresholds decide when the last level is reached
      f.par.dense_thres = 2000; f.par.c_d = 0.1; f.par.rho = sim::pick<double>({1e4, 1e2});
      f.par.alpha_L = f.par.alpha_U = sim::pick<double>({0.2, 0.05, 1});
      if (sim::chance(1, 3)) { f.par.dense_thres = 1; if (sim::chance(1, 2)) f.par.c_d = 0; else { f.par.c_d = 10; f.par.N = 0; } }
      p = f.par;
    }
    if (!equivalent(p, f.par, n)) return;
    if (sim::tracing()) gen::describe_params(p);
    auto F = make<C>();
    Call a = factorize<C>(*F, A, f.par, m0), b = factorize<C>(*M, A, p, m0);
    if (a.status != b.status) sim::violate("C20:equivalent", "settings that mean the same: %s %s vs %s %s", sname(a.status), a.what, sname(b.status), b.what);
    Queries qa = query<C>(*F), qb = query<C>(*M);
    if (!(qa == qb)) sim::violate("C20:equivalent", "settings that mean the same give {%s} vs {%s}", qa.str().c_str(), qb.str().c_str());
    Op o = draw_op(n);
    auto ra = apply<C>(*F, An, o, n), rb = apply<C>(*M, An, o, n);
    double err;
    if (!out_equal(ra, rb, TOL, &err)) sim::violate("C20:equivalent", "settings that mean the same: %s %s vs %s, relative difference %g", opname(o.kind), sname(ra.call.status), sname(rb.call.status), err);
    sim::count("probe.equivalent_settings");
    sim::nontrivial();
    sim::sig(qa.nnz * 7 + f.spec.kind); sim::sig(o.kind);
    sim::describe("equivalent settings, %s n=%zu", gen::kind_name(f.spec.kind), n);
    drop<C>(F); drop<C>(M);
    return;
  }
  int times = mode == 1 ? 1 : 1 + (int)sim::choose(6);
  int changed[8];
  for (int t = 0; t < times; ++t) {
    int k = changed[t] = (int)sim::choose(NF);
    double v = hostile(k);
    put(p, k, v);
    sim::log("%s = %g", FIELDS[k].name, v);
    sim::count("fault.hostile_setting");
  }
  if (sim::chance(1, 12)) { m0 = sim::pick<size_t>({n, n + 1, (size_t)-1, n / 2}); sim::count("fault.hostile_setting"); }
  const char *fk = nullptr;
  if (sim::chance(1, 4)) fk = arm_fault(true, 60);
  uint64_t before = fault::alloc_count();
  Call c = factorize<C>(*M, A, p, m0);
  uint64_t fired = faults_fired(), allocs = fault::alloc_count() - before;
  fault::disarm_all();
  sim::log("factorize -> %s %s (%llu allocations, %llu faults)", sname(c.status), c.what, (unsigned long long)allocs, (unsigned long long)fired);
  if (c.status == OTHER) sim::violate("C20:error-type", "unknown exception type");
  if (allocs > 200000 + 4000 * n) sim::violate("C20:unbounded", "%llu allocations for a matrix of size %zu", (unsigned long long)allocs, n);
  if (c.ok()) {
    Queries q = query<C>(*M);
    if (q.empty || q.levels < 1 || q.levels > n + 1 || q.nrows != n || q.ncols != n || q.schur_rank > q.schur_size || q.schur_size > n || q.rank > n)
      sim::violate("C20:queries", "success, but the object of size %zu reports {%s}", n, q.str().c_str());
    int k = 1 + (int)sim::choose(3);
    for (int i = 0; i < k; ++i) {
      Op o = draw_op((int)n);
      auto r = apply<C>(*M, An, o, n), r2 = apply<C>(*M, An, o, n);
      if (r.call.status == OTHER) sim::violate("C20:error-type", "unknown exception type");
      double err;
      bool fin = true;
      for (auto &v : r.x) if (!std::isfinite(std::abs(v))) fin = false;
      if (r.call.status != r2.call.status || (fin && !out_equal(r, r2, TOL, &err))) sim::violate("C20:repeat", "%s twice on one object: %s vs %s", opname(o.kind), sname(r.call.status), sname(r2.call.status));
      if (fin) sim::count("probe.usable_after_hostile");
    }
    sim::count("probe.accepted");
  } else {
    expect_empty(*M, n);
    sim::count("probe.rejected");
  }
  // sane settings afterwards: as on a fresh object
  fault::set_alloc_limit(256u << 20);
  auto F = make<C>();
  Call a = factorize<C>(*F, A, f.par, f.m0), b = factorize<C>(*M, A, f.par, f.m0);
  Queries qa = query<C>(*F), qb = query<C>(*M);
  if (a.status != b.status || !(qa == qb)) sim::violate("C20:afterwards", "sane settings after hostile ones: %s {%s}, fresh object %s {%s}", sname(b.status), qb.str().c_str(), sname(a.status), qa.str().c_str());
  Op o = draw_op(n);
  auto ra = apply<C>(*F, An, o, n), rb = apply<C>(*M, An, o, n);
  double err;
  if (!out_equal(ra, rb, TOL, &err)) sim::violate("C20:afterwards", "%s with sane settings after hostile ones: %s, fresh object %s, relative difference %g", opname(o.kind), sname(rb.call.status), sname(ra.call.status), err);
  if (twin.on()) {
    TwinReq tq;
    tq.f = f; tq.o = o;
    auto t = twin.ask(tq);
    if (t.fact != b.status || !(t.q == qb)) sim::violate("C20:new-process", "sane settings after hostile ones: %s {%s}, in a new process %s {%s}", sname(b.status), qb.str().c_str(), sname(t.fact), t.q.str().c_str());
    if (!out_equal(rb, t.out, TOL, &err)) sim::violate("C20:new-process", "%s with sane settings after hostile ones: %s, in a new process %s, relative difference %g", opname(o.kind), sname(rb.call.status), sname(t.app), err);
  }
  sim::nontrivial();
  for (int t = 0; t < times; ++t) sim::sig(changed[t] * 16 + c.status);
  sim::sig(f.spec.kind);
  sim::describe("%d hostile settings, %s n=%zu, %s%s%s", times, gen::kind_name(f.spec.kind), n, sname(c.status), fk ? ", fault " : "", fk ? fk : "");
  drop<C>(F); drop<C>(M);
}
sim::Register reg("C20", run);
}  // namespace
