// C25: pre-processing returns true permutations, the scalings of a maximum matching, every unusable pivot and no other
// left to the end, and the ordering that was asked for, on every level, after any history and under failing allocations.
#include "world.hpp"
#include "hif/pre/driver.hpp"
#include <set>
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef gen::Real<T>::type R;
typedef long double ld;
#define BAD(cls, ...) sim::violate("C25:" cls, __VA_ARGS__)
typedef std::map<std::pair<int, int>, T> Ent;

// forests and a few other graphs, the labels shuffled, some diagonal entries missing or tiny
gen::Coo<T> draw_graph(int n, uint32_t seed) {
  sim::Rng r(seed * 977ull + n);
  gen::Coo<T> A;
  A.n = n;
  std::vector<int> lab(n);
  for (int i = 0; i < n; ++i) lab[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(lab[i], lab[r.below(i + 1)]);
  auto off = [&] { double v = 0.2 + 0.5 * r.unit(), w = 0.3 * r.sym(); return gen::Real<T>::make(r.below(2) ? v : -v, w); };
  int shape = (int)r.below(5), bad = r.below(3) ? 0 : 1 + (int)r.below(4);
  bool sym = r.below(2);
  for (int i = 0; i < n; ++i) {
    A.e[{i, i}] = gen::Real<T>::make((r.below(2) ? 1 : -1) * (3 + r.unit()), r.sym());
    if (!i || (shape < 3 && !r.below(6))) continue;  // a new tree
    int par = shape == 0 ? i - 1 : shape == 1 ? (int)r.below(i) : shape == 2 ? (i - 1) / 2 : shape == 3 ? std::max(0, i - 1 - (int)r.below(3)) : 0;
    if (r.below(4)) A.e[{lab[i], lab[par]}] = off();
    if (r.below(4) || sym) A.e[{lab[par], lab[i]}] = off();
    if (sym && !A.e.count({lab[i], lab[par]})) A.e.erase({lab[par], lab[i]});
  }
  for (int k = 0; k < bad; ++k) { int i = (int)r.below(n); if (r.below(2)) A.e.erase({i, i}); else A.e[{i, i}] = gen::Real<T>::make(r.below(2) ? (sizeof(R) == 4 ? 1e-9 : 1e-30) : 1e-3, 0); }
  if (!A.e.empty() && !r.below(3)) for (int k = 1 + (int)r.below(3); k; --k) { auto it = A.e.begin(); std::advance(it, r.below((uint32_t)A.e.size())); it->second = T(0); }  // stored zeros
  std::vector<char> row(n, 0), col(n, 0);
  for (auto &x : A.e) row[x.first.first] = col[x.first.second] = 1;
  for (int i = 0; i < n; ++i) if (!row[i] || !col[i]) A.e[{i, i}] = gen::Real<T>::make(1, 0);
  return A;
}
bool structurally_regular(const Ent &e, int n) {
  std::vector<std::vector<int>> adj(n);
  for (auto &x : e) if (x.first.first < n && x.first.second < n && x.second != T(0)) adj[x.first.first].push_back(x.first.second);
  std::vector<int> mate(n, -1), seen(n, -1);
  std::function<bool(int, int)> aug = [&](int i, int tag) {
    for (int j : adj[i]) { if (seen[j] == tag) continue; seen[j] = tag; if (mate[j] < 0 || aug(mate[j], tag)) { mate[j] = i; return true; } }
    return false;
  };
  for (int i = 0; i < n; ++i) if (!aug(i, i)) return false;
  return true;
}
typedef std::vector<std::set<int>> Graph;
void check_rcm(const Graph &g) {
  int m = (int)g.size();
  for (int b = m - 1; b >= 0;) {  // components are intervals, numbered from their ends
    std::vector<int> seen(m, 0), st{b};
    seen[b] = 1;
    int lo = b, cnt = 0;
    while (!st.empty()) { int v = st.back(); st.pop_back(); ++cnt; lo = std::min(lo, v); for (int w : g[v]) if (!seen[w]) { seen[w] = 1; st.push_back(w); } }
    if (b - lo + 1 != cnt) BAD("rcm", "the %d nodes connected with node %d of the ordering are spread down to %d", cnt, b, lo);
    size_t edges = 0;
    int last = -1;
    for (int v = b; v >= lo; --v) edges += g[v].size();
    for (int v = b - 1; v >= lo; --v) {
      int par = *g[v].rbegin();
      if (par <= v) BAD("rcm", "node %d of the ordering is not reached from the nodes numbered before it", v);
      if (last >= 0 && par > last) BAD("rcm", "node %d of the ordering is reached from %d, the one before it from %d", v, par, last);
      if (last == par && g[v].size() < g[v + 1].size()) BAD("rcm", "nodes %d and %d of the ordering, reached from the same node, have %zu and %zu neighbours", v + 1, v, g[v + 1].size(), g[v].size());
      last = par;
    }
    if ((int)edges == 2 * (cnt - 1)) {  // a tree: the ordering starts at an end of a longest path
      auto far = [&](int v0, int *w) {
        std::vector<int> d(m, -1), q{v0};
        d[v0] = 0;
        for (size_t k = 0; k < q.size(); ++k) for (int x : g[q[k]]) if (d[x] < 0) { d[x] = d[q[k]] + 1; q.push_back(x); }
        *w = q.back();
        return d[q.back()];
      };
      int w, u, e = far(b, &w), diam = far(w, &u);
      if (e != diam) BAD("rcm", "the ordering of a tree starts at depth %d, its longest path has length %d", e, diam);
      sim::count("probe.rcm_trees");
    }
    b = lo - 1;
  }
  sim::count("probe.rcm");
}
bool forest(const Graph &g) {
  std::vector<int> f(g.size());
  for (size_t i = 0; i < f.size(); ++i) f[i] = (int)i;
  std::function<int(int)> find = [&](int i) { return f[i] == i ? i : f[i] = find(f[i]); };
  for (size_t i = 0; i < g.size(); ++i) for (int j : g[i]) if (j > (int)i) { int a = find((int)i), b = find(j); if (a == b) return false; f[a] = b; }
  return true;
}
void check_fill(Graph g) {
  for (size_t i = 0; i < g.size(); ++i) {
    std::vector<int> up;
    for (int j : g[i]) if (j > (int)i) up.push_back(j);
    if (up.size() > 1) BAD("amd", "node %zu of the ordering of a forest has %zu neighbours numbered later: this ordering fills", i, up.size());
  }
  sim::count("probe.amd_forests");
}

struct State { hif::Array<R> s, t; hif::BiPermMatrix<C::Int> p, q; };
void check(const gen::Coo<T> &A, const State &o, size_t m0, size_t m, int level, bool symm, const hif::Params &par) {
  const int n = A.n;
  if ((int)o.p.size() != n || (int)o.q.size() != n || (int)o.s.size() != n || (int)o.t.size() != n) BAD("sizes", "arrays of %zu, %zu, %zu, %zu for order %d", (size_t)o.p.size(), (size_t)o.q.size(), (size_t)o.s.size(), (size_t)o.t.size(), n);
  if (m > m0) BAD("sizes", "a leading block of %zu was made of one of %zu", m, m0);
  for (int k = 0; k < 2; ++k) {
    auto &P = k ? o.q : o.p;
    std::vector<char> seen(n, 0);
    for (int i = 0; i < n; ++i) {
      long v = (long)P[i];
      if (v < 0 || v >= n || seen[v]) BAD("permutation", "%s is not a permutation: entry %d is %ld", k ? "q" : "p", i, v);
      seen[v] = 1;
      if ((long)P.inv((size_t)v) != i) BAD("permutation", "%s and its inverse disagree at %d", k ? "q" : "p", i);
      if (i >= (int)m0 && v != i) BAD("permutation", "%s moves %d, which is outside of the leading block", k ? "q" : "p", i);
    }
  }
  Ent B;
  for (auto &x : A.e) if (x.first.first < (int)m0 && x.first.second < (int)m0) B.insert(x);
  const bool regular = structurally_regular(B, (int)m0);
  for (int i = (int)m0; i < n; ++i) if (o.s[i] != R(1) || o.t[i] != R(1)) BAD("scaling", "row %d outside of the leading block is scaled", i);
  auto at = [&](int i, int j) -> ld { auto it = A.e.find({i, j}); return it == A.e.end() ? 0 : (ld)std::abs(it->second); };
  for (size_t i = 0; i < m0; ++i) if (!(o.s[i] > 0 && o.t[i] > 0 && std::isfinite(o.s[i]) && std::isfinite(o.t[i]))) BAD("finite", "scaling factors %g and %g at %zu", (double)o.s[i], (double)o.t[i], i);
  if (regular) {
    const ld tol = sizeof(R) == 4 ? 1e-3 : 1e-9;
    sim::count("probe.matchings");
    for (size_t i = 0; i < m0; ++i) if (!(o.s[i] > 0 && o.t[i] > 0 && std::isfinite(o.s[i]) && std::isfinite(o.t[i]))) BAD("scaling", "scaling factors %g and %g at %zu", (double)o.s[i], (double)o.t[i], i);
    bool msym = true;
    for (auto &x : B) if (std::abs(at(x.first.first, x.first.second) - at(x.first.second, x.first.first)) > 0) msym = false;
    const double b0 = par.beta < 0 ? 1e3 : par.beta;
    if (level == 1 || b0 <= 1) {
      if (!symm || msym)
        for (auto &x : B) {
          ld v = (ld)std::abs(x.second) * o.s[x.first.first] * o.t[x.first.second];
          if (!(v <= 1 + tol)) BAD("matching", "the entry (%d,%d) is scaled to %Lg", x.first.first, x.first.second, v);
        }
      if (!symm)
        for (size_t i = 0; i < m0; ++i) {
          ld v = at((int)o.p[i], (int)o.q[i]) * o.s[o.p[i]] * o.t[o.q[i]];
          if (!(std::abs(v - 1) <= tol)) BAD("matching", "the pivot (%ld,%ld) is scaled to %Lg", (long)o.p[i], (long)o.q[i], v);
        }
    } else if (!symm)
      for (size_t i = 0; i < m0; ++i) {
        ld s = o.s[o.p[i]], t = o.t[o.q[i]], v = at((int)o.p[i], (int)o.q[i]) * s * t;
        if (std::min(s, t) * b0 < std::max(s, t) * (1 - 1e-5L)) BAD("beta", "a pivot is scaled by %Lg and %Lg, beta is %g", s, t, par.beta);
        if (!(std::abs(v - 1) <= tol)) BAD("matching", "the pivot (%ld,%ld) is scaled to %Lg", (long)o.p[i], (long)o.q[i], v);
      }
  }
  if (symm) {
    for (int i = 0; i < n; ++i) {
      if (o.p[i] != o.q[i]) BAD("symmetric", "rows and columns are permuted differently at %d", i);
      if (!(o.s[i] == o.t[i] || (o.s[i] != o.s[i] && o.t[i] != o.t[i]))) BAD("symmetric", "rows and columns are scaled differently at %d", i);
    }
    sim::count("probe.symmetric");
  }
  // pivots that are missing or negligible are last, no other is
  std::vector<ld> rmax(n, 0), cmax(n, 0);
  for (auto &x : A.e) { rmax[x.first.first] = std::max(rmax[x.first.first], (ld)std::abs(x.second)); cmax[x.first.second] = std::max(cmax[x.first.second], (ld)std::abs(x.second)); }
  for (size_t i = 0; i < m0; ++i) {
    ld v = at((int)o.p[i], (int)o.q[i]), big = std::max(rmax[o.p[i]], cmax[o.q[i]]) * std::numeric_limits<R>::epsilon();
    if (i < m && v < big * (1 - 1e-5L)) BAD("pivots", "the pivot %zu of %zu is %Lg, its row and column reach %Lg times the rounding unit", i, m, v, big);
    if (i < m && !(v > 0)) BAD("pivots", "the pivot %zu of %zu is zero", i, m);
    if (i >= m && v > big * (1 + 1e-5L)) BAD("pivots", "the pivot %zu was put off although it is %Lg", i, v);
  }
  if (m < m0) sim::count("probe.static_deferrals");
  // ordering
  Graph g(m);
  for (auto &x : A.e) {
    size_t i = o.p.inv((size_t)x.first.first), j = o.q.inv((size_t)x.first.second);
    if (i < m && j < m && i != j) { g[i].insert((int)j); g[j].insert((int)i); }
  }
  bool rcm = par.reorder == hif::REORDER_RCM || (par.reorder == hif::REORDER_AUTO && symm && level == 1 && m != m0);
  if (par.reorder == hif::REORDER_OFF) {
    if (!symm) for (size_t i = 1; i < m; ++i) if (o.q[i - 1] >= o.q[i]) BAD("off", "the columns are reordered although reordering is off");
  } else if (rcm) check_rcm(g);
  else if (forest(g)) check_fill(g);
}
template <bool S>
size_t call(C::ccs &A, C::crs &B, size_t m0, int level, const hif::Params &par, State &o) { return hif::do_preprocessing<S>(A, B, m0, level, par, o.s, o.t, o.p, o.q); }

void run() {
  int nops = 1 + (int)sim::choose(8), maxn = sim::pick<int>({8, 30, 60});
  State *o = new State;
  int done = 0, fails = 0;
  for (int k = 0; k < nops; ++k) {
    sim::set_context("pre-processing %d", k);
    gen::Coo<T> A;
    if (sim::chance(1, 2)) {
      int n = 1 + (int)sim::choose(maxn);
      uint32_t seed = sim::choose(1u << 16);
      A = draw_graph(n, seed);
      sim::log("graph n=%d seed=%u", n, seed);
    } else {
      gen::Spec sp = gen::draw_spec(maxn);
      if (sim::chance(1, 8)) sp.kind = sim::pick<int>({gen::K_SKEW, gen::K_BORDER});
      A = gen::build<T>(sp);
      sim::log("matrix %s n=%d seed=%u", gen::kind_name(sp.kind), sp.n, sp.seed);
    }
    const int n = A.n;
    hif::Params par = gen::draw_params(false);
    par.beta = sim::pick<double>({1e3, 10, 2, -1, 1.5, 0.5});
    par.pre_scale = sim::pick<int>({0, 0, 1, 2});
    int level = sim::pick<int>({1, 1, 2, 3});
    bool symm = sim::chance(1, 2);
    size_t m0 = sim::chance(1, 4) ? 1 + sim::choose((uint32_t)n) : (size_t)n;
    sim::log("   m0=%zu level=%d %s reorder=%d beta=%g pre_scale=%d verbose=%d", m0, level, symm ? "symmetric" : "asymmetric", par.reorder, par.beta, par.pre_scale, par.verbose);
    C::store rs(A, true), cs(A, false), rs0 = rs, cs0 = cs;
    if (sim::chance(1, 4)) { fault::Lib l; delete o; o = new State; }
    C::crs W(n, n, rs.ptr.data(), rs.ind.data(), rs.val.data(), true);
    C::ccs V(n, n, cs.ptr.data(), cs.ind.data(), cs.val.data(), true);
    const char *fk = sim::chance(1, 5) ? arm_fault(true, 60) : nullptr;
    size_t m = 0;
    Call c = guarded([&] { m = symm ? call<true>(V, W, m0, level, par, *o) : call<false>(V, W, m0, level, par, *o); });
    fault::disarm_all();
    sim::log("   -> %s %s%s", sname(c.status), c.what, fk ? " (fault armed)" : "");
    if (level == 1 || c.ok())
      if (rs.ptr != rs0.ptr || rs.ind != rs0.ind || rs.val != rs0.val || cs.ptr != cs0.ptr || cs.ind != cs0.ind || cs.val != cs0.val) BAD("input", "the matrix was changed by pre-processing on level %d", level);
    if (!c.ok()) {
      bool none = true;  // an empty leading block is refused
      for (auto &x : A.e) none = none && !(x.first.first < (int)m0 && x.first.second < (int)m0);
      if (none) sim::count("probe.empty_leading_block");
      else if (!fk) BAD("fails", "pre-processing fails: %s %s", sname(c.status), c.what);
      ++fails;
      continue;
    }
    check(A, *o, m0, m, level, symm, par);
    sim::sig(m * 64 + level * 8 + par.reorder * 2 + symm);
    ++done;
  }
  if (done) sim::nontrivial();
  sim::describe("%d calls, %d checked, %d failed", nops, done, fails);
  { fault::Lib l; delete o; }
}
sim::Register reg("C25", run);
}  // namespace
