// Exported factors, independent of the storage used for exporting. Included inside an anonymous namespace after
// C, T, R, Z and BAD(class, ...) are defined.
#pragma once
// ---- what a user holds after exporting one level: plain arrays of exactly the inquired sizes -------------------
template <class Ex>
struct Raw {
  size_t m = 0, n = 0, z[4] = {0, 0, 0, 0};
  std::vector<typename Ex::indptr_type> ptr[4];
  std::vector<typename Ex::index_type>  ind[4], perm[4];
  std::vector<T>                        val[4], d, dense;
  std::vector<R>                        s, t;
  bool                                  has_dense = false;
};
struct Level {  // independent of the storage used for exporting
  size_t m = 0, n = 0;
  std::vector<std::vector<std::pair<int, Z>>> L, U, E, F;  // by row
  std::vector<Z>                              d, dense;
  std::vector<long double>                    s, t;
  std::vector<int>                            p, q;
  bool                                        has_dense = false;
};
typedef std::vector<Level> Levels;
const char *PART[] = {"L", "U", "E", "F"};

template <class Ex>
Call export_level(C::prec::prec_type &P, Raw<Ex> &r, bool destroy) {
  size_t z[4];
  Call c0 = guarded([&] { P.inquire_sizes(r.m, r.n, z[0], z[1], z[2], z[3]); });
  if (!c0.ok()) return c0;
  size_t m = r.m, n = r.n, nm = n - m;
  size_t rows[4] = {m, m, nm, m}, cols[4] = {m, m, m, nm};
  for (int i = 0; i < 4; ++i) {
    r.z[i] = z[i];
    r.ptr[i].assign((Ex::ROW_MAJOR ? rows[i] : cols[i]) + 1, -77); r.ptr[i].shrink_to_fit();
    r.ind[i].assign(z[i], -77); r.ind[i].shrink_to_fit();
    r.val[i].assign(z[i], T(-77)); r.val[i].shrink_to_fit();
    r.perm[i].assign(n, -77); r.perm[i].shrink_to_fit();
  }
  r.d.assign(m, T(-77)); r.s.assign(n, R(-77)); r.t.assign(n, R(-77));
  r.d.shrink_to_fit(); r.s.shrink_to_fit(); r.t.shrink_to_fit();
  r.has_dense = P.is_last_level() && n != m;
  if (r.has_dense) {
    size_t a = 0, b = 0;
    Call c = guarded([&] { P.template inquire_or_export_dense<T>(nullptr, a, b); });
    if (!c.ok()) return c;
    if (a != nm || b != nm) BAD("sizes", "dense last level is %zux%zu, expected order %zu", a, b, nm);
    r.dense.assign(nm * nm, T(-77)); r.dense.shrink_to_fit();
  }
  return guarded([&] {
    P.template export_sparse_data<Ex>(r.ptr[0].data(), r.ind[0].data(), r.val[0].data(), r.d.data(), r.ptr[1].data(), r.ind[1].data(), r.val[1].data(), r.ptr[2].data(), r.ind[2].data(), r.val[2].data(),
                                      r.ptr[3].data(), r.ind[3].data(), r.val[3].data(), r.s.data(), r.t.data(), r.perm[0].data(), r.perm[1].data(), r.perm[2].data(), r.perm[3].data(), destroy);
    size_t a, b;
    if (r.has_dense) P.template inquire_or_export_dense<T>(r.dense.data(), a, b, destroy);
  });
}
template <class Ex>
Level denote(const Raw<Ex> &r, int lvl) {
  Level o;
  o.m = r.m; o.n = r.n; o.has_dense = r.has_dense;
  if (r.m > r.n) BAD("sizes", "level %d: leading block %zu of %zu", lvl, r.m, r.n);
  size_t m = r.m, nm = r.n - r.m, rows[4] = {m, m, nm, m}, cols[4] = {m, m, m, nm};
  std::vector<std::vector<std::pair<int, Z>>> *dst[] = {&o.L, &o.U, &o.E, &o.F};
  for (int i = 0; i < 4; ++i) {
    auto &D = *dst[i];
    D.resize(rows[i]);
    size_t np = Ex::ROW_MAJOR ? rows[i] : cols[i], ns = Ex::ROW_MAJOR ? cols[i] : rows[i];
    if ((long)r.ptr[i][0] != 0 || (size_t)r.ptr[i][np] != r.z[i]) BAD("structure", "level %d: %s runs from %ld to %ld of %zu", lvl, PART[i], (long)r.ptr[i][0], (long)r.ptr[i][np], r.z[i]);
    for (size_t k = 0; k < np; ++k) {
      if (r.ptr[i][k] > r.ptr[i][k + 1]) BAD("structure", "level %d: start positions of %s decrease", lvl, PART[i]);
      for (auto e = r.ptr[i][k]; e < r.ptr[i][k + 1]; ++e) {
        long j = (long)r.ind[i][e];
        if (j < 0 || j >= (long)ns) BAD("structure", "level %d: %s holds index %ld of %zu", lvl, PART[i], j, ns);
        Z v((std::complex<double>(r.val[i][e])));
        if (Ex::ROW_MAJOR) D[k].push_back({(int)j, v}); else D[j].push_back({(int)k, v});
      }
    }
    for (auto &x : D) {
      std::sort(x.begin(), x.end(), [](const std::pair<int, Z> &a, const std::pair<int, Z> &b) { return a.first < b.first; });
      for (size_t k = 1; k < x.size(); ++k) if (x[k].first == x[k - 1].first) BAD("structure", "level %d: %s holds an entry twice", lvl, PART[i]);
    }
  }
  for (size_t i = 0; i < m; ++i) {
    if (!o.L[i].empty() && o.L[i].back().first >= (int)i) BAD("structure", "level %d: L is not strictly lower", lvl);
    if (!o.U[i].empty() && o.U[i].front().first <= (int)i) BAD("structure", "level %d: U is not strictly upper", lvl);
    o.d.push_back(Z(std::complex<double>(r.d[i])));
  }
  for (size_t i = 0; i < r.n; ++i) {
    o.s.push_back(r.s[i]); o.t.push_back(r.t[i]);
    for (int k = 0; k < 4; k += 2) {
      long v = (long)r.perm[k][i];
      if (v < 0 || v >= (long)r.n || (long)r.perm[k + 1][v] != (long)i) BAD("structure", "level %d: %s is not a permutation with the exported inverse", lvl, k ? "q" : "p");
    }
    o.p.push_back((int)r.perm[0][i]); o.q.push_back((int)r.perm[2][i]);
  }
  for (auto &v : r.dense) o.dense.push_back(Z(std::complex<double>(v)));
  return o;
}
bool same(const Level &a, const Level &b) {
  auto eqr = [](const std::vector<long double> &x, const std::vector<long double> &y) { return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), [](long double p, long double q) { return p == q || (p != p && q != q); }); };
  auto eq = [](const std::vector<Z> &x, const std::vector<Z> &y) { return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), [](const Z &p, const Z &q) { return p == q || (p != p && q != q); }); };
  auto rows = [](const std::vector<std::vector<std::pair<int, Z>>> &x, const std::vector<std::vector<std::pair<int, Z>>> &y) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) {
      if (x[i].size() != y[i].size()) return false;
      for (size_t k = 0; k < x[i].size(); ++k) if (x[i][k].first != y[i][k].first || !(x[i][k].second == y[i][k].second || x[i][k].second != x[i][k].second)) return false;
    }
    return true;
  };
  return a.m == b.m && a.n == b.n && a.has_dense == b.has_dense && a.p == b.p && a.q == b.q && eqr(a.s, b.s) && eqr(a.t, b.t) && eq(a.d, b.d) && eq(a.dense, b.dense) && rows(a.L, b.L) && rows(a.U, b.U) && rows(a.E, b.E) && rows(a.F, b.F);
}

Levels export_all(C::prec &M, bool row, bool destroy, Call &st) {
  Levels out;
  int lvl = 0;
  st = Call();
  st.status = OK;
  for (auto &P : M.precs()) {
    ++lvl;
    if (row) { Raw<C::crs> r; st = export_level(P, r, destroy); if (!st.ok()) return out; out.push_back(denote(r, lvl)); }
    else { Raw<C::ccs> r; st = export_level(P, r, destroy); if (!st.ok()) return out; out.push_back(denote(r, lvl)); }
  }
  return out;
}
