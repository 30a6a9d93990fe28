// C13: a well-formed MatrixMarket file yields exactly the matrix it denotes, however it is spelled and delivered.
#include "iotypes.hpp"
using namespace world;
using namespace io;
namespace {
typedef std::map<std::pair<long, long>, mm::Text> Full;
typedef std::map<std::pair<long, long>, int>      Signs;

template <class CS>
void check_matrix(const CS &A, bool row, const mm::Model &m, const Full &full, Signs &sg, const char *how) {
  if ((long)A.nrows() != m.rows || (long)A.ncols() != m.cols || A.nnz() != full.size())
    sim::violate("C13:shape", "%s: %zu x %zu with %zu entries, the file denotes %ld x %ld with %zu", how, (size_t)A.nrows(), (size_t)A.ncols(), (size_t)A.nnz(), m.rows, m.cols, full.size());
  long np = row ? m.rows : m.cols, prev;
  if (A.ind_start()[0] != 0) sim::violate("C13:start", "%s: first start is not zero", how);
  for (long i = 0; i < np; ++i) {
    prev = -1;
    if (A.ind_start()[i + 1] < A.ind_start()[i]) sim::violate("C13:start", "%s: starts decrease", how);
    for (auto k = A.ind_start()[i]; k < A.ind_start()[i + 1]; ++k) {
      long j = (long)A.inds()[k];
      if (j <= prev) sim::violate("C13:order", "%s: entries of line %ld are not sorted", how, i);
      prev = j;
      std::pair<long, long> p = row ? std::make_pair(i, j) : std::make_pair(j, i);
      auto it = full.find(p);
      if (it == full.end()) sim::violate("C13:position", "%s: entry (%ld,%ld) is not in the file", how, p.first, p.second);
      if (!entry_ok(A.vals()[k], it->second, sg[p])) sim::violate("C13:value", "%s: entry (%ld,%ld) does not have the value %s %s of the file", how, p.first, p.second, it->second.r.c_str(), it->second.i.c_str());
    }
  }
}
template <class I>
void sparse_read(int api, const mm::Model &m, const Full &full, Signs &sg, uint64_t serial) {
  Call c;
  char how[80];
  snprintf(how, sizeof how, "reading %d by interface %d", (int)serial, api);
  if (api < 2) {
    bool row = api == 0;
    hif::CRS<T, I> A; hif::CCS<T, I> B;
    if (serial % 2) { A = hif::CRS<T, I>(3, 3); B = hif::CCS<T, I>(2, 4); }  // an object that was in use
    c = guarded([&] { if (row) A.read_mm("sim:/in.mm"); else B.read_mm("sim:/in.mm"); });
    if (!c.ok()) sim::violate("C13:rejected", "%s: a well-formed file is rejected: %s %s", how, sname(c.status), c.what);
    if (row) check_matrix(A, true, m, full, sg, how); else check_matrix(B, false, m, full, sg, how);
  } else if (api == 2) {
    typedef hif::CRS<T, I> CS;
    CS A;
    c = guarded([&] { A = CS::from_mm("sim:/in.mm"); });
    if (!c.ok()) sim::violate("C13:rejected", "%s: a well-formed file is rejected: %s %s", how, sname(c.status), c.what);
    check_matrix(A, true, m, full, sg, how);
  } else {
    hif::Array<I> r, cc; hif::Array<T> v; size_t M = 99, N = 99;
    c = guarded([&] { hif::read_mm_sparse("sim:/in.mm", M, N, r, cc, v); });
    if (!c.ok()) sim::violate("C13:rejected", "%s: a well-formed file is rejected: %s %s", how, sname(c.status), c.what);
    if ((long)M != m.rows || (long)N != m.cols || r.size() != full.size() || cc.size() != full.size() || v.size() != full.size())
      sim::violate("C13:shape", "%s: %zu x %zu with %zu entries, the file denotes %ld x %ld with %zu", how, M, N, v.size(), m.rows, m.cols, full.size());
    Full seen;
    for (size_t k = 0; k < r.size(); ++k) {
      std::pair<long, long> p((long)r[k], (long)cc[k]);
      auto it = full.find(p);
      if (it == full.end() || seen.count(p)) sim::violate("C13:position", "%s: entry (%ld,%ld) is not in the file or twice", how, p.first, p.second);
      seen[p] = it->second;
      if (!entry_ok(v[k], it->second, sg[p])) sim::violate("C13:value", "%s: entry (%ld,%ld) does not have the value %s %s of the file", how, p.first, p.second, it->second.r.c_str(), it->second.i.c_str());
    }
  }
}
void run() {
  disk::reset();
  sim::Rng g(sim::choose(1u << 30) + 13);
  bool sparse = !sim::chance(1, 4);
  int  maxn = sim::chance(1, 5) ? 120 : (sim::chance(1, 2) ? 25 : 5);
  mm::Model m = mm::draw(sparse, CPLX, g, maxn);
  Signs sg;
  Full full = mm::expand(m, sg);
  int spellings = 1 + (int)sim::choose(3), reads = 0;
  for (int k = 0; k < spellings; ++k) {
    sim::Rng gs(sim::choose(1u << 30) + 5);
    mm::Rendered R = mm::render(m, gs, sim::chance(1, 6));
    disk::files["sim:/in.mm"] = R.s;
    int deliveries = 1 + (int)sim::choose(3);
    for (int d = 0; d < deliveries; ++d, ++reads) {
      disk::plan = disk::Plan();
      switch (sim::choose(4)) { case 0: disk::plan.chunk = 0; break; case 1: disk::plan.chunk = 1; break; case 2: disk::plan.chunk = 1 + sim::choose(16); break; case 3: disk::plan.chunk = 1 + sim::choose(2000); break; }
      disk::plan.chunk_seed = sim::choose(1u << 16);
      int api = (int)sim::choose(4);
      bool wide = sim::chance(1, 3);
      sim::set_context("%s %s, storage %d, spelling %d, delivery %d", sparse ? "sparse" : "vector", CPLX ? "complex" : "real", m.storage, k, d);
      if (sparse) { if (wide) sparse_read<long>(api, m, full, sg, (uint64_t)reads); else sparse_read<int>(api, m, full, sg, (uint64_t)reads); }
      else {
        hif::Array<T> v(api % 3 == 0 ? 0 : (size_t)api * 7);
        Call c = guarded([&] { if (api % 2) v.read_mm("sim:/in.mm"); else v = hif::Array<T>::from_mm("sim:/in.mm"); });
        if (!c.ok()) sim::violate("C13:rejected", "a well-formed vector file is rejected: %s %s", sname(c.status), c.what);
        if ((long)v.size() != m.rows) sim::violate("C13:shape", "vector of length %zu, the file denotes %ld", v.size(), m.rows);
        for (long i = 0; i < m.rows; ++i) if (!entry_ok(v[(size_t)i], m.e[(size_t)i].second, 0)) sim::violate("C13:value", "entry %ld does not have the value %s %s of the file", i, m.e[(size_t)i].second.r.c_str(), m.e[(size_t)i].second.i.c_str());
      }
      if (disk::open_files()) sim::violate("C13:handle-leak", "the file is still open");
      sim::event(full.size() * 31 + (uint64_t)api);
    }
  }
  if (!m.e.empty()) sim::nontrivial();
  sim::count("probe.reads", (uint64_t)reads);
  sim::sig((uint64_t)m.rows * 1000003 + (uint64_t)m.cols * 1009 + m.e.size() * 7 + (uint64_t)m.storage + (sparse ? 0 : 5));
  sim::describe("%s file %ld x %ld, %zu entries, storage %d, %d spellings, %d deliveries", sparse ? "coordinate" : "array", m.rows, m.cols, m.e.size(), m.storage, spellings, reads);
}
sim::Register reg("C13", run);
}  // namespace
