// C11: a MatrixMarket file reported as written is complete and faithful, whatever the disk does.
#include "world.hpp"
#include "disk.hpp"
#include "mm.hpp"
#include <locale>
using namespace world;
namespace {
#if CFG == 0
typedef double T;
#elif CFG == 1
typedef float T;
#elif CFG == 2
typedef std::complex<double> T;
#elif CFG == 3
typedef std::complex<float> T;
#elif CFG == 4
typedef long double T;
#else
typedef std::complex<long double> T;
#endif
typedef gen::Real<T>::type R;
const bool CPLX = gen::Real<T>::cplx;

inline void get(const T &v, R &a, R &b) { const R *p = (const R *)&v; a = p[0]; b = CPLX ? p[CPLX] : R(0); }
bool same(R a, R b) { return a == b ? std::signbit(a) == std::signbit(b) : (a != a && b != b); }
R number(sim::Rng &g) {
  typedef std::numeric_limits<R> L;
  R v = (R)g.sym() + (R)g.sym() * (R)1e-9 + (R)g.sym() * (R)1e-18;
  switch (g.below(14)) {
    case 0: return 0;
    case 1: return -R(0);
    case 2: return L::max() * (R)g.unit();
    case 3: return -L::max();
    case 4: return L::denorm_min() * (R)(1 + g.below(100));
    case 5: return L::min() * v;
    case 6: return g.below(3) ? v : (g.below(2) ? L::infinity() : -L::infinity());
    case 7: return g.below(3) ? v : L::quiet_NaN();
    case 8: return (R)(int)g.below(100);
    case 9: return R(1) + L::epsilon();
    case 10: return v * (R)1e20;
    default: return v;
  }
}
T value(sim::Rng &g) { T v; R *p = (R *)&v; p[0] = number(g); if (CPLX) p[CPLX] = number(g); return v; }

struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  char do_decimal_point() const override { return ','; }
};

void draw_faults() {
  using disk::plan;
  plan = disk::Plan();
  plan.chunk_seed = sim::choose(1u << 16);
  switch (sim::choose(9)) {
    case 0: break;
    case 1: plan.open_fail = true; break;
    case 2: plan.write_room = sim::chance(1, 2) ? sim::choose(200) : sim::choose(30000); break;
    case 3: plan.write_error_at = sim::chance(1, 2) ? sim::choose(200) : sim::choose(30000); break;
    case 4: plan.write_error_at = sim::choose(20000); plan.write_error_once = true; break;
    case 5: plan.close_fail = true; break;
    case 6: plan.short_writes = 1 + sim::choose(3000); break;
    case 7: plan.interrupt = 2 + sim::choose(3); plan.short_writes = 1 + sim::choose(3000); break;
    case 8: plan.write_room = 8191u * (1 + sim::choose(3)) - sim::choose(3); plan.short_writes = sim::chance(1, 2) ? 4000 : 0; break;
  }
}

template <class Obj>
void check_file(const Obj &, const std::string &name, bool sparse, long rows, long cols, const std::map<std::pair<long, long>, T> &want, const char *when) {
  mm::Model m;
  std::string why;
  if (!disk::files.count(name) || !mm::parse_written(disk::files[name], m, why)) sim::violate("C11:unreadable", "%s: the file reported as written is damaged: %.120s", when, why.c_str());
  if (m.sparse != sparse || m.complex != CPLX || m.rows != rows || m.cols != cols || m.e.size() != want.size())
    sim::violate("C11:shape", "%s: file has %ld x %ld with %zu entries, written was %ld x %ld with %zu", when, m.rows, m.cols, m.e.size(), rows, cols, want.size());
  std::map<std::pair<long, long>, int> seen;
  for (auto &e : m.e) {
    auto it = want.find(e.first);
    if (it == want.end() || seen[e.first]++) sim::violate("C11:position", "%s: file has an entry (%ld,%ld) which was not written", when, e.first.first, e.first.second);
    R a, b;
    get(it->second, a, b);
    if (!same(a, (R)strtold(e.second.r.c_str(), nullptr)) || (CPLX && !same(b, (R)strtold(e.second.i.c_str(), nullptr))))
      sim::violate("C11:value", "%s: entry (%ld,%ld) is %s %s in the file, written was %.20Lg %.20Lg", when, e.first.first, e.first.second, e.second.r.c_str(), e.second.i.c_str(), (long double)a, (long double)b);
  }
}
void no_leak(const char *when) { if (disk::open_files()) sim::violate("C11:handle-leak", "%s: the file is still open", when); }

template <class Write, class Check, class ReadBack>
void scenario(Write write, Check check, ReadBack readback) {
  static uint64_t serial;
  (void)serial;
  bool loc = sim::chance(1, 6), armed = sim::chance(1, 5);
  int attempts = 1 + (int)sim::choose(3);
  for (int k = 0; k < attempts; ++k) {
    draw_faults();
    bool last = k + 1 == attempts;
    if (last && sim::chance(1, 2)) disk::plan = disk::Plan();
    std::locale old;
    if (loc) { std::locale::global(std::locale(std::locale::classic(), new Punct)); sim::count("fault.locale"); }
    fault::reset_alloc_count();
    if (armed && !last) fault::arm_alloc(sim::choose(6), 1 + sim::choose(2));
    Call c = guarded(write);
    uint64_t af = armed && !last ? fault::alloc_faults_fired() : 0;
    fault::disarm_alloc();
    if (loc) std::locale::global(old);
    if (af) sim::count("fault.alloc_fail", af);
    sim::event(c.status); sim::sig(c.status); sim::sig(disk::lost());
    bool lost = disk::lost();
    no_leak("after writing");
    sim::log("write: %s %s, lost=%d, allocation failures %lu", sname(c.status), c.what, (int)lost, (unsigned long)af);
    if (c.ok() && lost) sim::violate("C11:silent-loss", "the write returned normally although the disk reported an error");
    if (!c.ok() && !lost && !af) sim::violate("C11:spurious", "the write failed without a fault: %s %s", sname(c.status), c.what);
    if (c.ok()) { check("after writing"); disk::plan = disk::Plan(); disk::plan.chunk = sim::chance(1, 2) ? 1 + sim::choose(700) : 0; readback(); no_leak("after reading back"); sim::nontrivial(); }
  }
}

template <class CS>
void matrix_run(bool row) {
  typedef typename CS::index_type I;
  sim::Rng g(sim::choose(1u << 30) + 77);
  long m = sim::chance(1, 8) ? 0 : 1 + (long)sim::choose(sim::chance(1, 4) ? 300 : 30), n = row ? (sim::chance(1, 2) ? m : 1 + (long)sim::choose(40)) : m;
  if (!row) m = sim::chance(1, 2) ? n : 1 + (long)sim::choose(40);
  long np = row ? m : n, ns = row ? n : m;
  std::map<std::pair<long, long>, T> want;
  uint32_t per = sim::choose(6);
  std::vector<std::ptrdiff_t> ptr(1, 0);
  std::vector<I> ind; std::vector<T> val;
  for (long i = 0; i < np; ++i) {
    std::map<long, T> ln;
    if (ns) for (uint32_t k = g.below(per + 1); k; --k) ln[(long)g.below((uint32_t)ns)] = value(g);
    for (auto &e : ln) { ind.push_back((I)e.first); val.push_back(e.second); want[row ? std::make_pair(i, e.first) : std::make_pair(e.first, i)] = e.second; }
    ptr.push_back((std::ptrdiff_t)ind.size());
  }
  size_t nz = ind.size();
  int spare = sim::chance(1, 6) ? 1 + (int)sim::choose(5) : 0;  // arrays longer than the entries they hold
  for (int k = 0; k < spare; ++k) { ind.push_back(0); val.push_back(T(7)); }
  CS A;
  if (spare || sim::chance(1, 3)) {
    A = CS(m, n, ptr.data(), ind.data(), val.data(), true);
    if (spare) { A.inds() = typename CS::iarray_type(ind.size(), ind.data(), true); A.vals() = typename CS::array_type(val.size(), val.data(), true); }
  } else A = CS(m, n, ptr.data(), ind.data(), val.data(), false);
  sim::describe("%s matrix %ld x %ld, %zu entries", row ? "row-major" : "column-major", m, n, nz);
  sim::sig((uint64_t)m * 1000003u + (uint64_t)n * 101 + nz);
  auto i0 = ind; auto v0 = val; auto p0 = ptr;
  scenario([&] { A.write_mm("sim:/a.mm"); },
           [&](const char *w) { check_file(A, "sim:/a.mm", true, m, n, want, w); },
           [&] {
             CS B;
             Call c = guarded([&] { B.read_mm("sim:/a.mm"); });
             if (!c.ok()) sim::violate("C11:read-back", "the written file cannot be read: %s %s", sname(c.status), c.what);
             bool ok = (long)B.nrows() == m && (long)B.ncols() == n && B.nnz() == nz;
             for (long i = 0; ok && i <= np; ++i) ok = B.ind_start()[i] == p0[i];
             for (size_t k = 0; ok && k < nz; ++k) { R a, b, c2, d; get(v0[k], a, b); get(B.vals()[k], c2, d); ok = B.inds()[k] == i0[k] && same(a, c2) && (!CPLX || same(b, d)); }
             if (!ok) sim::violate("C11:round-trip", "reading the written file back gives another matrix (%zu entries, %zu written)", (size_t)B.nnz(), nz);
           });
  if (memcmp(ind.data(), i0.data(), ind.size() * sizeof(I)) || memcmp((void *)val.data(), (void *)v0.data(), val.size() * sizeof(T)) || ptr != p0) sim::violate("C11:input", "writing changed the matrix");
}
void vector_run() {
  sim::Rng g(sim::choose(1u << 30) + 77);
  size_t n = sim::chance(1, 10) ? 0 : 1 + sim::choose(sim::chance(1, 4) ? 1500 : 60);
  hif::Array<T> v(n);
  std::map<std::pair<long, long>, T> want;
  for (size_t i = 0; i < n; ++i) want[{(long)i, 0}] = v[i] = value(g);
  sim::describe("vector of length %zu", n); sim::sig(n);
  scenario([&] { v.write_mm("sim:/v.mm"); },
           [&](const char *w) { check_file(v, "sim:/v.mm", false, (long)n, 1, want, w); },
           [&] {
             hif::Array<T> u;
             Call c = guarded([&] { u.read_mm("sim:/v.mm"); });
             if (!c.ok()) sim::violate("C11:read-back", "the written vector cannot be read: %s %s", sname(c.status), c.what);
             bool ok = u.size() == n;
             for (size_t k = 0; ok && k < n; ++k) { R a, b, c2, d; get(v[k], a, b); get(u[k], c2, d); ok = same(a, c2) && (!CPLX || same(b, d)); }
             if (!ok) sim::violate("C11:round-trip", "reading the written vector back gives another one");
           });
}
void run() {
  disk::reset();
  switch (sim::choose(5)) {
    case 0: vector_run(); break;
    case 1: matrix_run<hif::CRS<T, int>>(true); break;
    case 2: matrix_run<hif::CCS<T, int>>(false); break;
    case 3: matrix_run<hif::CRS<T, long>>(true); break;
    case 4: matrix_run<hif::CCS<T, long>>(false); break;
  }
  if (fault::live_blocks()) {}
}
sim::Register reg("C11", run);
}  // namespace
