// C17: corrupted matrix arrays are rejected or handled, never followed out of bounds.
#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef C::Int I;
typedef C::Ptr P;
typedef gen::Real<T>::type R;

// exact-size user arrays, so that any access outside of them is seen
template <class Mat, class VV>
Call run_factorize(C::prec &M, size_t n, std::vector<P> &ptr, std::vector<I> &ind, VV &val, const hif::Params &p, size_t m0, bool raw) {
  typedef typename Mat::value_type V;
  if (raw) {
    Mat W(n, n, ptr.data(), ind.data(), val.data(), true);
    return guarded([&] { M.factorize(W, p, m0); });
  }
  Mat W;
  W.resize(n, n);
  W.ind_start() = typename Mat::iparray_type(ptr.size(), ptr.data(), true);
  W.inds() = typename Mat::iarray_type(ind.size(), ind.data(), true);
  W.vals() = hif::Array<V>(val.size(), val.data(), true);
  return guarded([&] { M.factorize(W, p, m0); });
}
template <class Mat>
void check_only(size_t n, std::vector<P> &ptr, std::vector<I> &ind, std::vector<T> &val) {
  Mat W;
  W.resize(n, n);
  W.ind_start() = typename Mat::iparray_type(ptr.size(), ptr.data(), true);
  W.inds() = typename Mat::iarray_type(ind.size(), ind.data(), true);
  W.vals() = hif::Array<T>(val.size(), val.data(), true);
  W.check_validity();
}
bool valid(size_t n, const std::vector<P> &ptr, const std::vector<I> &ind, size_t nval) {
  if (ptr.size() < n + 1) return false;
  long b = (long)ptr[0];
  if (b != 0 && b != 1) return false;
  for (size_t i = 0; i < n; ++i) if (ptr[i + 1] < ptr[i]) return false;
  if ((size_t)(ptr[n] - b) > ind.size() || (size_t)(ptr[n] - b) > nval) return false;
  for (size_t i = 0; i < n; ++i)
    for (long k = (long)ptr[i] - b; k < (long)ptr[i + 1] - b; ++k) {
      long j = (long)ind[k] - b;
      if (j < 0 || j >= (long)n) return false;
      if (k > (long)ptr[i] - b && ind[k] <= ind[k - 1]) return false;
    }
  return true;
}
template <class T2> void damage_values(std::vector<T2> &val, const std::vector<P> &ptr, const std::vector<I> &ind, int base, size_t n) {
  typedef typename gen::Real<T2>::type R2;
  int times = 1 + (int)sim::choose(3);
  size_t nz = val.size();
  if (!nz) return;
  for (int t = 0; t < times; ++t) {
    int what = (int)sim::choose(12);
    R2  inf = std::numeric_limits<R2>::infinity(), nan = std::numeric_limits<R2>::quiet_NaN(), mx = std::numeric_limits<R2>::max(), mn = std::numeric_limits<R2>::min(), dn = std::numeric_limits<R2>::denorm_min();
    size_t k = sim::choose((uint32_t)nz), row = sim::choose((uint32_t)n);
    sim::log("value damage %d at %zu / row %zu", what, k, row);
    sim::count("fault.damaged_value");
    auto range = [&](T2 v) { for (P q = ptr[row] - base; q < ptr[row + 1] - base; ++q) val[q] = v; };
    auto other = [&](T2 v) { for (size_t q = 0; q < nz; ++q) if ((size_t)(ind[q] - base) == row) val[q] = v; };
    switch (what) {
      case 0: val[k] = T2(nan); break;
      case 1: val[k] = T2(inf); break;
      case 2: val[k] = T2(-inf); break;
      case 3: val[k] = T2(mx); break;
      case 4: val[k] = T2(dn); break;
      case 5: val[k] = T2(0); break;
      case 6: range(T2(0)); break;
      case 7: other(T2(0)); break;
      case 8: std::fill(val.begin(), val.end(), sim::pick<T2>({T2(0), T2(nan), T2(1), T2(dn), T2(mx), T2(inf)})); break;
      case 9: for (size_t q = 0; q < nz; ++q) val[q] *= (q % 3 == 0) ? mx / R2(8) : (q % 3 == 1) ? mn * R2(8) : R2(1); break;
      case 10: range(T2(nan)); break;
      default: range(T2(dn)); other(T2(mx)); 
    }
  }
}
void use(C::prec &M, size_t n, C::store &An) {
  query<C>(M);
  int k = 1 + (int)sim::choose(4);
  for (int i = 0; i < k; ++i) {
    Op o = draw_op((int)n);
    auto r = apply<C>(M, An, o, n);
    sim::log("  %s -> %s %s", opname(o.kind), sname(r.call.status), r.call.what);
    if (r.call.status == OTHER) sim::violate("C17:error-type", "unknown exception type");
    sim::count("probe.apply_after_damage");
  }
}
void run() {
  int  maxn = sim::pick<int>({10, 30, 60});
  Fact f = draw_fact(maxn);
  if (sim::chance(1, 6)) f.par.is_symm = 1;  // also where it is not true
  int  mode = (int)sim::choose(3);  // 0 values, 1 structure, 2 both
  bool foreign = sim::chance(1, 5), raw = sim::chance(1, 3);
  log_fact("matrix", f);
  C::store A(gen::build<T>(f.spec), f.row, f.base);
  C::store An = A;
  if (f.base) An = C::store(gen::build<T>(f.spec), f.row, 0);
  std::vector<P> ptr = A.ptr;
  std::vector<I> ind = A.ind;
  std::vector<T> val = A.val;
  size_t n = A.n;
  if (mode != 1) damage_values(val, ptr, ind, f.base, n);
  if (mode != 0) {
    int times = 1 + (int)sim::choose(3);
    for (int t = 0; t < times; ++t) {
      int what = (int)sim::choose(16);
      size_t k = ind.empty() ? 0 : sim::choose((uint32_t)ind.size()), i = sim::choose((uint32_t)ptr.size());
      if (ptr.empty()) break;
      sim::log("structure damage %d at entry %zu / pointer %zu", what, k, i);
      sim::count("fault.damaged_structure");
      bool he = !ind.empty();
      switch (what) {
        case 0: if (he) ind[k] = (I)(f.base - 1 - (int)sim::choose(5)); break;
        case 1: if (he) ind[k] = (I)(n + f.base + sim::choose(4)); break;
        case 2: if (he) ind[k] = sim::pick<I>({(I)0x7fffffff, (I)(-2147483647 - 1), (I)1000000}); break;
        case 3: if (he && k + 1 < ind.size()) std::swap(ind[k], ind[k + 1]); break;
        case 4: if (he && k + 1 < ind.size()) ind[k + 1] = ind[k]; break;
        case 5: ptr[i] += (P)(1 + sim::choose(4)); break;
        case 6: ptr[i] -= (P)(1 + sim::choose(4)); break;
        case 7: ptr[i] = sim::pick<P>({(P)-1, (P)0x7ffffff0, (P)(-2147483647 - 1), (P)100000}); break;
        case 8: std::swap(ptr[i], ptr[(i * 7 + 3) % ptr.size()]); break;
        case 9: if (!raw) ptr.pop_back(); break;
        case 10: if (!raw && he) ind.resize(ind.size() - 1 - sim::choose((uint32_t)ind.size())); break;
        case 11: if (!raw && val.size()) val.resize(val.size() - 1 - sim::choose((uint32_t)val.size())); break;
        case 12: for (auto &x : ind) x = (I)(x + 1); break;
        case 13: for (auto &x : ptr) x = (P)(x + 1); break;
        case 14: if (!raw) { ind.push_back((I)(n + 77)); val.push_back(T(5)); ind.push_back(-5); } break;
        default: if (!raw) { val.resize(val.size() + 40, T(3)); }
      }
    }
  }
  // raw interface: the library learns the array length from the row pointers only
  if (raw && (ptr.size() < n + 1 || (size_t)(ptr[n] - ptr[0]) > std::min(ind.size(), val.size()) )) raw = false;
  ind.shrink_to_fit(); val.shrink_to_fit(); ptr.shrink_to_fit();
  size_t reported_nv = raw ? (size_t)(ptr[n] - ptr[0]) : val.size();
  std::vector<I> seen_ind = ind;
  if (raw) seen_ind.resize((size_t)(ptr[n] - ptr[0]));
  bool ok_struct = valid(n, ptr, seen_ind, reported_nv);
  f.par.check = 1;
  if (sim::chance(1, 4)) {  // the check by itself, on a matrix numbered from zero
    bool direct = ok_struct && ptr[0] == 0;
    Call c = guarded([&] {
      if (f.row) check_only<hif::CRS<T, I, P>>(n, ptr, ind, val);
      else check_only<hif::CCS<T, I, P>>(n, ptr, ind, val);
    });
    sim::count("probe.checks_alone");
    if (c.status != (direct ? OK : ERR)) sim::violate("C17:check", "check_validity: %s %s for a %s structure%s", sname(c.status), c.what, ok_struct ? "valid" : "damaged", ok_struct && !direct ? " numbered from one" : "");
  }
  auto M = make<C>();
  bool prior = sim::chance(1, 4);
  if (prior) factorize<C>(*M, An, f.par, f.m0);
  Call c;
  auto go = [&](auto &v) {
    typedef typename std::decay<decltype(v[0])>::type V;
    typedef hif::CRS<V, I, P> FC;
    if (f.row) return run_factorize<FC>(*M, n, ptr, ind, v, f.par, f.m0, raw);
    return run_factorize<typename FC::other_type>(*M, n, ptr, ind, v, f.par, f.m0, raw);
  };
  if (foreign) {
    typedef typename std::conditional<sizeof(R) == 8, float, double>::type R2;
    typedef typename std::conditional<gen::Real<T>::cplx, std::complex<R2>, R2>::type T2;
    std::vector<T2> v2(val.size());
    for (size_t k = 0; k < val.size(); ++k) v2[k] = (T2)val[k];
    v2.shrink_to_fit();
    c = go(v2);
  } else
    c = go(val);
  sim::log("structure %s, %s%s -> %s %s", ok_struct ? "valid" : "damaged", raw ? "raw pointers" : "sized arrays", foreign ? ", other precision" : "", sname(c.status), c.what);
  if (c.status == OTHER) sim::violate("C17:error-type", "unknown exception type");
  if (!ok_struct && c.ok()) sim::violate("C17:accepted", "a matrix with damaged structure was accepted");
  if (!ok_struct) sim::count("probe.rejected_structures");
  if (c.ok()) {
    use(*M, n, An);
    sim::count("probe.factorized_damaged_values");
  } else {
    Queries q = query<C>(*M);
    if (q.levels || q.nnz) sim::violate("C17:not-empty", "rejected, but the object reports {%s}", q.str().c_str());
    use(*M, n, An);
  }
  if (mode == 1 && ok_struct) sim::sig(1); else sim::nontrivial();
  sim::sig(f.spec.kind * 100 + mode * 10 + c.status); sim::sig(n * 3 + raw);
  { Queries q = query<C>(*M); sim::sig(q.nnz * 7 + q.levels); }
  sim::describe("%s n=%d, %s damage, structure %s: %s %.60s", gen::kind_name(f.spec.kind), f.spec.n, mode == 0 ? "value" : mode == 1 ? "structure" : "value and structure", ok_struct ? "valid" : "invalid", sname(c.status), c.what);
  drop<C>(M);
}
sim::Register reg("C17", run);
}  // namespace
