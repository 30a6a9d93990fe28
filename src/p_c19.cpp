// C19: containers keep value and ownership semantics through any history.
// Real containers are driven together with a value model in which a buffer is an object with owners.
#include <cstdlib>
#include <memory>
#include <set>

#include "world.hpp"
using namespace world;
namespace {
typedef C0 C;
typedef C::T T;
typedef C::Int I;
typedef C::Ptr P;
typedef gen::Real<T>::type R;
typedef hif::CRS<T, I, P> Crs;
typedef hif::CCS<T, I, P> Ccs;
typedef std::complex<double> Z;
const bool CPLX = gen::Real<T>::cplx;
#define BAD(cls, ...) sim::violate("C19:" cls, __VA_ARGS__)

inline T conj_(T v) { return CPLX ? T(gen::Real<T>::make(std::real(Z(v)), -std::imag(Z(v)))) : v; }
template <class E> struct Draw { static E val(sim::Rng &r) { return (E)(r.below(9)); } };
template <> struct Draw<T> {
  static T val(sim::Rng &r) {
    double a = (double)(int)r.below(9) - 4, b = (double)(int)r.below(5) - 2;
    if (a == 0) a = 5;
    return gen::Real<T>::make(a, b);
  }
};
template <class E> struct Other { typedef double type; };
template <> struct Other<double> { typedef float type; };

// ------------------------------------------------------------------------------- ownership model
std::vector<std::pair<const void *, const char *>> g_gone;  // storage that has lost its last owner
template <class E>
struct Buf {
  std::vector<E>    v;
  std::vector<char> known;
  E                *ptr = nullptr;
  bool              own = true, stolen = false;
  std::unique_ptr<std::vector<E>> ext;  // the caller's memory of a wrapped buffer
  ~Buf() { if (own && !stolen && ptr) g_gone.push_back(std::make_pair((const void *)ptr, "")); }
};
template <class E>
struct MA {  // model of an array: view of a buffer
  std::shared_ptr<Buf<E>> b;
  size_t                  size = 0;
  bool own() const { return b && b->own; }
  bool sole() const { return !b || b.use_count() == 1; }
};
template <class E>
std::shared_ptr<Buf<E>> own_buf(hif::Array<E> &a) {
  auto b = std::make_shared<Buf<E>>();
  b->v.resize(a.capacity());
  b->known.assign(a.capacity(), 0);
  b->ptr = a.data();
  return b;
}
// the real array must now be a fresh owner; content is taken over after the caller compared it
template <class E>
MA<E> adopt(const char *what, hif::Array<E> &a, const std::vector<E> *want = nullptr) {
  MA<E> m;
  if (a.status() == hif::DATA_UNDEF && a.size() == 0 && (!want || want->empty())) return m;
  if (a.status() != hif::DATA_OWN) BAD("status", "%s: array has status %d, expected owned", what, (int)a.status());
  if (want && a.size() != want->size()) BAD("size", "%s: array has %zu entries, expected %zu", what, (size_t)a.size(), want->size());
  if (a.capacity() < a.size()) BAD("size", "%s: capacity %zu below size %zu", what, (size_t)a.capacity(), (size_t)a.size());
  m.b = own_buf(a);
  m.size = a.size();
  for (size_t i = 0; i < m.size; ++i)
    if (want) { m.b->v[i] = (*want)[i]; m.b->known[i] = 1; }
  return m;
}
template <class E> bool eq(const E &a, const E &b) { return a == b; }
template <class E>
void compare(const char *what, hif::Array<E> &a, const MA<E> &m) {
  if (a.size() != m.size) BAD("size", "%s: array has %zu entries, expected %zu", what, (size_t)a.size(), m.size);
  if (!m.b) {
    if (a.status() != hif::DATA_UNDEF) BAD("status", "%s: array has status %d, expected none", what, (int)a.status());
    return;
  }
  int st = m.b->own ? hif::DATA_OWN : hif::DATA_WRAP;
  if (a.status() != st) BAD("status", "%s: array has status %d, expected %d", what, (int)a.status(), st);
  if (a.data() != m.b->ptr) BAD("sharing", "%s: array does not use the storage it shares", what);
  if (m.b->own && a.capacity() < a.size()) BAD("size", "%s: capacity %zu below size %zu", what, (size_t)a.capacity(), (size_t)a.size());
  if (m.b->own && !fault::owns(m.b->ptr)) BAD("ownership", "%s: storage in use has been freed", what);
  for (size_t i = 0; i < m.size; ++i)
    if (m.b->known[i] && !eq(a[i], m.b->v[i])) BAD("value", "%s: entry %zu of %zu differs from the value model", what, i, m.size);
}
void check_gone(const char *op) {
  for (auto &g : g_gone)
    if (fault::owns(g.first)) BAD("ownership", "%s: storage is still allocated after its last owner disappeared", op);
  g_gone.clear();
}
// a fault may be armed for one operation
bool g_armed = false;
bool arm() {
  if (!sim::chance(1, 5)) return false;
  g_armed = true;
  fault::reset_alloc_count();
  fault::arm_alloc(sim::choose(7), 1 + sim::choose(2));
  return true;
}
bool failed(const Call &c, const char *op) {
  sim::log("  %s: %s", op, c.ok() ? "ok" : sname(c.status));
  bool fired = g_armed && fault::alloc_faults_fired() > 0;
  g_armed = false;
  fault::disarm_alloc();
  if (!c.ok() && !fired) BAD("refused", "%s fails without a fault: %s %s", op, sname(c.status), c.what);
  if (c.ok() && fired) BAD("silent", "%s reports success although an allocation failed", op);
  if (fired) sim::count("fault.alloc");
  sim::sig((unsigned char)op[0] * 3 + fired);
  return fired;
}
template <class A> struct Slot { std::unique_ptr<A> a; };
template <class F> Call lib(F f) { return guarded(f); }

// ------------------------------------------------------------------------------------- arrays
template <class E>
struct Arrays {
  typedef hif::Array<E> Arr;
  struct Ent { std::unique_ptr<Arr> a; MA<E> m; };
  struct Loot { E *p; std::shared_ptr<Buf<E>> b; };
  std::vector<Ent>  pool;
  std::vector<Loot> loot;
  static const size_t MAX = 7;
  ~Arrays() {}
  size_t any() { return sim::choose((uint32_t)pool.size()); }
  void put(std::unique_ptr<Arr> a, MA<E> m) {
    if (pool.size() >= MAX) { size_t k = any(); drop(k); }
    pool.push_back(Ent{std::move(a), std::move(m)});
  }
  void drop(size_t k) {
    { Lib l; pool[k].a.reset(); }
    pool.erase(pool.begin() + k);
  }
  void grow_model(const char *op, Ent &e, size_t n, size_t oldcap) {  // after resize/reserve to n
    Arr &a = *e.a;
    if (n > oldcap || !e.m.b) {
      if (n <= oldcap) return;
      auto b = own_buf(a);
      if (a.status() != hif::DATA_OWN) BAD("status", "%s: grown array has status %d", op, (int)a.status());
      if (a.capacity() < n) BAD("size", "%s: capacity %zu after growing to %zu", op, (size_t)a.capacity(), n);
      if (e.m.b && a.data() == e.m.b->ptr) BAD("sharing", "%s: growth did not move to new storage", op);
      if (e.m.b) for (size_t i = 0; i < e.m.size && i < b->v.size(); ++i) { b->v[i] = e.m.b->v[i]; b->known[i] = e.m.b->known[i]; }
      e.m.b = b;
    }
  }
  void step() {
    sim::Rng r(sim::choose(1u << 20));
    int op = pool.empty() ? (int)sim::choose(5) : (int)sim::choose(22);
    size_t n = sim::choose(2) ? sim::choose(9) : sim::choose(40);
    std::unique_ptr<Arr> na;
    switch (op) {
      case 0: {
        arm();
        Call c = lib([&] { na.reset(new Arr()); });
        if (!failed(c, "default construction")) put(std::move(na), MA<E>());
        break; }
      case 1: case 2: {
        E v = Draw<E>::val(r);
        arm();
        Call c = lib([&] { na.reset(op == 1 ? new Arr(n) : new Arr(n, v)); });
        if (failed(c, "construction")) break;
        std::vector<E> w(n, v);
        auto m = adopt("construction", *na, op == 2 ? &w : nullptr);
        if (na->size() != n) BAD("size", "constructed with %zu entries, has %zu", n, (size_t)na->size());
        put(std::move(na), m);
        break; }
      case 3: {
        std::vector<E> w(n);
        for (auto &x : w) x = Draw<E>::val(r);
        arm();
        Call c = lib([&] { na.reset(new Arr(n, w.data())); });
        if (failed(c, "copying construction")) break;
        { auto am = adopt("copying construction", *na, &w); put(std::move(na), am); }
        break; }
      case 4: {
        std::unique_ptr<std::vector<E>> w(new std::vector<E>(n + 1));
        for (auto &x : *w) x = Draw<E>::val(r);
        arm();
        bool cst = sim::chance(1, 2);
        Call c = lib([&] { na.reset(cst ? new Arr(hif::wrap_const_array(n, (const E *)w->data())) : new Arr(n, w->data(), true)); });
        if (failed(c, "wrapping")) break;
        MA<E> m;
        m.b = std::make_shared<Buf<E>>();
        m.b->own = false;
        m.b->v = *w;
        m.b->known.assign(n + 1, 1);
        m.b->ptr = w->data();
        m.b->ext = std::move(w);
        m.size = n;
        put(std::move(na), m);
        break; }
      case 5: {  // from another value type
        Ent &e = pool[any()];
        typedef typename Other<E>::type O;
        if (CPLX && std::is_same<E, T>::value) break;
        std::vector<O> w(n);
        std::vector<E> we(n);
        for (size_t i = 0; i < n; ++i) { w[i] = (O)r.below(7); we[i] = (E)(double)w[i]; }
        hif::Array<O> o(n, w.data(), true);
        arm();
        Call c = convert_from(na, o);
        if (failed(c, "type conversion")) break;
        (void)e;
        { auto am = adopt("type conversion", *na, &we); put(std::move(na), am); }
        break; }
      case 6: {
        size_t k = any();
        Call c = lib([&] { na.reset(new Arr(*pool[k].a)); });
        failed(c, "shallow copy");
        put(std::move(na), MA<E>(pool[k].m));
        break; }
      case 7: {
        size_t k = any();
        arm();
        Call c = lib([&] { na.reset(new Arr(*pool[k].a, true)); });
        if (failed(c, "clone")) break;
        MA<E> m;
        auto &src = pool[k].m;
        if (na->size() != src.size) BAD("size", "clone has %zu entries, the original %zu", (size_t)na->size(), src.size);
        if (na->size()) {
          m = adopt("clone", *na);
          for (size_t i = 0; i < m.size; ++i) { m.b->v[i] = src.b->v[i]; m.b->known[i] = src.b->known[i]; }
        } else if (na->status() != hif::DATA_UNDEF) m = adopt("clone", *na);
        put(std::move(na), m);
        break; }
      case 8: {
        size_t k = any();
        Call c = lib([&] { na.reset(new Arr(std::move(*pool[k].a))); });
        failed(c, "move construction");
        MA<E> m = pool[k].m;
        pool[k].m = MA<E>();
        put(std::move(na), m);
        break; }
      case 9: {
        size_t k = any(), j = any();
        Arr &src = *pool[j].a;
        Call c = lib([&] { *pool[k].a = src; });
        failed(c, "assignment");
        MA<E> m = pool[j].m;
        pool[k].m = m;
        break; }
      case 10: {
        size_t k = any(), j = any();
        if (k == j) break;  // a moved-from object may be empty or unchanged
        Call c = lib([&] { *pool[k].a = std::move(*pool[j].a); });
        failed(c, "move assignment");
        pool[k].m = pool[j].m;
        pool[j].m = MA<E>();
        break; }
      case 11: {
        size_t k = any(), j = any();
        Call c = lib([&] { pool[k].a->swap(*pool[j].a); });
        failed(c, "swap");
        std::swap(pool[k].m, pool[j].m);
        break; }
      case 12: case 13: {
        Ent &e = pool[any()];
        size_t cap = e.a->capacity();
        if (e.m.b && !e.m.b->own && n > cap) n = cap;  // documented: not for external data
        bool presv = !sim::chance(1, 4);
        arm();
        Call c = lib([&] { if (op == 12) { if (presv) e.a->resize(n); else e.a->resize(n, false); } else e.a->reserve(n); });
        if (failed(c, "resize or reserve")) break;
        grow_model(op == 12 ? "resize" : "reserve", e, n, cap);
        if (op == 12) {
          if (n > cap && !presv && e.m.b) std::fill(e.m.b->known.begin(), e.m.b->known.end(), 0);
          e.m.size = n;
        }
        break; }
      case 14: case 15: {
        Ent &e = pool[any()];
        size_t cap = e.a->capacity(), cnt = op == 14 ? 1 : sim::choose(6);
        if (e.m.b && !e.m.b->own && e.m.size + cnt > cap) break;
        std::vector<E> w(cnt);
        for (auto &x : w) x = Draw<E>::val(r);
        int how = (int)sim::choose(2);
        arm();
        Call c = lib([&] {
          if (op == 14) e.a->push_back(w[0]);
          else if (how) e.a->push_back(w.cbegin(), w.cend());
          else e.a->push_back_n(w.cbegin(), cnt);
        });
        if (failed(c, "append")) break;
        grow_model("append", e, e.m.size + cnt, cap);
        if (cnt && !e.m.b) BAD("size", "append to an array without storage");
        for (size_t i = 0; i < cnt; ++i) { e.m.b->v[e.m.size + i] = w[i]; e.m.b->known[e.m.size + i] = 1; }
        e.m.size += cnt;
        break; }
      case 16: case 17: {
        Ent &e = pool[any()];
        if (!e.m.size) break;
        size_t i = sim::choose((uint32_t)e.m.size);
        E v = Draw<E>::val(r);
        int how = (int)sim::choose(4);
        if (how == 0) (*e.a)[i] = v; else if (how == 1) e.a->at(i) = v; else if (how == 2) *(e.a->begin() + i) = v; else { i = e.m.size - 1; e.a->back() = v; }
        e.m.b->v[i] = v;
        e.m.b->known[i] = 1;
        break; }
      case 18: {
        Ent &e = pool[any()];
        size_t i = e.m.size + sim::choose(3);
        Call c = lib([&] { volatile auto *p = &e.a->at(i); (void)p; });
        if (c.status != ERR) BAD("bounds", "at(%zu) of %zu entries: %s", i, e.m.size, sname(c.status));
        break; }
      case 19: drop(any()); break;
      case 20: {
        Ent &e = pool[any()];
        if (e.m.b && e.m.b->stolen) break;  // the thief already has it
        E *p = nullptr;
        typename Arr::size_type sz = 77, cap = 77;
        size_t rc = e.a->capacity();
        Call c = lib([&] { hif::steal_array_ownership(*e.a, p, sz, cap); });
        failed(c, "steal");
        if (!e.m.b || !e.m.b->own) {
          if (p || sz || cap) BAD("steal", "stole %zu entries from an array that owns nothing", (size_t)sz);
          break;
        }
        if (p != e.m.b->ptr || sz != e.m.size || cap != rc) BAD("steal", "stole another pointer or size");
        e.m.b->stolen = true;
        loot.push_back(Loot{p, e.m.b});
        e.m = MA<E>();
        sim::count("probe.steal");
        break; }
      default: {  // the thief frees what nobody else looks at any more
        for (size_t k = 0; k < loot.size(); ++k)
          if (loot[k].b.use_count() == 1) {
            { Lib l; delete[] loot[k].p; }
            loot.erase(loot.begin() + k);
            break;
          }
      }
    }
    check();
  }
  template <class O>
  Call convert_from(std::unique_ptr<Arr> &na, const hif::Array<O> &o) { return conv(na, o, std::integral_constant<bool, gen::Real<E>::cplx>()); }
  template <class O> Call conv(std::unique_ptr<Arr> &na, const hif::Array<O> &o, std::false_type) { return lib([&] { na.reset(new Arr(o)); }); }
  template <class O> Call conv(std::unique_ptr<Arr> &, const hif::Array<O> &, std::true_type) { return Call(); }
  void check() {
    for (auto &e : pool) compare("array history", *e.a, e.m);
    for (auto &l : loot) {
      if (!fault::owns(l.p)) BAD("ownership", "stolen storage was freed by somebody else");
      for (size_t i = 0; i < l.b->v.size(); ++i)
        if (l.b->known[i] && !eq(l.p[i], l.b->v[i])) BAD("value", "stolen storage changed");
    }
    check_gone("array history");
    for (auto &e : pool)
      if (e.m.b && e.m.b->ext)
        for (size_t i = 0; i < e.m.b->v.size(); ++i)
          if (!eq((*e.m.b->ext)[i], e.m.b->v[i])) BAD("value", "wrapped memory of the caller differs at %zu", i);
  }
  void finish() {
    while (!pool.empty()) { drop(any()); check(); }
    for (auto &l : loot) { Lib x; delete[] l.p; }
    loot.clear();
    g_gone.clear();
  }
};

// ----------------------------------------------------------------------------------- matrices
typedef std::vector<std::vector<T>> Dense;  // by row, 0 where nothing is stored; stored entries are never 0 unless scaled
struct Pat { std::vector<std::vector<char>> s; };
struct MM {
  MA<P> st; MA<I> id; MA<T> va;
  size_t nr = 0, nc = 0;
  bool row = true, junk = false, wrapped = false;
  size_t ps() const { return row ? nr : nc; }
  size_t os() const { return row ? nc : nr; }
};
struct View { size_t nr = 0, nc = 0; Dense v; std::vector<std::vector<char>> s; };
View blank(size_t nr, size_t nc) {
  View w;
  w.nr = nr; w.nc = nc;
  w.v.assign(nr, std::vector<T>(nc, T(0)));
  w.s.assign(nr, std::vector<char>(nc, 0));
  return w;
}
View view(const MM &m) {
  View w = blank(m.nr, m.nc);
  if (!m.st.size) return w;
  for (size_t i = 0; i < m.ps(); ++i)
    for (P k = m.st.b->v[i]; k < m.st.b->v[i + 1]; ++k) {
      size_t j = (size_t)m.id.b->v[k], rr = m.row ? i : j, cc = m.row ? j : i;
      w.v[rr][cc] = m.va.b->v[k];
      w.s[rr][cc] = 1;
    }
  return w;
}
struct Comp { std::vector<P> st; std::vector<I> id; std::vector<T> va; };
Comp compress(const View &w, bool row) {
  Comp c;
  size_t ps = row ? w.nr : w.nc, os = row ? w.nc : w.nr;
  c.st.push_back(0);
  for (size_t i = 0; i < ps; ++i) {
    for (size_t j = 0; j < os; ++j) {
      size_t rr = row ? i : j, cc = row ? j : i;
      if (w.s[rr][cc]) { c.id.push_back((I)j); c.va.push_back(w.v[rr][cc]); }
    }
    c.st.push_back((P)c.id.size());
  }
  return c;
}
struct AnyMat {
  std::unique_ptr<Crs> r;
  std::unique_ptr<Ccs> c;
  MM m;
};
template <class F> auto on(AnyMat &x, F f) -> void { if (x.r) f(*x.r); else f(*x.c); }

template <class M>
void same_matrix(const char *what, const M &A, const View &w, bool structonly = false) {
  const size_t ps = M::ROW_MAJOR ? w.nr : w.nc;
  if (A.nrows() != w.nr || A.ncols() != w.nc) BAD("shape", "%s: result is %zux%zu, expected %zux%zu", what, (size_t)A.nrows(), (size_t)A.ncols(), w.nr, w.nc);
  Comp c = compress(w, M::ROW_MAJOR);
  if (A.ind_start().size() == 0 && c.id.empty()) return;  // without storage: no entries
  if (A.ind_start().size() != ps + 1) BAD("shape", "%s: result has %zu start positions for %zu", what, (size_t)A.ind_start().size(), ps);
  for (size_t i = 0; i <= ps; ++i)
    if (A.ind_start()[i] != c.st[i]) BAD("structure", "%s: start position %zu is %ld, expected %ld", what, i, (long)A.ind_start()[i], (long)c.st[i]);
  if (A.inds().size() != c.id.size() || (!structonly && A.vals().size() != c.id.size())) BAD("structure", "%s: result holds %zu indices and %zu values, expected %zu", what, (size_t)A.inds().size(), (size_t)A.vals().size(), c.id.size());
  if (A.nnz() != c.id.size()) BAD("structure", "%s: result reports %zu entries, expected %zu", what, (size_t)A.nnz(), c.id.size());
  for (size_t k = 0; k < c.id.size(); ++k) {
    if (A.inds()[k] != c.id[k]) BAD("structure", "%s: index %zu is %ld, expected %ld", what, k, (long)A.inds()[k], (long)c.id[k]);
    if (!structonly && !eq(A.vals()[k], c.va[k])) BAD("value", "%s: value of entry %zu differs", what, k);
  }
}
bool close_to(Z a, Z b, double scale, double eps) { return std::abs(a - b) <= eps * (scale + 1e-300); }
const double EPS = 64.0 * std::numeric_limits<R>::epsilon();

struct Mats {
  std::vector<AnyMat> pool;
  struct Kept { std::unique_ptr<hif::Array<T>> a; MA<T> m; };
  std::vector<Kept> kept;  // value arrays of matrices that the user holds on to
  size_t n0 = 8;
  size_t any() { return sim::choose((uint32_t)pool.size()); }
  void drop(size_t k) {
    { Lib l; pool[k].r.reset(); pool[k].c.reset(); }
    pool.erase(pool.begin() + k);
  }
  AnyMat &put(AnyMat &&x) {
    if (pool.size() >= 6) drop(any());
    pool.push_back(std::move(x));
    return pool.back();
  }
  template <class M> MM adopt_m(const char *what, M &A, const View &w) {
    same_matrix(what, A, w);
    Comp c = compress(w, M::ROW_MAJOR);
    MM m;
    m.row = M::ROW_MAJOR;
    m.nr = w.nr; m.nc = w.nc;
    if (!A.ind_start().size()) c.st.clear();
    m.st = adopt(what, A.ind_start(), &c.st);
    m.id = adopt(what, A.inds(), &c.id);
    m.va = adopt(what, A.vals(), &c.va);
    return m;
  }
  // replace the model arrays of an object that was restructured in place
  template <class M> void readopt(const char *what, M &A, MM &m, const View &w) {
    same_matrix(what, A, w);
    Comp c = compress(w, M::ROW_MAJOR);
    m.nr = w.nr; m.nc = w.nc;
    re1(what, A.ind_start(), m.st, c.st);
    re1(what, A.inds(), m.id, c.id);
    re1(what, A.vals(), m.va, c.va);
  }
  template <class E> void re1(const char *what, hif::Array<E> &a, MA<E> &m, const std::vector<E> &want) {
    if (m.b && m.b->ptr == a.data()) {
      for (size_t i = 0; i < want.size(); ++i) { m.b->v[i] = want[i]; m.b->known[i] = 1; }
      m.size = want.size();
    } else m = adopt(what, a, &want);
  }
  // a change in place failed: which of its own arrays have moved is not specified
  void forget(MM &m) {
    m.junk = true;
    if (m.st.b) m.st.b->ptr = nullptr;
    if (m.id.b) m.id.b->ptr = nullptr;
    if (m.va.b) m.va.b->ptr = nullptr;
  }
  bool sole(const MM &m) { return m.st.sole() && m.id.sole() && m.va.sole() && !m.wrapped && m.st.size; }
  View random(size_t nr, size_t nc, sim::Rng &r, int tri) {
    View w = blank(nr, nc);
    uint32_t den = 1 + r.below(6);
    for (size_t i = 0; i < nr; ++i)
      for (size_t j = 0; j < nc; ++j) {
        if ((tri < 0 && i <= j) || (tri > 0 && i >= j)) continue;
        if (r.below(den) == 0 || (tri && r.below(3) == 0)) { w.s[i][j] = 1; w.v[i][j] = Draw<T>::val(r) * T(tri ? 0.125 : 1.0); }
      }
    if (r.below(9) == 0) for (auto &x : w.s) std::fill(x.begin(), x.end(), 0);
    for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) if (!w.s[i][j]) w.v[i][j] = T(0);
    return w;
  }
  template <class M> static std::unique_ptr<M> &slot(AnyMat &x);
  template <class M> void create(const View &w, int how, sim::Rng &r) {
    const bool row = M::ROW_MAJOR;
    Comp c = compress(w, row);
    AnyMat x;
    std::unique_ptr<M> A;
    size_t ps = row ? w.nr : w.nc, os = row ? w.nc : w.nr;
    if (how == 0) {  // wrap the caller's arrays
      auto S = std::make_shared<Buf<P>>(); auto D = std::make_shared<Buf<I>>(); auto V = std::make_shared<Buf<T>>();
      wrapbuf(*S, c.st); wrapbuf(*D, c.id); wrapbuf(*V, c.va);
      arm();
      Call cl = lib([&] { A.reset(new M(w.nr, w.nc, S->ptr, D->ptr, V->ptr, true)); });
      if (failed(cl, "wrapping a matrix")) return;
      x.m.row = row; x.m.nr = w.nr; x.m.nc = w.nc; x.m.wrapped = true;
      x.m.st.b = S; x.m.st.size = c.st.size();
      x.m.id.b = D; x.m.id.size = c.id.size();
      x.m.va.b = V; x.m.va.size = c.va.size();
    } else if (how == 1) {
      c.id.reserve(1); c.va.reserve(1);
      arm();
      Call cl = lib([&] { A.reset(new M(w.nr, w.nc, c.st.data(), c.id.data(), c.va.data())); });
      if (failed(cl, "copying a matrix")) return;
      x.m = adopt_m("copying a matrix", *A, w);
    } else if (how == 2) {
      arm();
      Call cl = lib([&] { A.reset(new M(w.nr, w.nc, c.id.size(), false)); });
      if (failed(cl, "sized construction")) return;
      for (size_t i = 0; i <= ps; ++i) if (A->ind_start()[i] != 0) BAD("value", "sized construction: start positions are not zero");
      for (size_t i = 0; i <= ps; ++i) A->ind_start()[i] = c.st[i];
      for (size_t k = 0; k < c.id.size(); ++k) { A->inds()[k] = c.id[k]; A->vals()[k] = c.va[k]; }
      x.m = adopt_m("sized construction", *A, w);
    } else {
      bool res = sim::chance(1, 2);
      arm();
      Call cl = lib([&] { A.reset(res ? new M(w.nr, w.nc, c.id.size()) : new M(w.nr, w.nc)); });
      if (failed(cl, "construction for assembly")) return;
      cl = assemble(*A, w, r);
      if (failed(cl, "assembly")) { Lib l; A->nnz(); A.reset(); return; }
      x.m = adopt_m("assembly", *A, w);
    }
    (void)os;
    slot<M>(x) = std::move(A);
    put(std::move(x));
  }
  template <class E> static void wrapbuf(Buf<E> &b, const std::vector<E> &v) {
    b.own = false;
    b.v = v;
    b.known.assign(v.size(), 1);
    b.ext.reset(new std::vector<E>(v));
    b.ext->reserve(1);
    b.ptr = b.ext->data();
  }
  Call assemble(Crs &A, const View &w, sim::Rng &r) { return asm_([&] { A.begin_assemble_rows(); }, [&](size_t i) { A.push_back_empty_row(i); }, [&](size_t i, std::vector<I> &k, std::vector<T> &v) { A.push_back_row(i, k.begin(), k.end(), v); }, [&](size_t i, std::vector<I> &k, std::vector<I> &k2, std::vector<T> &v) { A.push_back_row(i, k.begin(), k.end(), v, k2.begin(), k2.end(), v); }, [&] { A.end_assemble_rows(); }, w, true, r); }
  Call assemble(Ccs &A, const View &w, sim::Rng &r) { return asm_([&] { A.begin_assemble_cols(); }, [&](size_t i) { A.push_back_empty_col(i); }, [&](size_t i, std::vector<I> &k, std::vector<T> &v) { A.push_back_col(i, k.begin(), k.end(), v); }, [&](size_t i, std::vector<I> &k, std::vector<I> &k2, std::vector<T> &v) { A.push_back_col(i, k.begin(), k.end(), v, k2.begin(), k2.end(), v); }, [&] { A.end_assemble_cols(); }, w, false, r); }
  template <class B, class Em, class P1, class P2, class En>
  Call asm_(B begin, Em empty, P1 p1, P2 p2, En end, const View &w, bool row, sim::Rng &r) {
    Comp c = compress(w, row);
    size_t ps = row ? w.nr : w.nc, os = row ? w.nc : w.nr;
    std::vector<T> dv(os + 1);
    std::vector<I> k1, k2;
    arm();
    Call cl = lib(begin);
    for (size_t i = 0; i < ps && cl.ok(); ++i) {
      std::vector<I> ks(c.id.begin() + c.st[i], c.id.begin() + c.st[i + 1]);
      for (size_t j = 0; j < dv.size(); ++j) dv[j] = T(77);
      for (size_t k = 0; k < ks.size(); ++k) dv[ks[k]] = c.va[c.st[i] + k];
      int how = (int)r.below(3);
      if (ks.empty() && how) cl = lib([&] { empty(i); });
      else if (how < 2) cl = lib([&] { p1(i, ks, dv); });
      else {
        size_t cut = r.below((uint32_t)ks.size() + 1);
        k1.assign(ks.begin(), ks.begin() + cut); k2.assign(ks.begin() + cut, ks.end());
        cl = lib([&] { p2(i, k1, k2, dv); });
      }
    }
    if (cl.ok()) cl = lib(end);
    return cl;
  }
  // ---- operations that give a new object from a (row) object: fn must return a matrix by value
  template <class Res, class F> void derive(const char *name, const View &w, F fn, bool keep = true) {
    std::unique_ptr<Res> B;
    arm();
    Call c = lib([&] { B.reset(new Res(fn())); });
    if (failed(c, name)) { Lib l; B.reset(); return; }
    AnyMat x;
    x.m = adopt_m(name, *B, w);
    if (keep) { slot<Res>(x) = std::move(B); put(std::move(x)); }
    else { Lib l; B.reset(); }
    sim::count("probe.derive");
  }
  View cut(const View &w, bool row, size_t m, bool second) {
    View o = row ? blank(w.nr, second ? w.nc - m : m) : blank(second ? w.nr - m : m, w.nc);
    for (size_t i = 0; i < o.nr; ++i)
      for (size_t j = 0; j < o.nc; ++j) {
        size_t ii = i + (!row && second ? m : 0), jj = j + (row && second ? m : 0);
        o.s[i][j] = w.s[ii][jj]; o.v[i][j] = w.v[ii][jj];
      }
    return o;
  }
  void split_ops(Crs &A, const View &w, size_t m, const hif::Array<P> *start, int how) {
    typedef std::pair<Crs, Crs> PR;
    if (how == 0) derive<Crs>("split<false>", cut(w, true, m, false), [&] { return start ? A.template split<false>(m, *start) : A.template split<false>(m); });
    else if (how == 1) derive<Crs>("split<true>", cut(w, true, m, true), [&] { return start ? A.template split<true>(m, *start) : A.template split<true>(m); });
    else if (how == 2) derive<Ccs>("split_ccs<false>", cut(w, true, m, false), [&] { return start ? A.template split_ccs<false>(m, *start) : A.template split_ccs<false>(m); });
    else if (how == 3) derive<Ccs>("split_ccs<true>", cut(w, true, m, true), [&] { return start ? A.template split_ccs<true>(m, *start) : A.template split_ccs<true>(m); });
    else if (how == 4) {
      derive<Crs>("split first", cut(w, true, m, false), [&] { PR p(start ? A.split(m, *start) : A.split(m)); return Crs(std::move(p.first)); }, false);
    } else derive<Crs>("split second", cut(w, true, m, true), [&] { PR p(start ? A.split(m, *start) : A.split(m)); return Crs(p.second); }, false);
  }
  void split_ops(Ccs &A, const View &w, size_t m, const hif::Array<P> *start, int how) {
    typedef std::pair<Ccs, Ccs> PR;
    if (how == 0) derive<Ccs>("split<false>", cut(w, false, m, false), [&] { return start ? A.template split<false>(m, *start) : A.template split<false>(m); });
    else if (how == 1) derive<Ccs>("split<true>", cut(w, false, m, true), [&] { return start ? A.template split<true>(m, *start) : A.template split<true>(m); });
    else if (how == 2) derive<Crs>("split_crs<false>", cut(w, false, m, false), [&] { return start ? A.template split_crs<false>(m, *start) : A.template split_crs<false>(m); });
    else if (how == 3) derive<Crs>("split_crs<true>", cut(w, false, m, true), [&] { return start ? A.template split_crs<true>(m, *start) : A.template split_crs<true>(m); });
    else if (how == 4) {
      derive<Ccs>("split first", cut(w, false, m, false), [&] { PR p(start ? A.split(m, *start) : A.split(m)); return Ccs(std::move(p.first)); }, false);
    } else derive<Ccs>("split second", cut(w, false, m, true), [&] { PR p(start ? A.split(m, *start) : A.split(m)); return Ccs(p.second); }, false);
  }
  template <class M> void permute(M &A, const View &w, sim::Rng &r) {
    std::vector<size_t> pr(w.nr), pc(w.nc);
    for (size_t i = 0; i < w.nr; ++i) { pr[i] = i; std::swap(pr[i], pr[r.below(i + 1)]); }
    for (size_t i = 0; i < w.nc; ++i) { pc[i] = i; std::swap(pc[i], pc[r.below(i + 1)]); }
    size_t lead = sim::choose((uint32_t)std::min(w.nr, w.nc) + 1);
    bool so = sim::chance(1, 4), all = lead == 0 || (lead == w.nr && lead == w.nc);
    View o = all ? blank(w.nr, w.nc) : blank(lead, lead);
    for (size_t i = 0; i < o.nr; ++i) for (size_t j = 0; j < o.nc; ++j) { o.s[i][j] = w.s[pr[i]][pc[j]]; o.v[i][j] = w.v[pr[i]][pc[j]]; }
    const bool row = M::ROW_MAJOR;
    // primary: from permuted to original; secondary: from original to permuted
    hif::Array<I> prim(row ? w.nr : w.nc), inv(row ? w.nc : w.nr);
    for (size_t i = 0; i < prim.size(); ++i) prim[i] = (I)(row ? pr[i] : pc[i]);
    for (size_t j = 0; j < inv.size(); ++j) inv[row ? pc[j] : pr[j]] = (I)j;
    if (so) {
      std::unique_ptr<M> B;
      arm();
      Call c = lib([&] { B.reset(row ? new M(A.compute_perm(prim, inv, lead, true)) : new M(A.compute_perm(inv, prim, lead, true))); });
      if (!failed(c, "compute_perm (structure)")) same_matrix("compute_perm (structure)", *B, o, true);
      Lib l;
      B.reset();
    } else derive<M>("compute_perm", o, [&] { return row ? A.compute_perm(prim, inv, lead) : A.compute_perm(inv, prim, lead); });
  }
  template <class M> void prune(AnyMat &x, M &A, View w) {
    double eps = sim::pick<double>({0, 0.25, 0.5, 1, 2, -1});
    bool shrink = sim::chance(1, 2);
    std::vector<double> rm(w.nr, 0), cm(w.nc, 0);
    for (size_t i = 0; i < w.nr; ++i) for (size_t j = 0; j < w.nc; ++j) if (w.s[i][j]) { rm[i] = std::max(rm[i], (double)std::abs(w.v[i][j])); cm[j] = std::max(cm[j], (double)std::abs(w.v[i][j])); }
    size_t cnt = 0;
    double e = eps < 0 ? 0 : eps;
    for (size_t i = 0; i < w.nr; ++i) for (size_t j = 0; j < w.nc; ++j)
      if (w.s[i][j] && (double)std::abs(w.v[i][j]) <= e * std::min(rm[i], cm[j])) { w.s[i][j] = 0; w.v[i][j] = T(0); ++cnt; }
    arm();
    size_t got = 0;
    Call c = lib([&] { got = A.prune((R)eps, shrink); });
    if (failed(c, "prune")) { forget(x.m); return; }
    if (got != cnt) BAD("prune", "prune(%g) reports %zu eliminated entries, expected %zu", eps, got, cnt);
    readopt("prune", A, x.m, w);
    sim::count("probe.prune");
  }
  template <class PP> static void wrapc(const hif::CRS<T, I, PP> &A, std::unique_ptr<hif::CRS<T, I, PP>> &W, size_t nr, size_t nc, std::true_type) { W.reset(new hif::CRS<T, I, PP>(hif::wrap_const_crs(nr, nc, (const PP *)A.row_start().data(), (const I *)A.col_ind().data(), (const T *)A.vals().data()))); }
  template <class PP> static void wrapc(const hif::CCS<T, I, PP> &A, std::unique_ptr<hif::CCS<T, I, PP>> &W, size_t nr, size_t nc, std::true_type) { W.reset(new hif::CCS<T, I, PP>(hif::wrap_const_ccs(nr, nc, (const PP *)A.col_start().data(), (const I *)A.row_ind().data(), (const T *)A.vals().data()))); }
  template <class M> static void wrapc(const M &, std::unique_ptr<M> &, size_t, size_t, std::false_type) {}
  template <class M> void const_wrap(AnyMat &x, M &A, const View &w) {
    if (!std::is_same<P, std::ptrdiff_t>::value || !x.m.st.size) return;
    std::unique_ptr<M> W;
    Call c = lib([&] { wrapc(A, W, w.nr, w.nc, std::integral_constant<bool, std::is_same<P, std::ptrdiff_t>::value>()); });
    failed(c, "wrapping constant data");
    same_matrix("wrapping constant data", *W, w);
    if (W->status() != hif::DATA_WRAP) BAD("status", "wrapped constant data has status %d", (int)W->status());
    { Lib l; W.reset(); }
    // too small a secondary size or unsorted entries must be refused
    long mx = -1;
    for (size_t k = 0; k < x.m.id.size; ++k) mx = std::max(mx, (long)x.m.id.b->v[k]);
    if (mx < 0) return;
    size_t sm = (size_t)mx;
    c = lib([&] { wrapc(A, W, M::ROW_MAJOR ? w.nr : sm, M::ROW_MAJOR ? sm : w.nc, std::integral_constant<bool, std::is_same<P, std::ptrdiff_t>::value>()); });
    { Lib l; W.reset(); }
    if (c.ok()) BAD("wrap-check", "wrapping accepts index %ld for size %zu", mx, sm);
  }
  // ---- observers
  template <class M> void products(M &A, const View &w, sim::Rng &r) {
    static const size_t NR = 3;
    std::vector<T> x(w.nc + 1), xt(w.nr + 1);
    for (auto &v : x) v = Draw<T>::val(r);
    for (auto &v : xt) v = Draw<T>::val(r);
    x[w.nc] = xt[w.nr] = T(0);
    std::vector<Z> y(w.nr), yt(w.nc);
    std::vector<double> sc(w.nr), sct(w.nc);
    for (size_t i = 0; i < w.nr; ++i)
      for (size_t j = 0; j < w.nc; ++j) {
        y[i] += Z(w.v[i][j]) * Z(x[j]); sc[i] += std::abs(Z(w.v[i][j]) * Z(x[j]));
        yt[j] += std::conj(Z(w.v[i][j])) * Z(xt[i]); sct[j] += std::abs(Z(w.v[i][j]) * Z(xt[i]));
      }
    int how = (int)sim::choose(6);
    const T canary = T(R(12345));
    auto cmp = [&](const char *what, const T *got, size_t stride, bool tran) {
      size_t n = tran ? w.nc : w.nr;
      for (size_t i = 0; i < n; ++i)
        if (!close_to(Z(got[i * stride]), tran ? yt[i] : y[i], tran ? sct[i] : sc[i], EPS)) BAD("product", "%s of a %zux%zu %s matrix: entry %zu is off", what, w.nr, w.nc, M::ROW_MAJOR ? "row" : "column", i);
    };
    std::vector<T> o(std::max(w.nr, w.nc) + 1, canary);
    if (how < 2) {
      bool tran = how;
      const hif::Array<T> X(tran ? w.nr : w.nc, (tran ? xt : x).data(), true);
      hif::Array<T> Y(tran ? w.nc : w.nr, o.data(), true);
      Call c = lib([&] { A.multiply(X, Y, tran); });
      failed(c, "multiply");
      cmp(tran ? "transposed product" : "product", o.data(), 1, tran);
      if (!eq(o[Y.size()], canary)) BAD("product", "product writes past its end");
      hif::Array<T> Y2(Y.size() + 1);
      c = lib([&] { A.multiply(X, Y2, tran); });
      if (c.status != ERR) BAD("product", "product into a vector of the wrong size: %s", sname(c.status));
    } else if (how < 4) {
      bool tran = how == 3;
      size_t nx = tran ? w.nr : w.nc, ny = tran ? w.nc : w.nr;
      hif::Array<std::array<T, NR>> X(nx), Y(ny);
      for (size_t i = 0; i < nx; ++i) for (size_t k = 0; k < NR; ++k) X[i][k] = (tran ? xt : x)[i] * T(k == 1 ? 2 : k == 2 ? -1 : 1);
      Call c = lib([&] { A.multiply_mrhs(X, Y, tran); });
      failed(c, "multiply_mrhs");
      std::vector<T> col(ny + 1);
      for (size_t k = 0; k < NR; ++k) {
        for (size_t i = 0; i < ny; ++i) col[i] = Y[i][k] / T(k == 1 ? 2 : k == 2 ? -1 : 1);
        cmp(tran ? "transposed product of several columns" : "product of several columns", col.data(), 1, tran);
      }
    } else if (how == 4) partial(A, w, x, y, sc, canary);
    else {
      // export as row or column storage
      Comp c1 = compress(w, true), c2 = compress(w, false);
      bool row = sim::chance(1, 2);
      Comp &e = row ? c1 : c2;
      Comp g;
      g.st.assign(e.st.size() + 1, (P)-7); g.id.assign(e.id.size() + 1, (I)-7); g.va.assign(e.va.size() + 1, canary);
      arm();
      Call c = lib([&] { if (row) hif::export_compressed_data<Crs>(A, g.st.data(), g.id.data(), g.va.data()); else hif::export_compressed_data<Ccs>(A, g.st.data(), g.id.data(), g.va.data()); });
      if (failed(c, "export")) return;
      for (size_t i = 0; i < e.st.size(); ++i) if (g.st[i] != e.st[i]) BAD("export", "exported start position %zu differs", i);
      for (size_t i = 0; i < e.id.size(); ++i) if (g.id[i] != e.id[i] || !eq(g.va[i], e.va[i])) BAD("export", "exported entry %zu differs", i);
      if (g.st.back() != (P)-7 || g.id.back() != (I)-7 || !eq(g.va.back(), canary)) BAD("export", "export writes past the end");
    }
    sim::count("probe.product");
  }
  void partial(Crs &A, const View &w, std::vector<T> &x, std::vector<Z> &y, std::vector<double> &sc, T canary) {
    if (!w.nr) return;
    size_t s = sim::choose((uint32_t)w.nr), len = sim::choose((uint32_t)(w.nr - s + 1));
    std::vector<T> o(w.nr + 1, canary);
    const hif::Array<T> X(w.nc, x.data(), true);
    hif::Array<T> Y(w.nr, o.data(), true);
    Call c = lib([&] { A.multiply_nt(X, s, len, Y); });
    failed(c, "partial product");
    for (size_t i = 0; i < w.nr; ++i) {
      bool in = i >= s && i < s + len;
      if (in ? !close_to(Z(o[i]), y[i], sc[i], EPS) : !eq(o[i], canary)) BAD("product", "partial product [%zu,%zu): entry %zu is off", s, s + len, i);
    }
    c = lib([&] { A.multiply_nt(X, s, w.nr - s + 1, Y); });
    if (c.status != ERR) BAD("product", "partial product past the end is accepted");
  }
  void partial(Ccs &, const View &, std::vector<T> &, std::vector<Z> &, std::vector<double> &, T) {}
  template <class M> void to_dense(M &A, const View &w) {
    std::unique_ptr<hif::DenseMatrix<T>> D;
    size_t pr = sim::choose(5), pc = sim::choose(5);
    bool pre = sim::chance(1, 2);
    arm();
    Call c = lib([&] {
      if (pre) { D.reset(new hif::DenseMatrix<T>(pr, pc, T(9))); D->copy_sparse(A); }
      else D.reset(new hif::DenseMatrix<T>(hif::DenseMatrix<T>::from_sparse(A)));
    });
    if (!failed(c, "dense copy")) {
      if (D->nrows() != w.nr || D->ncols() != w.nc) BAD("dense", "dense copy is %zux%zu, expected %zux%zu", (size_t)D->nrows(), (size_t)D->ncols(), w.nr, w.nc);
      std::unique_ptr<hif::DenseMatrix<T>> E, F;
      lib([&] { E.reset(new hif::DenseMatrix<T>(*D)); F.reset(new hif::DenseMatrix<T>(*D, true)); });
      if (w.nr && w.nc) (*E)(w.nr - 1, 0) += T(1);
      for (size_t j = 0; j < w.nc; ++j) {
        auto it = D->col_cbegin(j);
        for (size_t i = 0; i < w.nr; ++i, ++it) {
          T add = i + 1 == w.nr && j == 0 ? T(1) : T(0);
          if (!eq((*D)(i, j), w.v[i][j] + add) || !eq(*it, w.v[i][j] + add) || !eq(D->row_begin(i)[j], w.v[i][j] + add)) BAD("dense", "dense copy differs at (%zu,%zu)", i, j);
          if (!eq((*F)(i, j), w.v[i][j])) BAD("dense", "clone of a dense matrix differs at (%zu,%zu)", i, j);
        }
      }
      { Lib l; D.reset(); }
      for (size_t j = 0; j < w.nc; ++j) for (size_t i = 0; i < w.nr; ++i) if (!eq((*E)(i, j), w.v[i][j] + (i + 1 == w.nr && j == 0 ? T(1) : T(0)))) BAD("dense", "shared dense matrix differs at (%zu,%zu)", i, j);
      Lib l;
      E.reset(); F.reset();
    }
    Lib l;
    D.reset();
  }
  template <class M> void triangular(M &A, const View &w, sim::Rng &r, bool lower) {
    size_t n = w.nr;
    if (n != w.nc || !n) return;
    static const size_t NR = 2;
    int how = (int)sim::choose(4);
    bool tran = how & 1, multi = how & 2;
    std::vector<T> b(n);
    for (auto &v : b) v = Draw<T>::val(r);
    // reference
    std::vector<Z> y(n);
    double scale = 1;
    bool fwd = lower != tran;
    for (size_t q = 0; q < n; ++q) {
      size_t i = fwd ? q : n - 1 - q;
      y[i] = Z(b[i]);
      for (size_t j = 0; j < n; ++j) {
        Z a = tran ? std::conj(Z(w.v[j][i])) : Z(w.v[i][j]);
        y[i] -= a * y[j] * (j == i ? 0.0 : 1.0);
      }
      scale = std::max(scale, std::abs(y[i]));
    }
    double eps = 1e3 * n * std::numeric_limits<R>::epsilon() * scale;
    if (scale > 1e4) { sim::count("probe.tri_ill"); return; }
    const char *nm = lower ? (tran ? "transposed lower solve" : "lower solve") : (tran ? "transposed upper solve" : "upper solve");
    if (!multi) {
      hif::Array<T> Y(n, b.data());
      Call c = lib([&] {
        if (lower) { if (tran) A.solve_as_strict_lower_tran(Y); else A.solve_as_strict_lower(Y); }
        else { if (tran) A.solve_as_strict_upper_tran(Y); else A.solve_as_strict_upper(Y); }
      });
      failed(c, nm);
      for (size_t i = 0; i < n; ++i) if (!close_to(Z(Y[i]), y[i], 1, eps)) BAD("solve", "%s of order %zu (%s): entry %zu is off", nm, n, M::ROW_MAJOR ? "row" : "column", i);
    } else {
      hif::Array<std::array<T, NR>> Y(n);
      for (size_t i = 0; i < n; ++i) { Y[i][0] = b[i]; Y[i][1] = -b[i]; }
      Call c = lib([&] {
        if (lower) { if (tran) A.solve_as_strict_lower_mrhs_tran(Y); else A.solve_as_strict_lower_mrhs(Y); }
        else { if (tran) A.solve_as_strict_upper_mrhs_tran(Y); else A.solve_as_strict_upper_mrhs(Y); }
      });
      failed(c, nm);
      for (size_t i = 0; i < n; ++i)
        if (!close_to(Z(Y[i][0]), y[i], 1, eps) || !close_to(Z(Y[i][1]), -y[i], 1, eps)) BAD("solve", "%s of several columns of order %zu (%s): row %zu is off", nm, n, M::ROW_MAJOR ? "row" : "column", i);
    }
    sim::count("probe.trisolve");
  }
  static int tri_of(const View &w) {  // -1 strictly lower, 1 strictly upper, 0 no
    bool lo = true, up = true;
    for (size_t i = 0; i < w.nr; ++i) for (size_t j = 0; j < w.nc; ++j) if (w.s[i][j]) { if (i <= j) lo = false; if (i >= j) up = false; }
    return lo ? -1 : up ? 1 : 0;
  }
  template <class M> void inplace_scale(AnyMat &x, M &A, const View &w, sim::Rng &r) {
    int how = (int)sim::choose(3);
    hif::Array<T> s(w.nr), t(w.nc);
    static const double f[] = {1, -1, 2, 0.5};
    for (auto &v : s) v = T(R(f[r.below(4)]));
    for (auto &v : t) v = T(R(f[r.below(4)]));
    // arrays shorter than the matrix are refused
    if (sim::chance(1, 8) && w.nr && w.nc) {
      hif::Array<T> sh(how == 0 ? w.nr - 1 : w.nc - 1, T(1));
      Call c = lib([&] { if (how == 0) A.scale_diag_left(sh); else A.scale_diag_right(sh); });
      if (c.status != ERR) BAD("bounds", "scaling with a diagonal that is too short: %s", sname(c.status));
      return;
    }
    Call c = lib([&] { if (how == 0) A.scale_diag_left(s); else if (how == 1) A.scale_diag_right(t); else A.scale_diags(s, t); });
    failed(c, "scaling");
    for (size_t i = 0; i < x.m.ps(); ++i)
      for (P k = x.m.st.b->v[i]; k < x.m.st.b->v[i + 1]; ++k) {
        size_t j = (size_t)x.m.id.b->v[k], rr = x.m.row ? i : j, cc = x.m.row ? j : i;
        T v = x.m.va.b->v[k];
        if (how != 1) v *= s[rr];
        if (how != 0) v *= t[cc];
        x.m.va.b->v[k] = v;
      }
    if (!x.m.va.sole()) sim::count("probe.shared_write");
  }
  void step() {
    sim::Rng r(sim::choose(1u << 20));
    int op = pool.empty() ? 0 : (int)sim::choose(30);
    sim::log("op %d", op);
    if (op <= 2) {
      size_t nr = sim::choose((uint32_t)n0 + 1), nc = sim::chance(1, 3) ? sim::choose((uint32_t)n0 + 1) : nr;
      int tri = sim::chance(1, 3) ? (sim::chance(1, 2) ? -1 : 1) : 0;
      View w = random(nr, nc, r, tri);
      int how = (int)sim::choose(5);
      if (sim::chance(1, 2)) create<Crs>(w, how, r); else create<Ccs>(w, how, r);
      check();
      return;
    }
    size_t k = any();
    if (pool[k].m.junk) {  // an object left by a failed change: only harmless uses
      int how = (int)sim::choose(3);
      AnyMat &x = pool[k];
      on(x, [&](auto &A) { Lib l; A.nnz(); A.status(); });
      if (how == 0) { drop(k); }
      else if (how == 1) {
        Call c = lib([&] { on(x, [&](auto &A) { A.destroy(); }); });
        if (c.ok()) { x.m = MM(); x.m.row = !!x.r; }
      } else {
        size_t j = any();
        if (!pool[j].m.junk && pool[j].m.row == x.m.row) {
          Call c = lib([&] { if (x.r) *x.r = *pool[j].r; else *x.c = *pool[j].c; });
          failed(c, "assignment");
          x.m = pool[j].m;
        }
      }
      check();
      return;
    }
    AnyMat &x = pool[k];
    View w = view(x.m);
    bool has = x.m.st.size > 0;
    switch (op) {
      case 3: case 4: {
        AnyMat y;
        Call c = lib([&] { if (x.r) y.r.reset(new Crs(*x.r)); else y.c.reset(new Ccs(*x.c)); });
        failed(c, "shallow matrix copy");
        y.m = x.m;
        put(std::move(y));
        break; }
      case 5: {
        AnyMat y;
        arm();
        Call c = lib([&] { if (x.r) y.r.reset(new Crs(*x.r, true)); else y.c.reset(new Ccs(*x.c, true)); });
        if (failed(c, "matrix clone")) break;
        on(y, [&](auto &A) { y.m = adopt_m("matrix clone", A, w); });
        put(std::move(y));
        break; }
      case 6: {
        AnyMat y;
        Call c = lib([&] { if (x.r) y.r.reset(new Crs(std::move(*x.r))); else y.c.reset(new Ccs(std::move(*x.c))); });
        failed(c, "moving a matrix");
        y.m = x.m;
        x.m = MM(); x.m.row = !!x.r; x.m.junk = true;  // valid, unspecified
        put(std::move(y));
        break; }
      case 7: case 8: {
        size_t j = any();
        if (pool[j].m.row != x.m.row || pool[j].m.junk) break;
        bool mv = op == 8 && j != k;
        Call c = lib([&] {
          if (mv) { if (x.r) *x.r = std::move(*pool[j].r); else *x.c = std::move(*pool[j].c); }
          else { if (x.r) *x.r = *pool[j].r; else *x.c = *pool[j].c; }
        });
        failed(c, "matrix assignment");
        MM m = pool[j].m;
        x.m = m;
        if (mv) { bool rw = pool[j].m.row; pool[j].m = MM(); pool[j].m.row = rw; pool[j].m.junk = true; }
        break; }
      case 9: {
        size_t j = any();
        if (pool[j].m.row != x.m.row || pool[j].m.junk || j == k) break;
        Call c = lib([&] { if (x.r) std::swap(*x.r, *pool[j].r); else std::swap(*x.c, *pool[j].c); });
        failed(c, "matrix swap");
        std::swap(x.m, pool[j].m);
        break; }
      case 10: case 11:
        if (!has) break;
        if (x.r) { Crs &A = *x.r; derive<Ccs>("conversion to columns", w, [&] { return Ccs(A); }); }
        else { Ccs &A = *x.c; derive<Crs>("conversion to rows", w, [&] { return Crs(A); }); }
        break;
      case 12:
        if (has) on(x, [&](auto &A) { inplace_scale(x, A, w, r); });
        break;
      case 13:
        if (has && x.m.va.size) {
          size_t i = sim::choose((uint32_t)x.m.ps());
          on(x, [&](auto &A) {
            if (A.nnz_in_primary(i)) {
              size_t q = sim::choose((uint32_t)A.nnz_in_primary(i));
              T v = Draw<T>::val(r) * T(R(0.125));
              *(A.val_begin(i) + q) = v;
              x.m.va.b->v[x.m.st.b->v[i] + q] = v;
            }
          });
        }
        break;
      case 14: case 15: {
        if (!has) break;
        size_t m = sim::choose((uint32_t)x.m.os() + 1);
        std::unique_ptr<hif::Array<P>> start;
        if (sim::chance(1, 2)) {
          start.reset(new hif::Array<P>(x.m.ps() + sim::choose(2)));
          for (size_t i = 0; i < x.m.ps(); ++i) { P q = x.m.st.b->v[i]; while (q < x.m.st.b->v[i + 1] && (size_t)x.m.id.b->v[q] < m) ++q; (*start)[i] = q; }
        }
        int how = (int)sim::choose(6);
        if (x.r) { Crs A(*x.r); split_ops(A, w, m, start.get(), how); } else { Ccs A(*x.c); split_ops(A, w, m, start.get(), how); }
        break; }
      case 16:
        if (!has) break;
        if (x.r) { Crs A(*x.r); permute(A, w, r); } else { Ccs A(*x.c); permute(A, w, r); }
        break;
      case 17: {
        if (!has) break;
        size_t m = sim::choose((uint32_t)std::min(w.nr, w.nc) + 1);
        View o = blank(m, m);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { o.s[i][j] = w.s[i][j]; o.v[i][j] = w.v[i][j]; }
        if (x.r) { Crs A(*x.r); derive<Crs>("extract_leading", o, [&] { return A.extract_leading(m); }); }
        else { Ccs A(*x.c); derive<Ccs>("extract_leading", o, [&] { return A.extract_leading(m); }); }
        break; }
      case 18:
        if (sole(x.m)) on(x, [&](auto &A) { prune(x, A, w); });
        break;
      case 19: {
        arm();
        Call c = lib([&] { on(x, [&](auto &A) { A.destroy(); }); });
        if (failed(c, "destroy")) { x.m.junk = true; on(x, [&](auto &A) { Lib l; A.nnz(); }); break; }
        on(x, [&](auto &A) { if (A.nrows() || A.ncols() || A.nnz() || A.inds().size() || A.vals().size() || A.ind_start().size()) BAD("shape", "destroyed matrix still describes something"); });
        { bool rw = x.m.row; x.m = MM(); x.m.row = rw; }
        break; }
      case 20: {
        if (!sole(x.m)) break;
        View o = random(w.nr, w.nc, r, 0);
        Call c;
        if (x.r) c = assemble(*x.r, o, r); else c = assemble(*x.c, o, r);
        if (failed(c, "assembly into used memory")) { forget(x.m); on(x, [&](auto &A) { Lib l; A.nnz(); }); break; }
        on(x, [&](auto &A) { readopt("assembly into used memory", A, x.m, o); });
        break; }
      case 21: {
        if (!has || x.m.wrapped) break;
        size_t n = sim::choose(60);
        arm();
        Call c = lib([&] { on(x, [&](auto &A) { A.reserve(n); }); });
        failed(c, "matrix reserve");
        on(x, [&](auto &A) { moved_on(A.inds(), x.m.id); moved_on(A.vals(), x.m.va); if (c.ok() && (A.inds().capacity() < n || A.vals().capacity() < n)) BAD("size", "reserve(%zu) gives capacity %zu/%zu", n, (size_t)A.inds().capacity(), (size_t)A.vals().capacity()); });
        break; }
      case 22: drop(k); break;
      case 23:
        if (has) on(x, [&](auto &A) { to_dense(A, w); });
        break;
      case 24: {
        if (!has) break;
        int t = tri_of(w);
        if (t) on(x, [&](auto &A) { triangular(A, w, r, t < 0); });
        break; }
      case 25:
        if (has) { on(x, [&](auto &A) { const_wrap(x, A, w); }); }
        break;
      case 26: {
        if (!has) break;
        Kept q;
        int how = (int)sim::choose(2);
        if (how) arm();
        Call c = lib([&] { on(x, [&](auto &A) { q.a.reset(how ? new hif::Array<T>(A.vals(), true) : new hif::Array<T>(A.vals())); }); });
        if (failed(c, "taking the values")) break;
        if (how) { std::vector<T> v; if (x.m.va.b) v.assign(x.m.va.b->v.begin(), x.m.va.b->v.begin() + x.m.va.size); q.m = adopt("clone of the values", *q.a, &v); }
        else q.m = x.m.va;
        if (kept.size() >= 3) { Lib l; kept.erase(kept.begin()); }
        kept.push_back(std::move(q));
        break; }
      case 27: {
        if (kept.empty()) break;
        Kept &q = kept[sim::choose((uint32_t)kept.size())];
        int how = (int)sim::choose(3);
        if (how == 0 && q.m.size) { size_t i = sim::choose((uint32_t)q.m.size); T v = Draw<T>::val(r); (*q.a)[i] = v; q.m.b->v[i] = v; q.m.b->known[i] = 1; }
        else if (how == 1) { { Lib l; q.a.reset(); } kept.erase(kept.begin() + (&q - &kept[0])); }
        else if (has && q.m.size == x.m.va.size) {  // hand the values to a matrix of the same size
          Call c = lib([&] { on(x, [&](auto &A) { A.vals() = *q.a; }); });
          failed(c, "setting the values");
          x.m.va = MA<T>(q.m);
          x.m.wrapped = x.m.wrapped || (q.m.b && !q.m.b->own);
        }
        break; }
      default:
        if (has) on(x, [&](auto &A) { products(A, w, r); });
    }
    check();
  }
  // an array that may have moved to storage of its own
  template <class E> void moved_on(hif::Array<E> &a, MA<E> &m) {
    if (m.b && m.b->ptr == a.data()) return;
    if (!m.b && a.status() == hif::DATA_UNDEF) return;
    std::vector<E> v;
    if (m.b) v.assign(m.b->v.begin(), m.b->v.begin() + m.size);
    m = adopt("reserve", a, &v);
  }
  void check() {
    for (auto &q : kept) compare("held values", *q.a, q.m);
    for (auto &x : pool) {
      if (x.m.junk) continue;
      on(x, [&](auto &A) {
        if (A.nrows() != x.m.nr || A.ncols() != x.m.nc) BAD("shape", "matrix is %zux%zu, expected %zux%zu", (size_t)A.nrows(), (size_t)A.ncols(), x.m.nr, x.m.nc);
        compare("matrix starts", A.ind_start(), x.m.st);
        compare("matrix indices", A.inds(), x.m.id);
        compare("matrix values", A.vals(), x.m.va);
        if (A.nnz() && !x.m.st.size) BAD("structure", "empty matrix reports %zu entries", (size_t)A.nnz());
        if (x.m.st.size) {
          if (A.nnz() != x.m.id.size) BAD("structure", "matrix reports %zu entries, holds %zu", (size_t)A.nnz(), x.m.id.size);
          Call c = lib([&] { A.check_validity(); });
          if (!c.ok()) BAD("validity", "check_validity rejects a valid matrix: %s", c.what);
        }
        if (x.m.va.b && x.m.va.b->ext)
          for (size_t i = 0; i < x.m.va.b->v.size(); ++i)
            if (!eq((*x.m.va.b->ext)[i], x.m.va.b->v[i])) BAD("value", "wrapped values of the caller differ at %zu", i);
      });
    }
    check_gone("matrix history");
  }
  void finish() {
    while (!pool.empty()) { drop(any()); check(); }
    while (!kept.empty()) { { Lib l; kept.back().a.reset(); } kept.pop_back(); check(); }
    g_gone.clear();
  }
};
template <> std::unique_ptr<Crs> &Mats::slot<Crs>(AnyMat &x) { return x.r; }
template <> std::unique_ptr<Ccs> &Mats::slot<Ccs>(AnyMat &x) { return x.c; }

// -------------------------------------------------------------------- augmented storage, permutations, sparse vectors
template <class Aug> struct AugOps;
template <> struct AugOps<hif::AugCRS<Crs>> {
  typedef hif::AugCRS<Crs> A;
  static void begin(A &a) { a.begin_assemble_rows(); }
  static void push(A &a, size_t i, std::vector<I> &k, std::vector<T> &v) { a.push_back_row(i, k.cbegin(), k.cend(), v); }
  static void push2(A &a, size_t i, std::vector<I> &k, std::vector<I> &k2, std::vector<T> &v) { a.push_back_row(i, k.cbegin(), k.cend(), v, k2.cbegin(), k2.cend(), v); }
  static void end(A &a) { a.end_assemble_rows(); }
  static void inter(A &a, size_t i, size_t j) { a.interchange_cols(i, j); }
  static size_t cnt(A &a, size_t j) { return a.nnz_in_col(j); }
};
template <> struct AugOps<hif::AugCCS<Ccs>> {
  typedef hif::AugCCS<Ccs> A;
  static void begin(A &a) { a.begin_assemble_cols(); }
  static void push(A &a, size_t i, std::vector<I> &k, std::vector<T> &v) { a.push_back_col(i, k.cbegin(), k.cend(), v); }
  static void push2(A &a, size_t i, std::vector<I> &k, std::vector<I> &k2, std::vector<T> &v) { a.push_back_col(i, k.cbegin(), k.cend(), v, k2.cbegin(), k2.cend(), v); }
  static void end(A &a) { a.end_assemble_cols(); }
  static void inter(A &a, size_t i, size_t j) { a.interchange_rows(i, j); }
  static size_t cnt(A &a, size_t j) { return a.nnz_in_row(j); }
};
template <class Aug>
void augmented(int nsteps) {
  typedef AugOps<Aug> O;
  size_t np = 1 + sim::choose(7), ns = 1 + sim::choose(9);
  std::vector<std::map<size_t, T>> mod;  // primary -> secondary -> value
  std::unique_ptr<Aug> A;
  bool res = sim::chance(1, 2);
  arm();
  Call c = lib([&] {
    if (Aug::ROW_MAJOR) A.reset(new Aug(np, ns, res ? np * ns : 0)); else A.reset(new Aug(ns, np, res ? np * ns : 0));
    O::begin(*A);
  });
  if (failed(c, "augmented construction")) { Lib l; A.reset(); return; }
  std::unique_ptr<Aug> twin;
  std::vector<std::map<size_t, T>> tmod;
  auto verify = [&](Aug &X, std::vector<std::map<size_t, T>> &m, const char *what) {
    if (X.ind_start().size() != m.size() + 1) BAD("augmented", "%s: %zu start positions after %zu entries", what, (size_t)X.ind_start().size(), m.size());
    size_t tot = 0;
    for (size_t i = 0; i < m.size(); ++i) {
      if (X.nnz_in_primary(i) != m[i].size()) BAD("augmented", "%s: %zu entries in %zu, expected %zu", what, (size_t)X.nnz_in_primary(i), i, m[i].size());
      auto it = X.ind_begin(i);
      auto vt = X.val_begin(i);
      for (auto &e : m[i]) {
        if ((size_t)*it != e.first || !eq(*vt, e.second)) BAD("augmented", "%s: entry (%zu,%zu) is missing or differs", what, i, e.first);
        ++it; ++vt; ++tot;
      }
    }
    // the lists across the primary direction visit the same entries in order
    for (size_t j = 0; j < ns; ++j) {
      auto id = X.start_aug_id(j);
      size_t cnt = 0;
      for (size_t i = 0; i < m.size(); ++i) {
        auto e = m[i].find(j);
        if (e == m[i].end()) continue;
        ++cnt;
        if (X.is_nil(id)) BAD("augmented", "%s: list of %zu ends before entry %zu", what, j, i);
        if ((size_t)X.primary_idx(id) != i || !eq(X.val_from_aug_id(id), e->second)) BAD("augmented", "%s: list of %zu gives a wrong entry for %zu", what, j, i);
        id = X.next_aug_id(id);
      }
      if (!X.is_nil(id)) BAD("augmented", "%s: list of %zu does not end", what, j);
      if (O::cnt(X, j) != cnt || X.nnz_in_secondary(j) != cnt) BAD("augmented", "%s: %zu has %zu entries, expected %zu", what, j, (size_t)O::cnt(X, j), cnt);
    }
    (void)tot;
  };
  bool dead = false;
  for (int s = 0; s < nsteps && !dead; ++s) {
    sim::Rng r(sim::choose(1u << 20));
    int op = (int)sim::choose(8);
    if (op <= 2) {
      if (mod.size() >= np) continue;
      std::vector<T> dv(ns, T(77));
      std::vector<I> ks, k1, k2;
      std::map<size_t, T> row;
      uint32_t den = 1 + r.below(4);
      for (size_t j = 0; j < ns; ++j) if (r.below(den) == 0) { T v = Draw<T>::val(r); dv[j] = v; ks.push_back((I)j); row[j] = v; }
      size_t cutp = r.below((uint32_t)ks.size() + 1);
      bool two = r.below(2);
      k1.assign(ks.begin(), ks.begin() + cutp); k2.assign(ks.begin() + cutp, ks.end());
      arm();
      c = lib([&] { if (two) O::push2(*A, mod.size(), k1, k2, dv); else O::push(*A, mod.size(), ks, dv); });
      if (failed(c, "augmented append")) { dead = true; break; }
      mod.push_back(row);
    } else if (op <= 5) {
      size_t i = sim::choose((uint32_t)ns), j = sim::choose((uint32_t)ns);
      c = lib([&] { O::inter(*A, i, j); });
      failed(c, "interchange");
      for (auto &row : mod) {
        auto a = row.find(i), b = row.find(j);
        bool ha = a != row.end(), hb = b != row.end();
        if (i == j) continue;
        T va = ha ? a->second : T(0), vb = hb ? b->second : T(0);
        row.erase(i); row.erase(j);
        if (ha) row[j] = va;
        if (hb) row[i] = vb;
      }
      sim::count("probe.interchange");
    } else if (op == 6) {
      arm();
      std::unique_ptr<Aug> t2;
      c = lib([&] { t2.reset(new Aug(*A, true)); });
      if (failed(c, "augmented clone")) { Lib l; t2.reset(); continue; }
      Lib l;
      twin = std::move(t2);
      tmod = mod;
    } else {
      std::unique_ptr<Aug> t2;
      c = lib([&] { t2.reset(new Aug(std::move(*A))); A = std::move(t2); });
      failed(c, "moving an augmented matrix");
    }
    verify(*A, mod, "augmented matrix");
    if (twin) verify(*twin, tmod, "augmented clone");
  }
  if (!dead && mod.size() == np) {
    c = lib([&] { O::end(*A); });
    failed(c, "end of assembly");
    verify(*A, mod, "finished augmented matrix");
  }
  Lib l;
  A.reset(); twin.reset();
}
void perms(int nsteps) {
  size_t n = 1 + sim::choose(9);
  std::unique_ptr<hif::BiPermMatrix<I>> p;
  arm();
  Call c = lib([&] { p.reset(new hif::BiPermMatrix<I>(n)); p->make_eye(); });
  if (failed(c, "permutation")) { Lib l; p.reset(); return; }
  std::vector<size_t> m(n);
  for (size_t i = 0; i < n; ++i) m[i] = i;
  std::unique_ptr<hif::BiPermMatrix<I>> q;
  std::vector<size_t> mq;
  for (int s = 0; s < nsteps; ++s) {
    int op = (int)sim::choose(6);
    size_t i = sim::choose((uint32_t)n), j = sim::choose((uint32_t)n);
    if (op <= 1) { lib([&] { p->interchange(i, j); }); std::swap(m[i], m[j]); }
    else if (op == 2) {
      lib([&] { p->interchange_inv(i, j); });
      size_t a = std::find(m.begin(), m.end(), i) - m.begin(), b = std::find(m.begin(), m.end(), j) - m.begin();
      std::swap(m[a], m[b]);
    } else if (op == 3) {
      std::unique_ptr<hif::BiPermMatrix<I>> t;
      arm();
      c = lib([&] { t.reset(new hif::BiPermMatrix<I>(*p, true)); });
      if (failed(c, "permutation clone")) { Lib l; t.reset(); continue; }
      Lib l;
      q = std::move(t);
      mq = m;
    } else if (op == 4) {
      arm();
      std::unique_ptr<hif::BiPermMatrix<I>> t;
      c = lib([&] { t.reset(new hif::BiPermMatrix<I>((*p)(), true)); t->build_inv(); });
      if (failed(c, "permutation from an array")) { Lib l; t.reset(); continue; }
      Lib l;
      p = std::move(t);
    } else {
      size_t n2 = 1 + sim::choose(9);
      arm();
      c = lib([&] { p->resize(n2); p->make_eye(); });
      if (failed(c, "permutation resize")) break;
      n = n2;
      m.resize(n);
      for (size_t k = 0; k < n; ++k) m[k] = k;
    }
    bool eye = true;
    if (p->size() != n) BAD("permutation", "size %zu, expected %zu", (size_t)p->size(), n);
    for (size_t k = 0; k < n; ++k) {
      if ((size_t)(*p)[k] != m[k] || (size_t)p->inv(m[k]) != k) BAD("permutation", "permutation or inverse is wrong at %zu", k);
      eye = eye && m[k] == k;
    }
    if (p->is_eye() != eye) BAD("permutation", "is_eye() = %d", (int)p->is_eye());
    if (q) for (size_t k = 0; k < mq.size(); ++k) if ((size_t)(*q)[k] != mq[k] || (size_t)q->inv(mq[k]) != k) BAD("permutation", "clone of a permutation changed at %zu", k);
  }
  Lib l;
  p.reset(); q.reset();
}
void spvec(int nsteps) {
  typedef hif::SparseVector<T, I> V;
  size_t n = 1 + sim::choose(10);
  std::unique_ptr<V> v;
  arm();
  Call c = lib([&] { v.reset(new V(n)); });
  if (failed(c, "sparse vector")) { Lib l; v.reset(); return; }
  std::vector<long> tags(n, -1);
  std::vector<T> dense(n, T(0));
  std::vector<size_t> inds;
  for (size_t i = 0; i < n; ++i) (*v)[i] = T(0);
  bool pend = false;
  std::vector<char> del;
  for (int s = 0; s < nsteps; ++s) {
    sim::Rng r(sim::choose(1u << 20));
    int op = (int)sim::choose(10);
    if (op <= 3) {
      size_t i = sim::choose((uint32_t)n), st = sim::choose(3);
      if (inds.size() >= n || pend) continue;
      bool fresh = tags[i] != (long)st, got = false;
      lib([&] { got = v->push_back((I)i, st); });
      if (got != fresh) BAD("spvec", "push_back(%zu,%zu) reports %d", i, st, (int)got);
      if (fresh) { inds.push_back(i); tags[i] = (long)st; }
      T x = Draw<T>::val(r);
      (*v)[i] = x; dense[i] = x;
    } else if (op == 4 && !inds.empty()) {
      size_t k = sim::choose((uint32_t)inds.size());
      if (!pend) del.assign(inds.size(), 0);
      v->mark_delete(k);
      del[k] = 1;
      pend = true;
    } else if (op == 5) {
      lib([&] { v->compress_indices(); });
      if (pend) { std::vector<size_t> o; for (size_t k = 0; k < inds.size(); ++k) if (!del[k]) o.push_back(inds[k]); inds = o; }
      pend = false;
    } else if (op == 6 && !pend) {
      lib([&] { v->sort_indices(); });
      std::sort(inds.begin(), inds.end());
    } else if (op == 7 && !pend) {
      T a = T(R(-1));
      bool dup = std::set<size_t>(inds.begin(), inds.end()).size() != inds.size();
      if (dup) continue;
      lib([&] { v->scale(a); });
      for (auto i : inds) dense[i] *= a;
    } else if (op == 8 && !pend) {
      lib([&] { v->restore_cur_state(); });
      for (auto i : inds) tags[i] = -1;
      if (sim::chance(1, 2)) { v->reset_counter(); inds.clear(); }
    } else if (!pend) {
      if (!sim::chance(1, 3)) { v->reset_counter(); inds.clear(); }
      else {
        size_t n2 = 1 + sim::choose(12);
        arm();
        v->reset_counter();
        c = lib([&] { v->resize(n2); });
        if (failed(c, "sparse vector resize")) break;
        n = n2; inds.clear(); tags.assign(n, -1); dense.assign(n, T(0));
        for (size_t i = 0; i < n; ++i) (*v)[i] = T(0);
      }
    }
    if (v->size() != inds.size() || v->empty() != inds.empty()) BAD("spvec", "%zu entries, expected %zu", (size_t)v->size(), inds.size());
    double n1 = 0, n2 = 0, mx = 0;
    for (size_t k = 0; k < inds.size(); ++k) {
      if (v->idx(k) != inds[k] || !eq(v->val(k), dense[inds[k]])) BAD("spvec", "entry %zu differs", k);
      double a = std::abs(Z(dense[inds[k]]));
      n1 += a; n2 += a * a; mx = std::max(mx, a);
    }
    if (!close_to(Z((double)v->norm1()), Z(n1), n1, EPS) || !close_to(Z((double)v->norm2_sq()), Z(n2), n2, EPS) || !close_to(Z((double)v->max_mag()), Z(mx), mx, EPS)) BAD("spvec", "norms differ from the stored values");
    size_t im = v->imax_mag();
    if (inds.empty() ? im != std::numeric_limits<size_t>::max() : (std::find(inds.begin(), inds.end(), im) == inds.end() || !close_to(Z(std::abs(Z(dense[im]))), Z(mx), mx, EPS))) BAD("spvec", "imax_mag gives %zu", im);
  }
  Lib l;
  v.reset();
}
// ------------------------------------------------------------------------------------- dense matrices
struct DensePool {
  typedef hif::DenseMatrix<T> D;
  struct Ent { std::unique_ptr<D> a; MA<T> m; size_t nr = 0, nc = 0; };
  std::vector<Ent> pool;
  size_t any() { return sim::choose((uint32_t)pool.size()); }
  void put(std::unique_ptr<D> a, MA<T> m, size_t nr, size_t nc) {
    if (pool.size() >= 5) { size_t k = any(); { Lib l; pool[k].a.reset(); } pool.erase(pool.begin() + k); }
    Ent e;
    e.a = std::move(a); e.m = m; e.nr = nr; e.nc = nc;
    pool.push_back(std::move(e));
  }
  void step() {
    sim::Rng r(sim::choose(1u << 20));
    int op = pool.empty() ? (int)sim::choose(3) : (int)sim::choose(13);
    size_t nr = sim::choose(7), nc = sim::choose(7);
    std::unique_ptr<D> na;
    switch (op) {
      case 0: {
        bool init = sim::chance(1, 2);
        T v = Draw<T>::val(r);
        arm();
        Call c = lib([&] { na.reset(init ? new D(nr, nc, v) : new D(nr, nc)); });
        if (failed(c, "dense construction")) break;
        if (!init && !nc) nc = nr;
        std::vector<T> w(nr * nc, v);
        if (na->size() != nr * nc) BAD("dense", "constructed %zux%zu with %zu entries", nr, nc, (size_t)na->size());
        MA<T> m = adopt("dense construction", na->array(), init ? &w : nullptr);
        put(std::move(na), m, nr, nc);
        break; }
      case 1: case 2: {
        bool wrap = op == 2;
        std::unique_ptr<std::vector<T>> w(new std::vector<T>(nr * nc + 1));
        for (auto &x : *w) x = Draw<T>::val(r);
        arm();
        Call c = lib([&] { na.reset(new D(nr, nc, w->data(), wrap)); });
        if (failed(c, "dense wrap or copy")) break;
        MA<T> m;
        if (wrap) {
          m.b = std::make_shared<Buf<T>>();
          m.b->own = false; m.b->v = *w; m.b->known.assign(w->size(), 1); m.b->ptr = w->data(); m.b->ext = std::move(w); m.size = nr * nc;
        } else { w->pop_back(); m = adopt("dense copy", na->array(), w.get()); }
        put(std::move(na), m, nr, nc);
        break; }
      case 3: {
        Ent &e = pool[any()];
        MA<T> m = e.m; nr = e.nr; nc = e.nc;
        D &src = *e.a;
        Call c = lib([&] { na.reset(new D(src)); });
        failed(c, "dense shallow copy");
        put(std::move(na), m, nr, nc);
        break; }
      case 4: {
        Ent &e = pool[any()];
        MA<T> s = e.m; nr = e.nr; nc = e.nc;
        D &src = *e.a;
        arm();
        Call c = lib([&] { na.reset(new D(src, true)); });
        if (failed(c, "dense clone")) break;
        MA<T> m;
        if (na->size() != s.size) BAD("dense", "clone has %zu entries, expected %zu", (size_t)na->size(), s.size);
        if (na->size() || na->array().status() != hif::DATA_UNDEF) {
          m = adopt("dense clone", na->array());
          for (size_t i = 0; i < m.size; ++i) { m.b->v[i] = s.b->v[i]; m.b->known[i] = s.b->known[i]; }
        }
        put(std::move(na), m, nr, nc);
        break; }
      case 5: case 6: {
        size_t k = any(), j = any();
        if (k == j && op == 6) break;
        Call c = lib([&] { if (op == 5) { D &src = *pool[j].a; *pool[k].a = src; } else *pool[k].a = std::move(*pool[j].a); });
        failed(c, "dense assignment");
        pool[k].m = pool[j].m; pool[k].nr = pool[j].nr; pool[k].nc = pool[j].nc;
        if (op == 6) { { Lib l; pool[j].a.reset(); } pool.erase(pool.begin() + j); }
        break; }
      case 7: {
        size_t k = any();
        Call c = lib([&] { na.reset(new D(std::move(*pool[k].a))); });
        failed(c, "dense move");
        MA<T> m = pool[k].m; nr = pool[k].nr; nc = pool[k].nc;
        { Lib l; pool[k].a.reset(); }
        pool.erase(pool.begin() + k);
        put(std::move(na), m, nr, nc);
        break; }
      case 8: {
        Ent &e = pool[any()];
        if (e.m.b && !e.m.b->own && nr * nc > e.a->array().capacity()) break;
        size_t cap = e.a->array().capacity();
        arm();
        Call c = lib([&] { e.a->resize(nr, nc); });
        if (failed(c, "dense resize")) break;
        if (nr * nc > cap) {
          if (e.m.b && e.a->data() == e.m.b->ptr) BAD("dense", "growth did not move to new storage");
          if (e.a->array().capacity() < nr * nc) BAD("dense", "capacity %zu after growing to %zux%zu", (size_t)e.a->array().capacity(), nr, nc);
          auto b = own_buf(e.a->array());
          if (e.m.b) for (size_t i = 0; i < e.m.size && i < b->v.size(); ++i) { b->v[i] = e.m.b->v[i]; b->known[i] = e.m.b->known[i]; }
          e.m.b = b;
        }
        e.m.size = nr * nc; e.nr = nr; e.nc = nc;
        break; }
      case 9: case 10: {
        Ent &e = pool[any()];
        if (!e.m.size) break;
        size_t i = sim::choose((uint32_t)e.nr), j = sim::choose((uint32_t)e.nc), k = i + j * e.nr;
        T v = Draw<T>::val(r);
        int how = (int)sim::choose(4);
        if (how == 0) (*e.a)(i, j) = v; else if (how == 1) (*e.a)[k] = v; else if (how == 2) *(e.a->col_begin(j) + i) = v; else e.a->row_begin(i)[j] = v;
        e.m.b->v[k] = v; e.m.b->known[k] = 1;
        break; }
      case 11: {
        size_t k = any();
        { Lib l; pool[k].a.reset(); }
        pool.erase(pool.begin() + k);
        break; }
      default: {  // both ways through the entries
        Ent &e = pool[any()];
        const D &d = *e.a;
        for (size_t i = 0; i < e.nr && e.nc; ++i) {
          size_t cnt = 0;
          for (auto it = d.row_cbegin(i); it != d.row_cend(i); ++it, ++cnt) {
            if (cnt >= e.nc) BAD("dense", "row %zu has more than %zu entries", i, e.nc);
            size_t k = i + cnt * e.nr;
            if (e.m.b->known[k] && !eq(*it, e.m.b->v[k])) BAD("dense", "row %zu, column %zu differs", i, cnt);
          }
          if (cnt != e.nc) BAD("dense", "row %zu has %zu entries, expected %zu", i, cnt, e.nc);
        }
        for (size_t j = 0; j < e.nc && e.nr; ++j)
          if ((size_t)(d.col_cend(j) - d.col_cbegin(j)) != e.nr) BAD("dense", "column %zu has another length", j);
        break; }
    }
    for (auto &e : pool) {
      if (e.a->nrows() != e.nr || e.a->ncols() != e.nc) BAD("dense", "a %zux%zu matrix reports %zux%zu", e.nr, e.nc, (size_t)e.a->nrows(), (size_t)e.a->ncols());
      compare("dense", e.a->array(), e.m);
    }
    check_gone("dense operation");
  }
  void finish() {
    while (!pool.empty()) { { Lib l; pool.back().a.reset(); } pool.pop_back(); check_gone("dense destruction"); }
  }
};
void run() {
  uint64_t base = fault::live_blocks();
  int world = (int)sim::choose(11), n = 4 + (int)sim::choose(60);
  g_gone.clear();
  sim::sig(world);
  if (world <= 2) {
    if (world == 0) { Arrays<T> a; for (int k = 0; k < n; ++k) { sim::set_context("array operation %d", k); a.step(); } a.finish(); }
    else if (world == 1) { Arrays<I> a; for (int k = 0; k < n; ++k) { sim::set_context("array operation %d", k); a.step(); } a.finish(); }
    else { Arrays<P> a; for (int k = 0; k < n; ++k) { sim::set_context("array operation %d", k); a.step(); } a.finish(); }
  } else if (world <= 6) {
    Mats a;
    a.n0 = sim::pick<size_t>({5, 9, 14});
    for (int k = 0; k < n; ++k) { sim::set_context("matrix operation %d", k); a.step(); }
    a.finish();
  } else if (world == 7) augmented<hif::AugCRS<Crs>>(n);
  else if (world == 8) augmented<hif::AugCCS<Ccs>>(n);
  else if (world == 10) { DensePool a; for (int k = 0; k < n; ++k) { sim::set_context("dense operation %d", k); a.step(); } a.finish(); }
  else if (sim::chance(1, 2)) perms(n);
  else spvec(n);
  fault::disarm_all();
  sim::nontrivial();
  sim::describe("%s history of %d operations", world <= 2 ? "array" : world <= 6 ? "matrix" : world <= 8 ? "augmented matrix" : world == 10 ? "dense matrix" : "permutation or sparse vector", n);
  if (fault::live_blocks() != base) {
    fault::dump_live(4);
    BAD("leak", "%llu blocks are still allocated after every container is gone", (unsigned long long)(fault::live_blocks() - base));
  }
}
sim::Register reg("C19", run);
}  // namespace
