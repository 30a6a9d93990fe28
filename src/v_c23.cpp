// One build configuration of the library for C23: compiled several times with other macros, its namespaces renamed.
#include "world.hpp"
#include "v23.hpp"
namespace {
using namespace world;
typedef C0 C;
typedef C::T T;
void *mk() { return make<C>().release(); }
void dr(void *m) { std::unique_ptr<C::prec> p((C::prec *)m); world::drop<C>(p); }
void fac(void *m, const void *fact, const void *coo, void *call) {
  const Fact &f = *(const Fact *)fact;
  C::store A(*(const gen::Coo<T> *)coo, f.row, f.base);
  *(Call *)call = world::factorize<C>(*(C::prec *)m, A, f.par, f.m0);
}
void cl(void *m) { Lib l; ((C::prec *)m)->clear(); }
void qu(void *m, void *q) { *(Queries *)q = world::query<C>(*(C::prec *)m); }
void ap(void *m, const void *fact, const void *coo, const void *op, void *out) {
  const Fact &f = *(const Fact *)fact;
  C::store A(*(const gen::Coo<T> *)coo, f.row, 0);
  *(Out<std::complex<double>> *)out = world::apply<C>(*(C::prec *)m, A, *(const Op *)op, (size_t)f.spec.n);
}
}  // namespace
#define CAT2(a, b, c) a##b##_##c
#define CAT(a, b, c) CAT2(a, b, c)
extern "C" const V23 CAT(v23_, CFG, VAR) = {VARNAME, mk, dr, fac, cl, qu, ap};
