// A reference process: forked from the run before the library was used at all, it answers
// "what would a new object in a new process do" without sharing any state with the run.
#pragma once
#include <sys/prctl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include "world.hpp"

namespace world {
struct TwinReq { Fact f; Op o; bool nsp = false, nspt = false; size_t a0 = 0, b0 = 0; bool apply = true; };
template <class C>
class Twin {
 public:
  struct Res { int fact = OK, app = OK; Queries q; Out<std::complex<double>> out; };
  ~Twin() { if (_pid > 0) { ::close(_in); ::close(_out); int st; waitpid(_pid, &st, 0); } }
  bool on() const { return _pid > 0; }
  void start() {  // before the first use of the library
    int a[2], b[2];
    if (pipe(a) || pipe(b)) sim::violate("harness", "pipe failed");
    _pid = fork();
    if (_pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ::close(a[1]); ::close(b[0]);
      serve(a[0], b[1]);
      _exit(0);
    }
    ::close(a[0]); ::close(b[1]);
    _in = b[0]; _out = a[1];
  }
  Res ask(const TwinReq &r) {
    sim::count("probe.new_process_reference");
    Res R;
    put(_out, &r, sizeof r);
    size_t k = 0;
    Head h;
    if (!get(_in, &h, sizeof h)) _exit(3);  // the reference died: its own report stands
    R.fact = h.fact; R.app = h.app; R.q = h.q; R.out.call.status = h.app; R.out.call.what[0] = 0; R.out.iters = h.iters; R.out.flag = h.flag;
    k = h.nx;
    R.out.x.resize(k);
    if (k && !get(_in, R.out.x.data(), k * sizeof R.out.x[0])) _exit(3);
    return R;
  }

 private:
  struct Head { int fact, app, flag; size_t iters, nx; Queries q; };
  pid_t _pid = 0;
  int _in = -1, _out = -1;
  static bool get(int fd, void *p, size_t n) {
    char *c = (char *)p;
    while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; }
    return true;
  }
  static void put(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(3); c += k; n -= (size_t)k; }
  }
  static void serve(int in, int out) {
    TwinReq r;
    while (get(in, &r, sizeof r)) {
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        answer(r, out);
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (st) _exit(3);
    }
  }
  static void answer(const TwinReq &r, int out) {
    typedef typename C::T T;
    sim::set_context("in a new process");
    Head h;
    memset((void *)&h, 0, sizeof h);
    typename C::store A(gen::build<T>(r.f.spec), r.f.row, r.f.base), An = A;
    if (r.f.base) An = typename C::store(gen::build<T>(r.f.spec), r.f.row, 0);
    auto M = make<C>();
    h.fact = factorize<C>(*M, A, r.f.par, r.f.m0).status;
    if (r.nsp || r.nspt) {
      Lib l;
      if (r.nsp) M->nsp = hif::create_nsp_filter(r.a0, r.b0);
      if (r.nspt) M->nsp_tran = hif::create_nsp_filter(r.a0, r.b0);
    }
    h.q = query<C>(*M);
    Out<std::complex<double>> o;
    o.call.status = OK;
    if (r.apply) o = apply<C>(*M, An, r.o, r.f.spec.n);
    h.app = o.call.status; h.iters = o.iters; h.flag = o.flag; h.nx = o.x.size();
    put(out, &h, sizeof h);
    if (h.nx) put(out, o.x.data(), h.nx * sizeof o.x[0]);
  }
};
}  // namespace world
