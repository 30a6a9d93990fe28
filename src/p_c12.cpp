// C12: reading damaged, truncated or failing files is safe, bounded and honest.
#include "iotypes.hpp"
using namespace world;
using namespace io;
namespace {
const char *NASTY[] = {"-1", "0", "99999999999999999999", "2147483648", "4294967297", "-2147483649", "9223372036854775807", "1e9", "1.5", "x", "%", "nan", "inf", "", "0x10", "1 1", "1e400", "--3", "18446744073709551615", "65536", "40000"};

struct Outcome { Call c; bool sparse = false; };

template <class CS>
void check_structure(const CS &A, bool row, const char *how) {
  size_t np = row ? A.nrows() : A.ncols(), ns = row ? A.ncols() : A.nrows();
  if (A.ind_start().size() == 0 && np == 0) return;
  if (A.ind_start().size() < np + 1) sim::violate("C12:structure", "%s: start array has %zu entries for %zu lines", how, (size_t)A.ind_start().size(), np);
  if (A.ind_start()[0] != 0) sim::violate("C12:structure", "%s: first start is not zero", how);
  for (size_t i = 0; i < np; ++i) if (A.ind_start()[i + 1] < A.ind_start()[i]) sim::violate("C12:structure", "%s: starts decrease", how);
  size_t nz = (size_t)A.ind_start()[np];
  if (A.inds().size() < nz || A.vals().size() < nz) sim::violate("C12:structure", "%s: arrays too short", how);
  for (size_t k = 0; k < nz; ++k) if (A.inds()[k] < 0 || (size_t)A.inds()[k] >= ns) sim::violate("C12:structure", "%s: index %ld of %zu", how, (long)A.inds()[k], ns);
}

void run() {
  disk::reset();
  sim::Rng g(sim::choose(1u << 30) + 12);
  bool cplx_file = CPLX != sim::chance(1, 16), sparse = !sim::chance(1, 4);
  mm::Model m = mm::draw(sparse, cplx_file, g, sim::chance(1, 3) ? 60 : 8);
  mm::Rendered R = mm::render(m, g, sim::chance(1, 4));
  std::string s = R.s;
  // damage
  int  ndam = (int)sim::choose(4);
  bool header_intact = true, pure = true;
  long long ann[3] = {m.rows, m.cols, (long long)m.e.size()};
  for (int d = 0; d < ndam && !s.empty(); ++d) {
    uint32_t kind = sim::choose(9);
    size_t   pos = sim::chance(1, 3) ? sim::choose((uint32_t)std::min(s.size(), R.header_end) + 1) : sim::choose((uint32_t)s.size());
    if (pos >= s.size()) pos = s.size() - 1;
    sim::log("damage %u at %zu of %zu", kind, pos, s.size());
    pure = false;
    switch (kind) {
      case 0: s[pos] = (char)(s[pos] ^ (1 << sim::choose(8))); sim::count("fault.bit_flip"); break;
      case 1: s.erase(pos, 1 + sim::choose(20)); sim::count("fault.bytes_lost"); break;
      case 2: { std::string t; for (uint32_t k = 1 + sim::choose(12); k; --k) t += (char)sim::choose(256); s.insert(pos, t); sim::count("fault.garbage"); break; }
      case 3: s.insert(pos, std::string(66 + sim::choose(3000), (char)sim::pick<int>({'a', '1', '%', ' ', '\n', 0, '9'}))); sim::count("fault.long_token"); break;
      case 4: { size_t n = 1 + sim::choose(200); s.insert(sim::choose((uint32_t)s.size()), s.substr(pos, n)); sim::count("fault.block_twice"); break; }
      case 5: { size_t n = std::min(s.size() - pos, (size_t)1 + sim::choose(512)); for (size_t k = 0; k < n; ++k) s[pos + k] = 0; sim::count("fault.zeroed_block"); break; }
      default: {  // one number token replaced
        if (d) { --d; ++ndam; if (ndam > 12) { ndam = 0; } }
        if (R.tokens.empty() || s != R.s) break;
        size_t k = sim::chance(1, 2) ? sim::choose(sparse ? 3 : 2) : sim::choose((uint32_t)R.tokens.size());
        if (k >= R.tokens.size()) k = 0;
        size_t a = R.tokens[k], b = a;
        while (b < s.size() && !isspace((unsigned char)s[b])) ++b;
        const char *t = NASTY[sim::choose(sizeof NASTY / sizeof *NASTY)];
        bool num = *t && strspn(t, "-0123456789") == strlen(t) && strcmp(t, "--3");
        if (sparse && k == 2 && num && strlen(t) < 19 && ndam == 1) { ann[2] = atoll(t); pos = R.header_end; }  // the announced count is known
        s.replace(a, b - a, t);
        sim::count("fault.nasty_number");
        if (!(sparse && k == 2 && pos == R.header_end)) pos = a;
      }
    }
    if (pos < R.header_end) header_intact = false;
    if (kind == 4) header_intact = false;
  }
  size_t cut = ~0ull;
  disk::files["sim:/in.mm"] = s;
  disk::plan = disk::Plan();
  disk::plan.chunk = sim::chance(1, 2) ? 1 + sim::choose(300) : 0;
  disk::plan.chunk_seed = sim::choose(1u << 16);
  uint32_t del = sim::choose(6);
  if (del == 1 || del == 2) { cut = sim::chance(1, 3) && s.size() > 12 ? s.size() - sim::choose(12) : sim::choose((uint32_t)s.size() + 1); disk::plan.read_eof_at = cut; }
  if (del == 3 || del == 4) { disk::plan.read_error_at = sim::choose((uint32_t)s.size() + 1); disk::plan.read_error_once = del == 4; }
  bool armed = sim::chance(1, 6);
  int  api = (int)sim::choose(4);
  bool wide = sim::chance(1, 3), used = sim::chance(1, 2);
  sim::set_context("%s file of %zu bytes, %d damages, cut %zd, error at %zd, interface %d", sparse ? "sparse" : "vector", s.size(), ndam, (ssize_t)cut, (ssize_t)disk::plan.read_error_at, api);
  fault::set_alloc_limit(64ull << 20);
  uint64_t live0 = fault::live_blocks();
  Call c;
  size_t got = 0;
  size_t M = 0, N = 0;
  bool hang = false;
  fault::reset_alloc_count();
  if (armed) fault::arm_alloc(sim::choose(14), 1 + sim::choose(2));
  auto attempt = [&](auto f) { c = guarded([&] { try { f(); } catch (const disk::Hang &) { hang = true; throw; } }); };
  auto done = [&] { if (armed && fault::alloc_faults_fired()) sim::count("fault.alloc_fail", fault::alloc_faults_fired()); fault::disarm_alloc(); };
  // the interface follows the file now and then the other kind is asked for
  bool as_sparse = sparse != sim::chance(1, 12);
  auto generic = [&](auto tag) {
    typedef decltype(tag) I;
    if (!as_sparse) {
      hif::Array<T> v(used ? 5 : 0);
      attempt([&] { v.read_mm("sim:/in.mm"); });
      done();
      if (c.ok()) { M = v.size(); N = 1; got = v.size(); volatile io::R sink = 0; for (size_t i = 0; i < v.size(); ++i) { io::R a, b; get(v[i], a, b); sink = sink + a; } }
    } else if (api == 0 || api == 1) {
      hif::CRS<T, I> A; hif::CCS<T, I> B;
      if (used) { A = hif::CRS<T, I>(9, 9); B = hif::CCS<T, I>(7, 4); }
      attempt([&] { if (api == 0) A.read_mm("sim:/in.mm"); else B.read_mm("sim:/in.mm"); });
      done();
      if (api == 0) check_structure(A, true, c.ok() ? "result" : "object after the error"); else check_structure(B, false, c.ok() ? "result" : "object after the error");
      got = api == 0 ? A.nnz() : B.nnz(); M = api == 0 ? A.nrows() : B.nrows(); N = api == 0 ? A.ncols() : B.ncols();
    } else {
      hif::Array<I> r, k; hif::Array<T> v;
      attempt([&] { hif::read_mm_sparse("sim:/in.mm", M, N, r, k, v); });
      done();
      if (c.ok()) {
        if (r.size() != v.size() || k.size() != v.size()) sim::violate("C12:structure", "arrays of different length");
        for (size_t q = 0; q < v.size(); ++q) if (r[q] < 0 || k[q] < 0 || (size_t)r[q] >= M || (size_t)k[q] >= N) sim::violate("C12:structure", "entry (%ld,%ld) of a %zu x %zu matrix", (long)r[q], (long)k[q], M, N);
        got = v.size();
      }
    }
  };
  if (wide) generic(0l); else generic(0);
  sim::log("%s %s, %zu x %zu, %zu entries", sname(c.status), c.what, M, N, got);
  if (hang) sim::violate("C12:unbounded", "input routines were called %lu times for %zu bytes", (unsigned long)disk::calls(), s.size());
  if (disk::open_files()) sim::violate("C12:handle-leak", "the file is still open (%s %s)", sname(c.status), c.what);
  if (fault::live_blocks() != live0) sim::violate("C12:memory", "%ld blocks are still allocated", (long)(fault::live_blocks() - live0));
  if (c.status == OTHER) sim::violate("C12:exception", "an exception of unknown type was raised");
  if (c.ok()) {
    if (disk::fired_read_error()) sim::violate("C12:silent-error", "the stream failed, the result was returned as complete");
    if (as_sparse != sparse && pure) sim::violate("C12:kind", "a %s file was accepted as %s", sparse ? "coordinate" : "array", as_sparse ? "matrix" : "vector");
    if (cplx_file != CPLX && pure) sim::violate("C12:kind", "a file of the other scalar kind was accepted");
    if (pure && cut != ~0ull && cut <= R.last_token) sim::violate("C12:truncated", "the file was cut at byte %zu, before its last number (byte %zu), and accepted", cut, R.last_token);
    if (header_intact && cut >= R.header_end && disk::plan.read_error_at >= R.header_end) {
      size_t lo = (size_t)(sparse ? ann[2] : ann[0]), hi = m.storage == mm::GENERAL || !sparse ? lo : 2 * lo;
      if ((sparse && ((long long)M != ann[0] || (long long)N != ann[1])) || got < lo || got > hi) sim::violate("C12:announced", "%zu x %zu with %zu entries returned, the file announces %lld x %lld with %zu", M, N, got, ann[0], ann[1], lo);
    }
  } else if (pure && cut == ~0ull && disk::plan.read_error_at == ~0ull && !armed && sparse == as_sparse && cplx_file == CPLX)
    sim::violate("C12:rejected", "an undamaged file is rejected: %s %s", sname(c.status), c.what);
  // the next read of an undamaged file works
  if (sim::chance(1, 3) && cplx_file == CPLX && sparse) {
    disk::plan = disk::Plan();
    disk::files["sim:/in.mm"] = R.s;
    hif::CRS<T, int> A;
    Call c2 = guarded([&] { A.read_mm("sim:/in.mm"); });
    if (!c2.ok() || (long)A.nrows() != m.rows) sim::violate("C12:afterwards", "an undamaged file cannot be read afterwards: %s %s", sname(c2.status), c2.what);
  }
  if (!pure || cut != ~0ull || disk::fired_read_error() || armed) sim::nontrivial();
  sim::event((uint64_t)c.status * 1000 + got);
  sim::sig((uint64_t)c.status); sim::sig(s.size()); sim::sig(cut); sim::sig(disk::plan.read_error_at); sim::sig((uint64_t)(api + 4 * as_sparse)); 
  sim::describe("%s file of %zu bytes with %d damages, delivery %u: %s", sparse ? "coordinate" : "array", s.size(), ndam, del, c.ok() ? "read" : c.what);
}
sim::Register reg("C12", run);
}  // namespace
