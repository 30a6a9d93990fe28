#include "disk.hpp"
#include "fault.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif

namespace disk {
Plan plan;
std::map<std::string, std::string> files;
namespace {
struct Open { FILE *f; int fd; bool write; std::string name; uint64_t pos; sim::Rng rng; bool erred; uint64_t nwrites; Open() : f(nullptr), fd(-1), write(false), pos(0), rng(1), erred(false), nwrites(0) {} };
std::vector<Open *> opens;
uint64_t            n_read, n_calls, max_calls;
bool                lost_, read_err_, active;

Open *by_fd(int fd) { for (auto *o : opens) if (o->write && o->fd == fd) return o; return nullptr; }
Open *by_file(FILE *f) { for (auto *o : opens) if (o->f == f) return o; return nullptr; }

ssize_t cookie_read(void *c, char *buf, size_t n) {
  fault::Outside out;
  Open &o = *(Open *)c;
  const std::string &d = files[o.name];
  uint64_t end = d.size() < plan.read_eof_at ? d.size() : plan.read_eof_at;
  if (end < d.size() && o.pos >= end) sim::count("fault.truncated_read");
  uint64_t room = end > o.pos ? end - o.pos : 0;
  if (plan.read_error_at != ~0ull && !(plan.read_error_once && o.erred)) {
    if (o.pos >= plan.read_error_at) { o.erred = true; read_err_ = true; sim::count(plan.read_error_once ? "fault.read_interrupted" : "fault.read_error"); errno = plan.read_error_once ? EINTR : EIO; return -1; }
    if (plan.read_error_at - o.pos < room) room = plan.read_error_at - o.pos;
  }
  if (n > room) n = (size_t)room;
  if (plan.chunk && n > 1) { uint64_t k = 1 + o.rng.below(plan.chunk); if (k < n) { n = (size_t)k; sim::count("fault.short_read"); } }
  if (n) memcpy(buf, d.data() + o.pos, n);
  o.pos += n;
  n_read += n;
  return (ssize_t)n;
}
int cookie_close(void *) { return 0; }

ssize_t do_write(Open &o, const char *p, size_t n) {
  fault::Outside out;
  std::string &d = files[o.name];
  ++o.nwrites;
  if (plan.interrupt && o.nwrites % plan.interrupt == 0) { sim::count("fault.write_interrupted"); errno = EINTR; return -1; }
  if (!n) return 0;
  if (plan.short_writes) { uint64_t k = 1 + o.rng.below(plan.short_writes); if (k < n) { n = (size_t)k; sim::count("fault.short_write"); } }
  if (plan.write_error_at != ~0ull && !(plan.write_error_once && o.erred) && o.pos + n > plan.write_error_at) {
    o.erred = true; lost_ = true; sim::count("fault.write_error"); errno = EIO; return -1;
  }
  uint64_t room = plan.write_room > o.pos ? plan.write_room - o.pos : 0;
  if (!room) { lost_ = true; sim::count("fault.disk_full"); errno = ENOSPC; return -1; }
  if (n > room) n = (size_t)room;
  d.append(p, n);
  o.pos += n;
  return (ssize_t)n;
}
void tick() {
  if (++n_calls > max_calls) throw Hang();
}
}  // namespace

void reset() {
  plan = Plan(); files.clear(); n_read = n_calls = 0; lost_ = read_err_ = false; active = true;
  for (auto *o : opens) { if (o->write) syscall(SYS_close, o->fd); delete o; }
  opens.clear();
}
int      open_files() { return (int)opens.size(); }
uint64_t bytes_read() { return n_read; }
uint64_t calls() { return n_calls; }
bool     lost() { return lost_; }
bool     fired_read_error() { return read_err_; }
}  // namespace disk
using namespace disk;

extern "C" {
typedef FILE *(*fopen_t)(const char *, const char *);
typedef int (*fclose_t)(FILE *);
typedef char *(*fgets_t)(char *, int, FILE *);

FILE *fopen(const char *name, const char *mode) {
  static fopen_t real = (fopen_t)dlsym(RTLD_NEXT, "fopen");
  if (strncmp(name, "sim:/", 5)) return real(name, mode);
  fault::Outside out;
  if (plan.open_fail) { sim::count("fault.open_failed"); lost_ = true; errno = EACCES; return nullptr; }
  Open *o = new Open;
  o->name = name;
  o->rng  = sim::Rng(plan.chunk_seed);
  o->write = strchr(mode, 'w') != nullptr;
  lost_ = read_err_ = false;
  if (o->write) {
    files[name].clear();
    o->fd = memfd_create("sim", 0);
    o->f  = fdopen(o->fd, "w");
  } else {
    if (!files.count(name)) { delete o; errno = ENOENT; return nullptr; }
    cookie_io_functions_t io = {cookie_read, nullptr, nullptr, cookie_close};
    o->f      = fopencookie(o, "r", io);
    n_calls   = 0;
    max_calls = 64 + 4 * files[name].size();
  }
  opens.push_back(o);
  return o->f;
}
int fclose(FILE *f) {
  static fclose_t real = (fclose_t)dlsym(RTLD_NEXT, "fclose");
  Open *o = by_file(f);
  if (!o) return real(f);
  fault::Outside out;
  bool w = o->write;
  for (size_t i = 0; i < opens.size(); ++i) if (opens[i] == o) { opens.erase(opens.begin() + (long)i); break; }
  real(f);
  delete o;
  if (w && plan.close_fail) { sim::count("fault.close_failed"); lost_ = true; errno = EIO; return EOF; }
  return 0;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (active) if (Open *o = by_fd(fd)) return do_write(*o, (const char *)p, n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (active) if (Open *o = by_fd(fd)) {
    fault::Outside out;
    std::string all;
    for (int i = 0; i < k; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    return do_write(*o, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, k);
}
char *fgets(char *s, int n, FILE *f) {
  static fgets_t real = (fgets_t)dlsym(RTLD_NEXT, "fgets");
  if (active && by_file(f)) tick();
  return real(s, n, f);
}
#define SCAN(name, label)                                                      \
  int name(FILE *f, const char *fmt, ...) __asm__(label);                       \
  int name(FILE *f, const char *fmt, ...) {                                     \
    if (active && by_file(f)) tick();                                           \
    va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap);      \
    return r;                                                                   \
  }
SCAN(sim_scan_1, "fscanf")
SCAN(sim_scan_2, "__isoc99_fscanf")
SCAN(sim_scan_3, "__isoc23_fscanf")
}
