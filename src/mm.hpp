// Small reference model of MatrixMarket files: logical content, rendering with every liberty the format gives, strict parsing.
#pragma once
#include <algorithm>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include "sim.hpp"

namespace mm {
enum { GENERAL, SYMM, HERM, SKEW };
struct Val { long double r, i; };
struct Text { std::string r, i; };  // spelling of the numbers
struct Model {                      // what the file says
  bool sparse = true, complex = false;
  int  storage = GENERAL;
  long rows = 0, cols = 0;
  std::vector<std::pair<std::pair<long, long>, Text>> e;  // zero-based, in file order (sparse) or rows entries (dense)
};
struct Rendered { std::string s; size_t header_end = 0, last_token = 0, last_end = 0; std::vector<size_t> tokens; };

inline std::string spell(sim::Rng &r) {
  char b[64];
  double v = r.sym();
  switch (r.below(12)) {
    case 0: snprintf(b, sizeof b, "%d", (int)r.below(200) - 100); break;
    case 1: snprintf(b, sizeof b, "%.17g", v * 1e3); break;
    case 2: snprintf(b, sizeof b, "%.6e", v); break;
    case 3: snprintf(b, sizeof b, "%+.9E", v * 1e-3); break;
    case 4: snprintf(b, sizeof b, "%d.", (int)r.below(50) - 25); break;
    case 5: snprintf(b, sizeof b, ".%u", 1 + r.below(9999)); break;
    case 6: snprintf(b, sizeof b, "%.12f", v); break;
    case 7: snprintf(b, sizeof b, "%g", v * 1e30); break;
    case 8: snprintf(b, sizeof b, "%.17g", v * 1e-300); break;
    case 9: snprintf(b, sizeof b, "00%u.50", r.below(99)); break;
    case 10: snprintf(b, sizeof b, "%ue%+d", 1 + r.below(9), (int)r.below(20) - 10); break;
    default: snprintf(b, sizeof b, "%.16e", v);
  }
  return b;
}
inline Model draw(bool sparse, bool cplx, sim::Rng &r, int maxn) {
  Model m;
  m.sparse = sparse; m.complex = cplx;
  if (!sparse) {
    m.rows = (long)r.below((uint32_t)maxn + 1); m.cols = 1;
    for (long i = 0; i < m.rows; ++i) m.e.push_back({{i, 0}, {spell(r), spell(r)}});
    return m;
  }
  m.storage = r.below(2) ? GENERAL : 1 + (int)r.below(3);
  m.rows = 1 + (long)r.below((uint32_t)maxn);
  m.cols = m.storage != GENERAL ? m.rows : 1 + (long)r.below((uint32_t)maxn);
  std::map<std::pair<long, long>, Text> seen;
  uint32_t nz = r.below((uint32_t)(3 * maxn + 1));
  for (uint32_t k = 0; k < nz; ++k) {
    long i = (long)r.below((uint32_t)m.rows), j = (long)r.below((uint32_t)m.cols);
    if (m.storage != GENERAL && i < j) std::swap(i, j);
    if (m.storage == SKEW && i == j) continue;
    Text t{spell(r), spell(r)};
    if (m.storage == HERM && i == j) t.i = "0";
    seen[{i, j}] = t;
  }
  for (auto &p : seen) m.e.push_back(p);
  if (r.below(2)) for (size_t k = m.e.size(); k > 1; --k) std::swap(m.e[k - 1], m.e[r.below((uint32_t)k)]);  // any order
  return m;
}
inline Rendered render(const Model &m, sim::Rng &r, bool plain = false) {
  Rendered R;
  std::string &s = R.s;
  std::string  nl = !plain && r.below(6) == 0 ? "\r\n" : "\n";
  auto word = [&](std::string w) { if (!plain) { uint32_t c = r.below(4); for (auto &x : w) if (c == 1 || (c == 2 && r.below(2))) x = (char)toupper(x); } return w; };
  auto blank = [&](bool lead) { std::string b = lead ? "" : " "; if (!plain) { uint32_t k = r.below(8) ? 0 : r.below(5); while (k--) b += r.below(3) ? " " : "\t"; } return b; };
  auto empty_lines = [&] { if (!plain && r.below(6) == 0) for (uint32_t k = 1 + r.below(2); k; --k) s += blank(true) + nl; };
  auto number = [&](const std::string &t) { R.tokens.push_back(s.size()); R.last_token = s.size(); s += t; R.last_end = s.size(); };
  auto index = [&](long v) { std::string t = std::to_string(v); if (!plain && r.below(12) == 0) t = (r.below(2) ? "0" : "+") + t; return t; };
  static const char *st[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
  s = "%%MatrixMarket" + blank(false) + word("matrix") + blank(false) + word(m.sparse ? "coordinate" : "array") + blank(false) + word(m.complex ? "complex" : "real") + blank(false) + word(st[m.storage]) + blank(true) + nl;
  if (!plain) for (uint32_t k = r.below(4); k; --k) {
    s += "%";
    uint32_t len = r.below(8) ? r.below(60) : r.below(1015);
    for (uint32_t q = 0; q < len; ++q) s += (char)(32 + r.below(95));
    s += nl;
    empty_lines();
  }
  s += blank(true);
  number(index(m.rows)); s += blank(false); number(index(m.cols));
  if (m.sparse) { s += blank(false); number(index((long)m.e.size())); }
  s += blank(true) + nl;
  R.header_end = s.size();
  for (auto &e : m.e) {
    empty_lines();
    s += blank(true);
    if (m.sparse) { number(index(e.first.first + 1)); s += blank(false); number(index(e.first.second + 1)); s += blank(false); }
    number(e.second.r);
    if (m.complex) { s += blank(false); number(e.second.i); }
    s += blank(true) + nl;
  }
  if (!plain) {
    if (r.below(4) == 0) { while (s.size() > R.last_end) s.pop_back(); }  // no newline at the end
    else empty_lines();
  }
  return R;
}
// full (expanded) content
inline std::map<std::pair<long, long>, Text> expand(const Model &m, std::map<std::pair<long, long>, int> &sign) {
  std::map<std::pair<long, long>, Text> o;
  for (auto &e : m.e) {
    long i = e.first.first, j = e.first.second;
    o[{i, j}] = e.second; sign[{i, j}] = 0;
    if (m.sparse && m.storage != GENERAL && i != j) { o[{j, i}] = e.second; sign[{j, i}] = m.storage; }
  }
  return o;
}
// strict parse of a file written by the library
inline bool parse_written(const std::string &s, Model &m, std::string &why) {
  size_t p = 0;
  auto line = [&](std::string &l) { if (p >= s.size()) return false; size_t q = s.find('\n', p); if (q == std::string::npos) { why = "last line is not terminated"; return false; } l = s.substr(p, q - p); p = q + 1; return true; };
  std::string l;
  if (!line(l)) { why = "no first line"; return false; }
  std::vector<std::string> w;
  auto split = [&](const std::string &t) { w.clear(); size_t a = 0; while (a < t.size()) { while (a < t.size() && isspace((unsigned char)t[a])) ++a; size_t b = a; while (b < t.size() && !isspace((unsigned char)t[b])) ++b; if (b > a) w.push_back(t.substr(a, b - a)); a = b; } };
  split(l);
  if (w.size() != 5 || w[0] != "%%MatrixMarket" || w[1] != "matrix" || (w[2] != "coordinate" && w[2] != "array") || (w[3] != "real" && w[3] != "complex") || w[4] != "general") { why = "first line: " + l; return false; }
  m.sparse = w[2] == "coordinate"; m.complex = w[3] == "complex";
  do { if (!line(l)) { why = "no size line"; return false; } } while (l.empty() || l[0] == '%');
  split(l);
  auto integer = [&](const std::string &t, long &v) { char *e; v = strtol(t.c_str(), &e, 10); return !*e && !t.empty(); };
  long nz = 0;
  if (w.size() != (m.sparse ? 3u : 2u) || !integer(w[0], m.rows) || !integer(w[1], m.cols) || (m.sparse && !integer(w[2], nz))) { why = "size line: " + l; return false; }
  if (!m.sparse) nz = m.rows * m.cols;
  for (long k = 0; k < nz; ++k) {
    if (!line(l)) { why = "file ends after " + std::to_string(k) + " of " + std::to_string(nz) + " entries"; return false; }
    split(l);
    size_t want = (m.sparse ? 2 : 0) + 1 + (m.complex ? 1 : 0);
    long i = k, j = 0;
    if (w.size() != want || (m.sparse && (!integer(w[0], i) || !integer(w[1], j)))) { why = "entry line: " + l; return false; }
    if (m.sparse) { --i; --j; if (i < 0 || j < 0 || i >= m.rows || j >= m.cols) { why = "entry out of range: " + l; return false; } }
    Text t{w[m.sparse ? 2 : 0], m.complex ? w[want - 1] : "0"};
    for (auto *x : {&t.r, &t.i}) { char *e; strtold(x->c_str(), &e); if (*e || x->empty()) { why = "number: " + l; return false; } }
    m.e.push_back({{i, j}, t});
  }
  while (line(l)) if (l.find_first_not_of(" \t\r") != std::string::npos) { why = "extra line: " + l; return false; }
  return why.empty();
}
}  // namespace mm
