// Shared helpers of the trace drivers: ndjson episodes of integer-valued events.
#ifndef VH_H
#define VH_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>

namespace vh {
static const long NOT_A_NUMBER = 2000000001, TOO_BIG = 2000000002, INEXACT = 2000000003;

// a real value as a scaled integer (rounded)
inline long I(double v, double scale = 1) {
  if (std::isnan(v)) return NOT_A_NUMBER;
  double s = v * scale;
  if (std::abs(s) > 1.9e9) return s > 0 ? TOO_BIG : -TOO_BIG;
  return std::lround(s);
}
// a real value that has to be a multiple of 1/scale
inline long X(double v, double scale = 1) {
  long r = I(v, scale);
  if (r == NOT_A_NUMBER || r == TOO_BIG || r == -TOO_BIG) return r;
  return double(r) == v * scale ? r : INEXACT;
}
// a real value that has to be a multiple of 1/scale up to rounding noise
inline long A(double v, double scale = 1, double tol = 1e-6) {
  long r = I(v, scale);
  if (r == NOT_A_NUMBER || r == TOO_BIG || r == -TOO_BIG) return r;
  return std::abs(double(r) - v * scale) <= tol ? r : INEXACT;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { s = next() ^ (seed << 32); s = next(); } // far apart for near seeds
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long in(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); }
  bool chance(int pct) { return in(0, 99) < pct; }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[in(0, long(v.size()) - 1)]; }
};

inline std::string q(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <typename C> std::string arr(const C &v) {
  std::string r = "[";
  bool first = true;
  for (auto x : v) { if (!first) r += ","; first = false; r += std::to_string(x); }
  return r + "]";
}
template <typename C> std::string arrs(const C &v) { // of ready JSON texts
  std::string r = "[";
  bool first = true;
  for (auto &x : v) { if (!first) r += ","; first = false; r += x; }
  return r + "]";
}

struct Obj {
  std::string b;
  Obj &i(const char *k, long v) { return raw(k, std::to_string(v)); }
  Obj &t(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  Obj &s(const char *k, const std::string &v) { return raw(k, q(v)); }
  template <typename C> Obj &a(const char *k, const C &v) { return raw(k, arr(v)); }
  Obj &a(const char *k, std::initializer_list<long> v) { return raw(k, arr(std::vector<long>(v))); }
  Obj &raw(const char *k, const std::string &v) {
    if (!b.empty()) b += ",";
    b += "\""; b += k; b += "\":"; b += v;
    return *this;
  }
  std::string str() const { return "{" + b + "}"; }
};
struct Ev : Obj { explicit Ev(const std::string &op) { s("op", op); } };

class Trace {
public:
  static Trace &get() { static Trace t; return t; }
  void open(const char *path) {
    _path = path;
    _f = fopen(path, "w");
    if (!_f) { perror(path); exit(77); }
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, &Trace::on_crash);
  }
  void begin(const Obj &hdr) { _buf = "{" + hdr.b + (hdr.b.empty() ? "" : ",") + "\"ev\":["; _n = 0; _open = true; }
  void add(const Obj &e) {
    if (_n++) _buf += ",\n ";
    _buf += e.str();
  }
  // what is about to be done, reported if it crashes
  void about(const std::string &what) { _about = what; }
  void end() {
    std::string o;
    o.reserve(_buf.size() + 4);
    for (char c : _buf) if (c != '\n') o += c;
    o += "]}\n";
    if (_n > 0) { fwrite(o.data(), 1, o.size(), _f); ++_eps; }
    _open = false;
  }
  void close() { if (_f) { fclose(_f); _f = nullptr; } }
  long episodes() const { return _eps; }
private:
  static void on_crash(int sig) {
    Trace &t = get();
    signal(sig, SIG_DFL);
    int fd = ::open((t._path + ".crash").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) {
      ssize_t r = write(fd, t._buf.data(), t._buf.size());
      r = write(fd, "\nABOUT ", 7);
      r = write(fd, t._about.data(), t._about.size());
      (void)r;
      ::close(fd);
    }
    _exit(128 + sig);
  }
  FILE *_f = nullptr;
  std::string _path, _buf, _about;
  long _n = 0, _eps = 0;
  bool _open = false;
};
inline Trace &T() { return Trace::get(); }

struct Args {
  uint64_t seed; bool thorough; std::string mode;
  Args(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: driver trace seed tier [mode]\n"); exit(77); }
    T().open(argv[1]);
    seed = strtoull(argv[2], nullptr, 10);
    thorough = !strcmp(argv[3], "thorough");
    mode = argc > 4 ? argv[4] : "";
  }
  long n(long quick, long thor) const { return thorough ? thor : quick; }
};
// removes every file of the current (scratch) directory and names those that are not among the known ones
inline std::vector<std::string> sweep(const std::vector<std::string> &known = {}) {
  std::vector<std::string> all, left;
  if (auto d = opendir(".")) { while (auto en = readdir(d)) all.push_back(en->d_name); closedir(d); }
  std::sort(all.begin(), all.end());
  for (auto &n : all) {
    if (n == "." || n == "..") continue;
    ::remove(n.c_str());
    if (std::find(known.begin(), known.end(), n) == known.end()) left.push_back(n);
  }
  return left;
}
} // namespace vh
#endif
