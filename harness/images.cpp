// Text rasters drawn on maps, cecums, and images of maps.
#include "vh.h"
#include "maps.h"
#include <dirent.h>
#include <sys/stat.h>
#include <utils/data_generation/map_primitives.h>
#include <utils/data_generation/grid_map_patcher.h>
#include <utils/map_dumpers.h>
using namespace vh;

static std::string line_json(const std::vector<std::string> &ls) {
  std::vector<std::string> js;
  for (auto &s : ls) { std::vector<long> v; for (char c : s) v.push_back((unsigned char)c); js.push_back(arr(v)); }
  return arrs(js);
}
static void scan_cells(const GridMap &m, std::vector<std::string> &cells, long &odd) {
  auto e = map_ext(m);
  for (long x = e[0]; x < e[0] + e[2]; ++x)
    for (long y = e[1]; y < e[1] + e[3]; ++y) {
      auto &c = dynamic_cast<const LogCell &>(m[{int(x), int(y)}]);
      if (!c.log.empty()) cells.push_back(arr(std::vector<long>{x, y, X(c.occupancy().prob_occ), long(c.log.size())}));
      else if (c.occupancy().prob_occ != 0.25 || !c.is_unknown()) ++odd;
    }
}
template <typename M> static void draw_on(GridMapPatcher &p, M &m, std::istream &is, bool aut, DiscretePoint2D at, int wz, int hz, bool dflt) {
  if (aut) { if (dflt && wz == 1 && hz == 1) p.apply_text_raster(m, is); else p.apply_text_raster(m, is, wz, hz); }
  else if (dflt && wz == 1 && hz == 1) p.apply_text_raster(m, is, at); else p.apply_text_raster(m, is, at, wz, hz);
}
static void rasters(Args &a, Rng &r) {
  for (long ep = 0, n = a.n(200, 4000); ep < n; ++ep) {
    int kind = r.pick(std::vector<int>{UPLAIN, ULAZY, R_UPLAIN, R_ULAZY, M3_UPLAIN});
    auto m = make_map(kind, std::make_shared<LogCell>(1), int(r.in(1, 20)), int(r.in(1, 20)), 0.5);
    std::vector<std::string> lines;
    int nr = int(r.in(1, 3));
    std::string cec;
    for (int k = 0; k < nr; ++k) {
      if (r.chance(25)) {
        auto c = CecumTextRasterMapPrimitive{int(r.in(1, 6)), int(r.in(1, 6)), CecumTextRasterMapPrimitive::BoundPosition(r.in(0, 3))};
        std::string s; auto &is = c.to_stream();
        while (std::getline(is, s) && !s.empty()) lines.push_back(s);
      } else {
        bool ragged = r.chance(50);
        long w = r.in(1, 7), h = r.in(0, 6);
        for (long i = 0; i < h; ++i) {
          std::string s;
          for (long j = 0, c = ragged ? r.in(1, 8) : w; j < c; ++j) s += r.pick(std::vector<char>{' ', ' ', '+', '1', '0', '#', '.', '\t', 'x'});
          lines.push_back(s);
        }
      }
      if (k + 1 < nr) lines.push_back("");
    }
    std::string text;
    for (size_t i = 0; i < lines.size(); ++i) text += lines[i] + (i + 1 < lines.size() || r.chance(60) ? "\n" : "");
    T().begin(Obj().i("kind", kind).raw("lines", line_json(lines)));
    std::istringstream is{text};
    GridMapPatcher shared;
    bool one = r.chance(50);
    for (int k = 0, c = nr + int(r.in(0, 1)); k < c; ++k) {
      GridMapPatcher own;
      auto &p = one ? shared : own;
      bool aut = r.chance(40), dflt = r.chance(50);
      int wz = r.chance(40) ? 1 : int(r.in(1, 4)), hz = r.chance(40) ? 1 : int(r.in(1, 4));
      DiscretePoint2D at{int(r.in(-20, 20)), int(r.in(-20, 20))};
      if (r.chance(30)) at = {0, 0};
      T().about("draw " + std::to_string(k));
      if (kind == UPLAIN && r.chance(50)) draw_on(p, static_cast<UnboundedPlainGridMap &>(*m), is, aut, at, wz, hz, dflt);
      else draw_on(p, *m, is, aut, at, wz, hz, dflt);
      std::vector<std::string> cells; long odd = 0;
      scan_cells(*m, cells, odd);
      T().add(Ev("draw").t("auto", aut).a("at", {at.x, at.y}).i("wz", wz).i("hz", hz).raw("cells", arrs(cells)).i("odd", odd));
    }
    T().end();
  }
  static const char *Names[] = {"Left", "Right", "Top", "Bot"};
  long mx = a.n(7, 14);
  for (long w = 1; w <= mx; ++w) {
    T().begin(Obj().raw("lines", "[]"));
    for (long h = 1; h <= mx; ++h)
      for (int k = 0; k < 4; ++k) {
        T().about("cecum");
        auto c = k == 2 && r.chance(50) ? CecumTextRasterMapPrimitive{int(w), int(h)}
                                        : CecumTextRasterMapPrimitive{int(w), int(h), CecumTextRasterMapPrimitive::BoundPosition(k)};
        auto read = [&](int part) {
          std::vector<std::string> ls; std::string s; auto &is = c.to_stream();
          while (std::getline(is, s) && !s.empty() && --part) ls.push_back(s);
          return ls;
        };
        auto ls = read(1000);
        bool again = r.chance(50) ? (read(2), read(1000) == ls) : read(1000) == ls;
        std::vector<std::string> fr;
        for (auto &f : c.free_space()) fr.push_back(arr(std::vector<long>{X(f.bot()), X(f.top()), X(f.left()), X(f.right())}));
        T().add(Ev("cecum").i("w", w).i("h", h).s("closed", Names[k]).a("size", {c.width(), c.height()}).raw("lines", line_json(ls)).t("again", again).raw("free", arrs(fr)));
      }
    T().end();
  }
}

// ---- images ----
static std::string slurp(const std::string &f) {
  std::ifstream is{f, std::ios::binary};
  return std::string(std::istreambuf_iterator<char>(is), {});
}
static std::string digest(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  char b[40]; snprintf(b, 40, "%016llx-%zu", (unsigned long long)h, s.size());
  return b;
}
static std::string image_json(const std::string &s) { // per the PGM format: numbers separated by white space and comments
  size_t p = 2;
  auto number = [&]() -> long {
    for (; p < s.size() && (isspace((unsigned char)s[p]) || s[p] == '#');) {
      if (s[p] == '#') while (p < s.size() && s[p] != '\n') ++p; else ++p;
    }
    long v = -1;
    for (; p < s.size() && isdigit((unsigned char)s[p]) && v < 100000000; ++p) v = (v < 0 ? 0 : v) * 10 + (s[p] - '0');
    return v;
  };
  Obj o;
  o.s("magic", s.substr(0, 2) == "P5" ? "P5" : "other");
  o.i("w", number()); o.i("h", number()); o.i("max", number());
  std::vector<long> px;
  if (p < s.size() && isspace((unsigned char)s[p])) for (++p; p < s.size(); ++p) px.push_back((unsigned char)s[p]);
  return o.a("px", px).str();
}
static void images(Args &a, Rng &r) {
  char tmpl[] = "imagesXXXXXX";
  if (!mkdtemp(tmpl)) exit(77);
  std::string dir = tmpl;
  auto ls = [&] {
    std::vector<std::string> v;
    if (DIR *d = opendir(dir.c_str())) {
      while (dirent *x = readdir(d)) if (x->d_name[0] != '.') v.push_back(x->d_name);
      closedir(d);
    }
    std::sort(v.begin(), v.end());
    return v;
  };
  for (long ep = 0, n = a.n(120, 600); ep < n; ++ep) {
    int kind = int(r.in(0, KINDS - 1));
    bool many = r.chance(8); // many dumps of a small map
    int w = int(r.in(1, many ? 2 : 12)), h = int(r.in(1, many ? 2 : 12));
    auto m = make_map(kind, std::make_shared<LogCell>(1), w, h, r.pick(std::vector<double>{1, 0.1, 7}));
    std::vector<std::string> bases = {"m", "n"}, bj;
    std::vector<std::unique_ptr<GridMapToPgmDumber>> dumpers;
    for (auto &b : bases) { dumpers.push_back(std::make_unique<GridMapToPgmDumber>(dir + "/" + b)); bj.push_back(q(b)); }
    T().begin(Obj().i("kind", kind).a("ext", map_ext(*m)).i("proto", 16).raw("bases", arrs(bj)));
    auto dense = r.chance(50);
    auto content = [&] { // may be asked for outside of the map, too
      std::vector<double> v;
      auto e = map_ext(*m);
      for (long x = e[0]; x < e[0] + e[2]; ++x) for (long y = e[1]; y < e[1] + e[3]; ++y) v.push_back(m->occupancy({int(x), int(y)}));
      return v;
    };
    for (int k = 0, c = many ? 40 : int(r.in(2, dense ? 40 : 14)), id = 0; k < c; ++k) {
      auto e = map_ext(*m);
      if (r.chance(many ? 20 : dense ? 85 : 60)) {
        long x = r.in(e[0], e[0] + e[2] - 1), y = r.in(e[1], e[1] + e[3] - 1);
        if (unbounded(kind) && r.chance(many ? 0 : 10)) { x += r.in(-5, 5); y += r.in(-5, 5); }
        if (r.chance(15)) { x = r.chance(50) ? e[0] : e[0] + e[2] - 1; y = r.chance(50) ? e[1] : e[1] + e[3] - 1; }
        long v = r.pick(std::vector<long>{0, 64, 32, -64, -64, 16, 1, 63, 48, 80, -32, -1, 65});
        if (r.chance(20)) v = r.in(0, 64);
        T().about("write");
        m->update({int(x), int(y)}, log_obs(++id, double(v) / 64));
        T().add(Ev("write").a("c", {x, y}).i("v", v).a("ext", map_ext(*m)));
        continue;
      }
      auto before = content();
      T().about("dump");
      if (r.chance(75)) {
        int d = int(r.chance(70) ? 0 : 1);
        WorldMapObserver<GridMap> &o = *dumpers[d];
        o.on_map_update(*m);
        std::vector<std::string> fs;
        for (auto &f : ls()) fs.push_back(Obj().s("name", f).s("hash", digest(slurp(dir + "/" + f))).str());
        std::string last;
        { // the image is looked for under the name of the dumper's latest file
          long best = -1;
          for (auto &f : ls()) if (f.compare(0, 2, bases[d] + "_") == 0) { long v = atol(f.c_str() + 2); if (v > best) { best = v; last = f; } }
        }
        T().add(Ev("dump").i("dumper", d + 1).a("ext", map_ext(*m)).t("pure", content() == before).raw("files", arrs(fs))
                .raw("image", image_json(last.empty() ? "" : slurp(dir + "/" + last))));
      } else {
        std::string f = dir + "/.stream";
        { std::ofstream os{f, std::ios::binary}; GridMapToPgmDumber::dump_map(os, *m); }
        T().add(Ev("stream").a("ext", map_ext(*m)).t("pure", content() == before).raw("image", image_json(slurp(f))));
        unlink(f.c_str());
      }
    }
    for (auto &f : ls()) unlink((dir + "/" + f).c_str());
    T().end();
  }
  rmdir(dir.c_str());
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 101 + 7);
  if (a.mode == "rasters") rasters(a, r);
  else if (a.mode == "images") images(a, r);
  else return 77;
  T().close();
}
