// The search-space explorer on maps drawn here: what its pictures show.
#include "vh.h"
#include <dirent.h>
#include <sys/stat.h>
#define main p2d_main
#include "utils/pose2D_search_space_evaluator.cpp"
#undef main
using namespace vh;

struct Pgm { std::string magic; long w = 0, h = 0, max = 0; std::vector<long> px; };
static Pgm read(const std::string &name) {
  Pgm p; std::ifstream f{name, std::ios::binary};
  std::getline(f, p.magic); std::string l;
  if (f >> p.w >> p.h >> p.max) {}
  if (f) f.get();
  for (int c; f && (c = f.get()) != EOF; ) p.px.push_back(c);
  return p;
}
static Ev shown(const char *op, const std::string &name) {
  auto p = read(name); Ev ev(op);
  ev.s("magic", p.magic).i("w", p.w).i("h", p.h).i("max", p.max).a("px", p.px);
  return ev;
}
static void tidy() { sweep(); }

static const double U = 0.0002; // a unit
static void episode(Rng &r, long id) {
  auto map = UnboundedPlainGridMap{std::make_shared<LastWriteWinsGridCell>(), {100, 100, 0.1}};
  std::vector<long> m(100 * 100, 2);
  auto set = [&](long x, long y, long v) { // (corners right in a beam mislead the generator: C13's lasergen-corner)
    if (x < -50 || x > 49 || y < -50 || y > 49 || (std::abs(x) == std::abs(y) && v == 4)) return;
    m[size_t((y + 50) * 100 + x + 50)] = v;
    map.update({int(x), int(y)}, {v == 4, Occupancy{double(v) / 4, 1.0}, {0, 0}, 1.0});
  };
  bool dense = id % 12 == 1;
  long shape = r.in(0, 2);
  if (shape == 1 || r.chance(30)) for (long i = 0, n = r.in(1, 4); i < n; ++i) {
    long x = r.in(-40, 40), y = r.in(-40, 40), w = r.in(1, 20), h = r.in(1, 20), v = r.in(0, 3);
    for (long a = 0; a < w; ++a) for (long b = 0; b < h; ++b) set(x + a, y + b, v);
  }
  if (dense) {
    long w = r.in(4, 40), h = r.in(4, 40), x0 = -r.in(1, w - 2), y0 = -r.in(1, h - 2);
    for (long i = 0; i <= w; ++i) { set(x0 + i, y0, 4); set(x0 + i, y0 + h, 4); }
    for (long j = 0; j <= h; ++j) { set(x0, y0 + j, 4); if (r.chance(70)) set(x0 + w, y0 + j, 4); }
  }
  for (long i = 0, n = r.in(1, dense ? 10 : 5); i < n; ++i) {
    long x = r.in(-48, 48), y = r.in(-48, 48), len = r.chance(40) ? r.in(1, 6) : 1; bool hz = r.chance(50);
    if (!dense && std::abs(x) + std::abs(y) < 8) continue;
    for (long j = 0; j < len; ++j) set(hz ? x + j : x, hz ? y : y + j, 4);
  }
  for (long i = 0, n = r.in(0, 6); i < n; ++i) { long x = r.in(-48, 48), y = r.in(-48, 48); if (m[size_t((y + 50) * 100 + x + 50)] != 4) set(x, y, r.in(0, 3)); }
  auto scan = LaserScanGenerator{to_lsp(100, 270, 1000)}.laser_scan_2D(map, {0.05, 0.05, 0}, 1);
  size_t n = scan.points().size();
  if (n == 0) return; // nothing to score
  // (a step that does not divide a metre: the robot's own place shares its cell with another one)
  std::vector<long> steps{1250, 1500, 1850, 2300, 3100};
  if (n < 150 && r.chance(60)) steps = {625, 750, 350, 850};
  if (n < 20 && r.chance(60)) steps = {150, 350, 550};
  long step = r.pick(steps);
  std::vector<std::string> pts;
  for (auto &p : scan.points()) pts.push_back(arr(std::vector<long>{I(p.x(), 1 / U), I(p.y(), 1 / U)}));
  T().begin(Obj().i("id", id).i("step", step).i("reach", I(1.0, 1 / U)).raw("pts", arrs(pts)).a("m", m));
  tidy();
  std::stringstream hush; auto was = std::cout.rdbuf(hush.rdbuf());
  T().about("run_evaluation");
  run_evaluation(map, double(step) * U);
  std::cout.rdbuf(was);
  std::vector<std::string> names;
  if (auto d = opendir(".")) { while (auto en = readdir(d)) names.push_back(q(en->d_name)); closedir(d); }
  names.erase(std::remove_if(names.begin(), names.end(), [](const std::string &s) { return s[1] == '.'; }), names.end());
  std::sort(names.begin(), names.end());
  T().add(Ev("files").raw("names", arrs(names)));
  T().add(shown("scan", "scan_0.pgm"));
  T().add(shown("space", "sss_map_0.pgm"));
  T().end();
  tidy();
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 53 + 7);
  char dir[] = "explore-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) exit(77);
  for (long id = 1, n = a.n(48, 400); id <= n; ++id) episode(r, id);
  T().close();
  if (chdir("..") || rmdir(dir)) exit(77);
  return 0;
}
