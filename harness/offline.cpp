// The offline matching tool (sm_runner) on files written here.
#include "vh.h"
#include <sys/wait.h>
#define main sm_runner_main
#include "utils/sm_runner.cpp"
#undef main
using namespace vh;

static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static void put(const std::string &f, const std::string &t) { std::ofstream o{f, std::ios::binary}; o << t; }
static int call(std::vector<std::string> args, std::string &out) {
  args.insert(args.begin(), "sm_runner");
  std::vector<char *> av;
  for (auto &a : args) av.push_back(&a[0]);
  av.push_back(nullptr);
  std::stringstream said;
  auto was = std::cout.rdbuf(said.rdbuf());
  int rc = sm_runner_main(int(args.size()), av.data());
  std::cout.rdbuf(was);
  out = said.str();
  return rc;
}
static long answers(const std::string &out, std::string *line = nullptr) {
  long n = 0; std::istringstream is{out}; std::string l;
  while (std::getline(is, l)) if (l.compare(0, 11, "Pose delta:") == 0) { ++n; if (line) *line = l; }
  return n;
}
static const double U = 1.0 / 16, C = 8; // a unit; units in a cell

static void episode(Rng &r, long id) {
  T().begin(Obj().i("id", id));
  for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
    // the configuration
    auto kind = r.pick(std::vector<std::string>{"unbounded_plain"}); // (the other maps have no saved state)
    auto sm = r.pick(std::vector<std::string>{"BF", "BF", "BF", "idle", "HC", "MC", "HC_FIXED", "BF_M3RSM"});
    bool any = kind.find("unbounded") == 0;
    if (sm == "BF_M3RSM" && !any) sm = "BF"; // (such maps have to grow)
    long w = r.in(30, 36), h = r.in(30, 36);
    long bf[3][3]; // from, to, step
    for (int d = 0; d < 2; ++d) { bf[d][2] = 2 * r.in(1, 6); bf[d][0] = -bf[d][2] * r.in(0, 3); bf[d][1] = bf[d][0] + bf[d][2] * r.in(0, 4); }
    bf[2][2] = 1; bf[2][0] = r.in(-1, 0); bf[2][1] = bf[2][0] + r.in(0, 2);
    if (r.chance(50)) bf[2][0] = bf[2][1] = 0;
    std::vector<std::pair<std::string, std::string>> ps{
      {"slam/map/width_in_meters", num(double(w) * C * U)}, {"slam/map/height_in_meters", num(double(h) * C * U)}, {"slam/map/meters_per_cell", num(C * U)},
      {"slam/mapping/grid/type", kind}, {"slam/mapping/grid/area/type", "mean_probability"}, {"slam/scmtch/type", sm}, {"slam/scmtch/spe/type", "wmpp"},
      {"slam/scmtch/spe/wmpp/weighting/type", "even"}, {"slam/scmtch/oope/type", sm == "BF_M3RSM" ? "max" : "obstacle"}, {"slam/scmtch/oope/oie/type", "discrepancy"},
      {"slam/scmtch/MC/seed", std::to_string(r.in(1, 1000))}, {"slam/scmtch/MC/attempts_limit", "40"},
      {"slam/scmtch/BF_M3RSM/limits/x_translation", "0.5"}, {"slam/scmtch/BF_M3RSM/limits/y_translation", "0.5"}, {"slam/scmtch/BF_M3RSM/limits/rotation", "0.05"},
      {"slam/scmtch/BF_M3RSM/accuracy/translation", "0.25"}, {"slam/scmtch/BF_M3RSM/accuracy/rotation", "0.025"}};
    // some points may be left out of the matching: all but every skip-th, and those beyond reach
    long skip = r.chance(35) ? r.in(1, 3) : 0, reach = r.chance(25) ? r.in(4, 24) : -1; // reach in 2 units, and a bit
    if (skip) ps.push_back({"slam/scmtch/spe/wmpp/sp_skip_rate", std::to_string(skip)});
    if (reach >= 0) ps.push_back({"slam/scmtch/spe/wmpp/sp_max_usable_range", num((2 * reach + 0.01) * U)});
    const char *D[] = {"x", "y", "t"};
    for (int d = 0; d < 3; ++d) {
      double q = d == 2 ? M_PI / 2 : U;
      // (a turn's upper limit lies between the last step and the next)
      ps.push_back({std::string("slam/scmtch/BF/") + D[d] + "/from", num(double(bf[d][0]) * q)});
      ps.push_back({std::string("slam/scmtch/BF/") + D[d] + "/to", num(double(bf[d][1]) * q + (d == 2 ? 0.25 : 0.0))});
      ps.push_back({std::string("slam/scmtch/BF/") + D[d] + "/step", num(double(bf[d][2]) * q)});
    }
    std::string cfg;
    for (auto &p : ps) cfg += p.first + "=" + p.second + "\n";
    put("sm.properties", cfg);
    auto props = FilePropertiesProvider{}; props.append_file_content("sm.properties");
    // the map: a few walls; some maps have grown before
    std::stringstream hush; auto was = std::cout.rdbuf(hush.rdbuf());
    auto map = init_grid_map(props);
    std::cout.rdbuf(was);
    std::map<std::pair<long, long>, bool> cells;
    auto set = [&](long x, long y, bool v) { if (cells.count({x, y})) return; cells[{x, y}] = v; map->update({int(x), int(y)}, {v, Occupancy{v ? 1.0 : 0.0, 1.0}, {(x + 0.5) * C * U, (y + 0.5) * C * U}, 1.0}); };
    // (free cells next to unseen ones mislead the multi-resolution matcher: C17's m3rsm-unknown-prior)
    long far = any && r.chance(30) ? r.in(20, 40) : 8;
    for (int i = 0, c = int(r.in(2, 12)); i < c; ++i) {
      long x = r.in(-8, 8), y = r.in(-8, 8), len = r.in(1, 5); bool v = r.chance(65), hz = r.chance(50);
      for (long j = 0; j < len; ++j) set(hz ? x + j : x, hz ? y : y + j, v);
    }
    if (far > 8) set(far, -r.in(0, 10), true);
    auto buf = map->save_state();
    put("sm.map", std::string(buf.begin(), buf.end()));
    // the pose and the scan
    long px = 2 * r.in(-16, 16) + 1, py = 2 * r.in(-16, 16) + 1, pq = r.chance(50) ? 0 : r.in(-1, 2);
    put("sm.pose2D", num(px * U) + " " + num(py * U) + " " + num(pq * M_PI / 2));
    LaserScan2D scan;
    std::vector<std::string> pts;
    bool copy = r.chance(60); // a scan that fits the map somewhere in the window
    long ox = px + bf[0][0] + bf[0][2] * r.in(0, 2), oy = py + bf[1][0] + bf[1][2] * r.in(0, 2), oq = ((pq + r.in(bf[2][0], bf[2][1])) % 4 + 4) % 4;
    for (int i = 0, c = r.chance(8) ? 0 : int(r.in(1, skip ? 12 : 8)); i < c; ++i) {
      long a = 2 * r.in(-20, 20), b = 2 * r.in(-20, 20); bool hit = r.chance(88);
      if (copy && r.chance(80)) {
        auto it = cells.begin(); std::advance(it, r.in(0, long(cells.size()) - 1));
        long dx = it->first.first * 8 + 2 * r.in(0, 3) + 1 - ox, dy = it->first.second * 8 + 2 * r.in(0, 3) + 1 - oy;
        if (it->second && std::abs(dx) < 90 && std::abs(dy) < 90) { a = oq == 0 ? dx : oq == 1 ? dy : oq == 2 ? -dx : -dy; b = oq == 0 ? dy : oq == 1 ? -dx : oq == 2 ? -dy : dx; }
      } else if (r.chance(6)) a = r.chance(50) ? 600 : -600; // beyond every map that does not grow
      scan.points().push_back(ScanPoint2D::make_polar(std::hypot(a * U, b * U), std::atan2(double(b), double(a)), hit));
      pts.push_back(arr(std::vector<long>{a, b, hit}));
    }
    { std::ofstream o{"sm.scan2D"}; o << scan; }
    std::vector<std::string> occ, free, win;
    for (auto &c : cells) (c.second ? occ : free).push_back(arr(std::vector<long>{c.first.first, c.first.second}));
    for (auto &b : bf) win.push_back(arr(std::vector<long>(b, b + 3)));
    T().about("matching with " + sm + " in a map of kind " + kind);
    std::string out, line;
    Ev e("run");
    e.s("sm", sm).s("kind", kind).i("skip", skip).i("reach", 2 * reach).raw("bf", arrs(win)).a("pose", {px, py, ((pq % 4) + 4) % 4}).raw("pts", arrs(pts)).raw("occ", arrs(occ)).raw("free", arrs(free))
      .raw("ext", Obj().t("any", any).i("x", -(w / 2)).i("y", -(h / 2)).i("w", w).i("h", h).str());
    int rc = call({"sm.properties", "sm.pose2D", "sm.map", "sm.scan2D"}, out);
    e.i("rc", rc).i("lines", answers(out, &line));
    double x = 0, y = 0, t = 0; char sc[64] = "";
    sscanf(line.c_str(), "Pose delta: PoseDelta{ x: %lf, y: %lf, th: %lf} with probability %63s", &x, &y, &t, sc);
    double v = std::strtod(sc, nullptr);
    e.a("d", {A(x, 16, 1e-3), A(y, 16, 1e-3), A(t / (M_PI / 2), 1, 1e-4)}).t("unk", std::isnan(v)).i("score", std::isnan(v) ? 0 : I(v, 100000));
    T().add(e);
    // without one of its inputs there is no answer
    if (r.chance(40)) {
      std::vector<std::string> args{"sm.properties", "sm.pose2D", "sm.map", "sm.scan2D"};
      if (r.chance(50)) args[size_t(r.in(1, 3))] = "none"; else if (r.chance(50)) args.pop_back(); else args.push_back("sm.scan2D");
      fflush(nullptr);
      int fds[2]; if (pipe(fds)) exit(77);
      pid_t pid = fork();
      if (pid == 0) { ::close(fds[0]); ::dup2(fds[1], 1); std::vector<char *> av; args.insert(args.begin(), "sm_runner"); for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr); int c = sm_runner_main(int(args.size()), av.data()); std::cout.flush(); fflush(stdout); _exit(c & 255); }
      ::close(fds[1]);
      std::string said; char b[512]; ssize_t got;
      while ((got = ::read(fds[0], b, sizeof b)) > 0) said.append(b, size_t(got));
      ::close(fds[0]);
      int st = 0; waitpid(pid, &st, 0);
      T().add(Ev("fail").i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 128).i("lines", answers(said)));
    }
  }
  T().end();
  for (auto f : {"sm.properties", "sm.pose2D", "sm.map", "sm.scan2D"}) ::remove(f);
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 31 + 5);
  std::clog.rdbuf(nullptr);
  for (long id = 1, n = a.n(200, 1500); id <= n; ++id) episode(r, id);
  T().close();
  return 0;
}
