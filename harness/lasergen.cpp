#include "vh.h"
#include "maps.h"
#include <utils/data_generation/laser_scan_generator.h>
using namespace vh;
static int findings() {
  UnboundedPlainGridMap m{std::make_shared<LogCell>(1), GridMapParams{1, 1, 0.1}};
  for (int i = -3; i <= 3; ++i) { m.update({3, i}, log_obs(1, 1)); m.update({-3, i}, log_obs(1, 1)); m.update({i, 3}, log_obs(1, 1)); m.update({i, -3}, log_obs(1, 1)); }
  auto scan = LaserScanGenerator{LaserScannerParams{10, deg2rad(90), 0}}.laser_scan_2D(m, RobotPose{2.5 * 0.1, -0.5 * 0.1, deg2rad(135)});
  printf("lasergen-corner %s\n", scan.points().size() == 1 ? "ok" : "fails");
  return 0;
}
int main(int argc, char **argv) {
  Args args(argc, argv);
  if (args.mode == "findings") return findings();
  Rng r(args.seed * 29 + 13);
  for (long ep = 0, n = args.n(150, 2500); ep < n; ++ep) {
    int kind = r.pick(std::vector<int>{UPLAIN, UPLAIN, ULAZY, R_UPLAIN, M3_ULAZY});
    double s = r.pick(std::vector<double>{1, 1, 0.5, 0.1, 0.25, 3}), unit = s / 32;
    auto m = make_map(kind, std::make_shared<LogCell>(1), int(r.in(1, 30)), int(r.in(1, 30)), s);
    T().begin(Obj().i("kind", kind));
    static const std::vector<long> Vals = {0, 16, 32, 40, 64};
    std::set<std::pair<int, int>> touched;
    auto put = [&](int x, int y, long v) {
      m->update({x, y}, log_obs(1, double(v) / 64));
      touched.insert({x, y});
      T().add(Ev("cell").a("c", {x, y}).i("v", v));
    };
    int dens = int(r.in(0, 3)), R = int(r.in(2, 8));
    if (dens == 3) { // a room
      for (int i = -R; i <= R; ++i) { put(i, R, 64); put(i, -R, 64); put(R, i, 64); put(-R, i, 64); }
    } else {
      for (long k = 0, c = dens == 0 ? r.in(0, 3) : dens == 1 ? 10 : 30; k < c; ++k) put(int(r.in(-R, R)), int(r.in(-R, R)), r.pick(Vals));
    }
    for (int q = 0, nq = int(r.in(2, 5)); q < nq; ++q) {
      if (q && r.chance(40)) put(int(r.in(-R, R)), int(r.in(-R, R)), r.pick(Vals));
      long ax = r.in(-R, R) * 32 + r.in(1, 31), ay = r.in(-R, R) * 32 + r.in(1, 31);
      if (r.chance(30)) { ax = r.in(-R, R) * 32 + 16; ay = r.in(-R, R) * 32 + 16; }
      if (r.chance(10) && !touched.empty()) { auto it = touched.begin(); std::advance(it, r.in(0, long(touched.size()) - 1)); ax = it->first * 32 + r.in(1, 31); ay = it->second * 32 + r.in(1, 31); }
      long inc = r.pick(std::vector<long>{1800, 900, 900, 600, 300, 20 * 7, 20 * 11, 100, 73}), hs = r.in(0, 3600);
      if (r.chance(40)) hs = inc * r.in(0, 3600 / inc);
      if (r.chance(20)) hs = 3600;
      if (r.chance(5)) inc = hs * 2 + 1;
      long th = r.chance(50) ? 900 * r.in(-8, 8) : r.in(-9000, 9000), max = r.in(1, 600);
      long thr = r.pick(std::vector<long>{24, 32, 64, 64});
      auto content = [&] {
        std::vector<double> v;
        for (int x = -R - 1; x <= R + 1; ++x) for (int y = -R - 1; y <= R + 1; ++y) v.push_back(m->occupancy({x, y}));
        return v;
      };
      auto before = content();
      auto ex = map_ext(*m);
      auto rad = [](long u) { return deg2rad(u / 20.0); };
      if (r.chance(15)) { // by field of view and number of points
        unsigned np = unsigned(r.in(1, 40));
        for (; 7200 % np; ++np) {}
        long fow = 7200 / np * r.in(1, np); // a whole number of steps of 1/20 degree when divided
        if (fow % np == 0 && fow / np > 0) { hs = fow / 2; if (fow % 2 == 0) { inc = fow / np; } }
      }
      // recorded finding lasergen-corner: beams at 45 degrees exactly through the corners of cells
      auto corner = [&] {
        if ((ax - ay) % 32 != 0 && (ax + ay) % 32 != 0) return false;
        for (long k = 0; k * inc <= 2 * hs; ++k) if ((((th - hs + k * inc) % 1800) + 1800) % 1800 == 900) return true;
        return false;
      };
      while (corner()) ++th;
      std::string about = "pose " + std::to_string(ax) + " " + std::to_string(ay) + " th " + std::to_string(th) + " inc " + std::to_string(inc) + " hs " + std::to_string(hs) + " max " + std::to_string(max);
      T().about(about);
      RobotPose pose{ax * unit, ay * unit, rad(th)};
      auto lsp2 = LaserScannerParams{max * unit, rad(inc), rad(hs)};
      auto gen = LaserScanGenerator{lsp2};
      auto scan = thr == 64 && r.chance(50) ? gen.laser_scan_2D(*m, pose) : gen.laser_scan_2D(*m, pose, double(thr) / 64);
      std::vector<std::string> pts;
      for (auto &p : scan.points()) pts.push_back(Obj().i("k", A((p.angle() + rad(hs)) / rad(inc), 1, 1e-6)).i("r", I(p.range() / unit)).t("occ", p.is_occupied()).str());
      T().add(Ev("scan").a("at", {ax, ay}).i("th", th).i("hs", hs).i("inc", inc).i("max", max).i("thr", thr).raw("pts", arrs(pts))
              .t("pure", content() == before && map_ext(*m) == ex && pose.x == ax * unit && pose.theta == rad(th)));
    }
    T().end();
  }
  T().close();
}
