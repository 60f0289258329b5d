// Insertion of scans into maps (C11).
#include "maps.h"
#include "core/maps/grid_map_scan_adders.h"
using namespace vh;
using Coord = GridMap::Coord;
static const long U = 4;

struct Rec { Coord c; AreaOccupancyObservation o; };
static std::vector<Rec> g_log;
static bool g_other = false;
template <typename M> struct RecMap : M {
  using M::M;
  void update(const Coord &c, const AreaOccupancyObservation &o) override {
    g_log.push_back({c, o});
    M::update(c, o);
  }
  void reset(const Coord &c, const GridCell &n) override { g_other = true; M::reset(c, n); }
};

static long mod(long a, long b) { return ((a % b) + b) % b; }
struct CellEst : CellOccupancyEstimator {
  double scale;
  explicit CellEst(double s) : CellOccupancyEstimator({1, 1}, {0, 1}), scale{s} {}
  std::vector<std::pair<Point2D, Point2D>> beams; // the ones that may be asked about
  Occupancy estimate_occupancy(const Segment2D &beam, const Rectangle &cell, bool occ) override {
    bool known = false;
    for (auto &b : beams) known |= b.first.dist_sq(beam.beg()) < 1e-12 && b.second.dist_sq(beam.end()) < 1e-12;
    if (!known || std::abs(cell.side() - scale) > 1e-6) return {3.0, 3.0};
    long cx = std::lround(cell.left() / scale), cy = std::lround(cell.bot() / scale);
    if (mod(cx + cy, 7) == 3) return Occupancy::invalid();
    return {(mod(5 * cx + 3 * cy + (occ ? 7 : 0), 16) * 4 + 1) / 64.0, (mod(cx + 2 * cy + (occ ? 3 : 0), 8) * 8 + 2) / 64.0};
  }
};
struct RuleOMQE : ObservationMappingQualityEstimator {
  size_t n = 0; int resets = 0;
  void reset(const LaserScan2D &s) override { n = s.points().size(); ++resets; }
  double quality(const LaserScan2D::Points &p, PointId i) const override { return n == p.size() ? (1 + i % 4) / 4.0 : 9; }
};
static double nan_m1(double v) { return std::isnan(v) ? -1 : I(v, 4096); }

template <typename M> static void episode(Args &a, Rng &r) {
  bool rough = r.chance(35);
  double scale = rough ? r.pick(std::vector<double>{0.1, 0.05, 0.3}) : std::vector<double>{1, 0.5, 2, 0.125}[r.in(0, 3)];
  RecMap<M> map(std::make_shared<LogCell>(7), GridMapParams{int(r.in(2, 20)), int(r.in(2, 20)), scale});
  auto est = std::make_shared<CellEst>(scale);
  int omqe = int(r.in(0, 2));
  std::shared_ptr<ObservationMappingQualityEstimator> om;
  if (omqe == 0) om = std::make_shared<IdleOMQE>();
  else if (omqe == 1) om = std::make_shared<RuleOMQE>();
  else om = std::make_shared<AngleHistogramResiprocalOMQE>();
  auto bld = WallDistanceBlurringScanAdder::builder();
  bld.set_occupancy_estimator(est).set_observation_quality_estimator(om);
  long B = 0;
  if (r.chance(60)) {
    B = r.in(1, 16);
    if (rough) B |= 1;
    if (r.chance(35)) { B = -r.in(1, 6); bld.set_blur_distance(double(B) / 4 / scale); }
    else bld.set_blur_distance(B / 4.0 * scale);
  }
  long r2x4 = -1;
  if (r.chance(40)) { long k = r.in(2, 40); r2x4 = (2 * k + 1) * (2 * k + 1); bld.set_max_usable_range((k + 0.5) / U * scale); }
  auto adder = bld.build();
  T().begin(Obj().i("U", U));
  for (int s = 0, sn = int(r.in(1, 3)); s < sn; ++s) {
    g_log.clear(); g_other = false; est->beams.clear();
    auto frac = [&](long v) { return rough && v % U == 0 ? v + r.in(1, U - 1) : v; };
    long ax = frac(r.in(-24, 24)), ay = frac(r.in(-24, 24));
    bool axis = r.chance(25);
    if (axis) { if (ax % U == 0) ++ax; if (ay % U == 0) ++ay; }
    double theta = axis ? deg2rad(90.0 * r.in(-2, 2)) : r.in(-31, 31) / 10.0;
    int n = int(r.chance(10) ? r.in(0, 2) : r.in(3, 7));
    std::set<std::pair<long, long>> ends;
    LaserScan2D scan;
    struct B_ { long x, y; bool occ; };
    std::vector<B_> bs;
    if (axis) {
      auto p = std::make_shared<CachedTrigonometryProvider>();
      p->update(-M_PI, M_PI + 0.1, M_PI / 2);
      scan.trig_provider = p;
    }
    for (int tries = 0; int(bs.size()) < n && tries < 300; ++tries) {
      long x, y; double range, ang; bool occ = r.chance(70), cart = false;
      long reach = r.chance(20) ? 40 : 16;
      if (axis) {
        int k = int(r.in(-2, 1)); long d = r.in(0, reach);
        double w = theta + k * M_PI / 2;
        x = ax + std::lround(std::cos(w)) * d; y = ay + std::lround(std::sin(w)) * d;
        if (rough && (x % U == 0 || y % U == 0)) continue;
        // rounding noise must not decide the cell
        if (mod(x, U) == 0 || mod(y, U) == 0) continue;
        range = double(d) / U * scale; ang = k * M_PI / 2;
      } else {
        x = ax + r.in(-reach, reach); y = ay + r.in(-reach, reach);
        if (mod(x, U) == 0 || mod(y, U) == 0) continue;
        double dx = double(x - ax) / U * scale, dy = double(y - ay) / U * scale;
        range = std::hypot(dx, dy); ang = std::atan2(dy, dx) - theta;
        cart = r.chance(20);
      }
      if (rough && B < 0 && (B * ((x - ax) * (x - ax) + (y - ay) * (y - ay))) % 64 == 0) continue; // the hole would end exactly on a cell
      if (!ends.insert({x, y}).second) continue;
      bs.push_back({x, y, occ});
      if (cart) scan.points().push_back(ScanPoint2D::make_cartesian({range * std::cos(ang), range * std::sin(ang)}, occ));
      else scan.points().push_back(ScanPoint2D::make_polar(range, ang, occ));
    }
    auto W = [&](long v) { return double(v) / U * scale; };
    for (auto &b : bs) est->beams.push_back({{W(ax), W(ay)}, {W(b.x), W(b.y)}});
    long q = r.in(1, 64), margin = r.chance(50) ? 0 : r.in(0, 4);
    RobotPose pose{W(ax), W(ay), theta};
    T().about("append_scan");
    GridMap *back;
    if (margin == 0 && r.chance(50)) back = &adder->append_scan(map, pose, scan, q / 64.0);
    else back = &adder->append_scan(map, pose, scan, q / 64.0, double(margin));
    AngleHistogram hist;
    if (omqe == 2) hist.reset(scan);
    std::vector<std::string> jb, jo;
    for (size_t i = 0; i < bs.size(); ++i) {
      long w = 1, wu = 1; // the rule's quality is wu / w
      if (omqe == 1) { w = 4; wu = 1 + long(i) % 4; }
      if (omqe == 2) w = long(hist.value(scan.points(), i));
      jb.push_back(Obj().a("a", {ax, ay}).a("b", {bs[i].x, bs[i].y}).t("occ", bs[i].occ).i("w", w).i("wu", wu).str());
    }
    for (auto &rec : g_log) {
      long nb = 0;
      for (size_t i = 0; i < bs.size(); ++i)
        if (rec.o.obstacle.dist_sq({W(bs[i].x), W(bs[i].y)}) < 1e-10) nb = long(i) + 1;
      jo.push_back(Obj().i("n", nb).a("c", {rec.c.x, rec.c.y}).t("occ", rec.o.is_occupied)
        .i("p", nan_m1(rec.o.occupancy.prob_occ)).i("q", nan_m1(rec.o.occupancy.estimation_quality)).i("ql", I(rec.o.quality, 4096)).str());
    }
    T().add(Ev("scan").i("margin", margin).i("r2x4", r2x4).i("blur", B).i("q", q).t("other", g_other)
      .t("same", back == &map).raw("beams", arrs(jb)).raw("obs", arrs(jo)));
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 19 + 11);
  for (long ep = 0, n = a.n(350, 5000); ep < n; ++ep) {
    switch (r.in(0, 3)) {
      case 0: episode<UnboundedLazyTiledGridMap>(a, r); break;
      case 1: episode<RescalableCachingGridMap<UnboundedPlainGridMap>>(a, r); break;
      default: episode<UnboundedPlainGridMap>(a, r);
    }
  }
  T().close();
  return 0;
}
