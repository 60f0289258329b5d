// Multi-resolution scan matching (C17).
#include "maps.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include <sys/wait.h>
using namespace vh;
using Coord = GridMap::Coord;

struct OccCell : GridCell { // occupancy is what the last observation said
  OccCell(double p) : GridCell{Occupancy{p, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<OccCell>(*this); }
};
struct NoOOPE : OccupancyObservationProbabilityEstimator {
  NoOOPE() : OccupancyObservationProbabilityEstimator{std::make_shared<OccupancyOIE>()} {}
  double probability(const AreaOccupancyObservation &, const LightWeightRectangle &, const GridMap &) const override { return 0; }
};
static long mod(long a, long m) { return ((a % m) + m) % m; }

// scores come from a landscape over the lattice of half leaves; ranges get an upper bound with some slack
struct LandSPE : ScanProbabilityEstimator {
  LandSPE() : ScanProbabilityEstimator{std::make_shared<NoOOPE>()} {}
  double estimate_scan_probability(const LaserScan2D &scan, const RobotPose &p, const GridMap &, const SPEParams &par) const override {
    double th = p.theta;
    if (par.scan_is_prerotated) th += std::atan2(scan.points()[0].y(), scan.points()[0].x());
    long r = std::lround((th - base.theta) / rstep);
    double hw = par.sp_analysis_area.hside_len() / 2, hh = par.sp_analysis_area.vside_len() / 2;
    double cx = p.x - base.x, cy = p.y - base.y;
    auto up = [](double v) { return long(std::ceil(v - 1e-6)); };
    auto dn = [](double v) { return long(std::floor(v + 1e-6)); };
    long best = -1;
    for (long i = up((cx - hw) / dx); i <= dn((cx + hw) / dx); ++i)
      for (long j = up((cy - hh) / dy); j <= dn((cy + hh) / dy); ++j)
        best = std::max(best, mod(f[0] * i + f[1] * j + f[2] * r + f[3] * i * j + f[4], f[5]));
    return (best + slack * (hw / dx + hh / dy)) / 1024.0;
  }
  RobotPose base;
  double dx = 1, dy = 1, rstep = 1, slack = 0;
  std::vector<long> f;
};
struct Watch : GridScanMatcherObserver {
  long starts = 0, ends = 0;
  RobotPoseDelta d;
  double score = 0;
  void on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &) override { ++starts; }
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double s) override { ++ends; d = {p.x, p.y, p.theta}; score = s; }
  bool same(const RobotPoseDelta &o, double s) const {
    return d.x == o.x && d.y == o.y && d.theta == o.theta && (score == s || (std::isnan(score) && std::isnan(s)));
  }
};
static long halvings(long x, long step) { long k = 0; while (2 * x >= step * (1 << k)) ++k; return k; }

struct Window { long x, y, step, sector, rstep; double u, ru, dx, dy; };
static Window window(Rng &r, long maxk) { // in units u (translation) and ru (rotation)
  Window w;
  for (;;) {
    w.x = r.in(1, 24); w.y = r.chance(30) ? w.x : r.in(1, 24); w.step = r.in(2, 24);
    bool even = false; // a part just as long as the step may be halved once more or not
    for (int k = 0; k < 8; ++k) even = even || 2 * w.x == w.step << k || 2 * w.y == w.step << k;
    if (even) continue;
    long kx = halvings(w.x, w.step), ky = halvings(w.y, w.step);
    if (kx > maxk || ky > maxk || kx + ky > maxk + 2) continue;
    w.u = r.pick(std::vector<double>{0.0625, 0.03125, 0.125});
    w.dx = w.x * w.u / (1 << kx); w.dy = w.y * w.u / (1 << ky);
    break;
  }
  w.rstep = 4 * r.in(1, 3);
  w.sector = r.chance(25) ? r.in(0, 2 * w.rstep - 1) / 2 * 2 : 2 * w.rstep * r.in(0, 2) + 2 * r.in(0, w.rstep - 1);
  w.ru = r.pick(std::vector<double>{1.0 / 128, 1.0 / 64});
  return w;
}
static Ev &put(Ev &e, const Window &w) { e.i("x", w.x).i("y", w.y).i("step", w.step).i("sector", w.sector).i("rstep", w.rstep); return e; }
static std::vector<long> land(Rng &r) {
  long m = r.pick(std::vector<long>{2, 3, 5, 17, 101, 997});
  return {r.in(-40, 40), r.in(-40, 40), r.in(-40, 40), r.chance(50) ? r.in(-9, 9) : 0, r.in(0, 50), m};
}
static TransformedLaserScan one_point() {
  TransformedLaserScan s;
  s.scan.points().push_back(ScanPoint2D::make_polar(1, 0, true));
  s.quality = 1;
  return s;
}

static void land_mode(Args &a) {
  Rng r(a.seed * 23 + 1);
  for (long ep = 0, n = a.n(150, 2500); ep < n; ++ep) {
    auto spe = std::make_shared<LandSPE>();
    int kind = r.pick(std::vector<int>{R_UPLAIN, R_ULAZY, UPLAIN, M3_UPLAIN});
    auto m = make_map(kind, std::make_shared<LogCell>(1), int(r.in(1, 20)), int(r.in(1, 20)), 0.125);
    T().begin(Obj());
    auto w0 = window(r, 3);
    BruteForceMultiResolutionScanMatcher sm{spe, w0.x * w0.u, w0.y * w0.u, w0.sector * w0.ru / 2, w0.rstep * w0.ru, w0.step * w0.u};
    bool first = true;
    for (int q = 0, nq = int(r.in(1, 3)); q < nq; ++q) {
      auto w = w0;
      if (!first && r.chance(50)) {
        w = w0 = window(r, 3);
        sm.set_lookup_ranges(w.x * w.u, w.y * w.u, w.sector * w.ru / 2);
        sm.set_target_accuracy(w.rstep * w.ru, w.step * w.u);
      }
      first = false;
      spe->base = RobotPose{r.in(-40, 40) / 8.0, r.in(-40, 40) / 8.0, r.in(-8, 8) / 16.0};
      spe->dx = w.dx; spe->dy = w.dy; spe->rstep = w.rstep * w.ru;
      spe->slack = r.pick(std::vector<long>{0, 0, 1, 5});
      spe->f = land(r);
      if (r.chance(40)) m->rescale(0.125 * (1 << r.in(0, 3)));
      double sc = m->scale();
      auto obs = std::make_shared<Watch>();
      sm.subscribe(obs);
      RobotPoseDelta d{9, 9, 9};
      auto scan = one_point();
      T().about("process_scan");
      double s = sm.process_scan(scan, spe->base, *m, d);
      Ev e("match");
      put(e, w).a("f", spe->f).a("d", {A(d.x, 1 / w.dx), A(d.y, 1 / w.dy), A(d.theta, 1 / (w.rstep * w.ru))})
        .t("known", !std::isnan(s)).i("s", A(s, 1024)).t("restored", m->scale() == sc).i("starts", obs->starts).i("ends", obs->ends)
        .t("endok", obs->same(d, s));
      T().add(e);
    }
    // the engine itself, several scans at once
    for (int q = 0, nq = int(r.in(0, 2)); q < nq; ++q) {
      auto w = window(r, 2);
      if (w.sector / (2 * w.rstep) > 1) continue;
      long diff = r.pick(std::vector<long>{0, 0, 1, 3, 10});
      M3RSMEngine eng{diff / 1024.0};
      if (r.chance(50)) eng.reset_engine_state();
      eng.set_translation_lookup_range(w.x * w.u, w.y * w.u);
      eng.set_rotation_lookup_range(w.sector * w.ru, w.rstep * w.ru);
      bool pre = r.chance(50);
      std::vector<std::shared_ptr<LandSPE>> spes;
      std::vector<RobotPose> poses;
      int ns = int(r.in(1, 2));
      for (int k = 0; k < ns; ++k) {
        auto sp = std::make_shared<LandSPE>();
        sp->base = RobotPose{r.in(-40, 40) / 8.0, r.in(-40, 40) / 8.0, r.in(-8, 8) / 16.0};
        sp->dx = w.dx; sp->dy = w.dy; sp->rstep = w.rstep * w.ru; sp->slack = r.pick(std::vector<long>{0, 1}); sp->f = land(r);
        spes.push_back(sp); poses.push_back(sp->base);
      }
      double sc = m->scale();
      std::vector<std::string> got, fs;
      {
        SafeRescalableMap sm2{*m};
        auto scan = one_point();
        T().about("engine");
        for (int k = 0; k < ns; ++k) { eng.add_scan_matching_request(spes[k], poses[k], scan.scan, sm2, pre); fs.push_back(arr(spes[k]->f)); }
        std::set<std::vector<long>> seen;
        for (int guard = 0; guard < 4000; ++guard) {
          auto best = eng.next_best_match(w.step * w.u);
          if (!best.is_valid()) break;
          if (!best.is_finest()) {
            auto cps = best.translation_drift.corners();
            cps.push_back(best.translation_drift.center());
            for (auto &cp : cps) eng.add_match(Match{M3RSMEngine::Rect{cp}, best});
            continue;
          }
          long k = 0;
          while (k < ns && spes[k] != best.spe) ++k;
          auto c = best.translation_drift.center();
          std::vector<long> at{k + 1, A(c.x, 1 / w.dx), A(c.y, 1 / w.dy), A(best.rotation, 1 / (w.rstep * w.ru))};
          if (!seen.insert(at).second) continue; // corners are shared by parts
          got.push_back(Obj().a("at", at).i("s", A(best.prob_upper_bound, 1024)).str());
        }
      }
      Ev e("engine");
      put(e, w).raw("fs", arrs(fs)).i("diff", diff).raw("got", arrs(got)).t("restored", m->scale() == sc);
      T().add(e);
    }
    T().end();
  }
}

struct RealCase {
  std::shared_ptr<GridMap> m;
  std::shared_ptr<WeightedMeanPointProbabilitySPE> spe;
};
static AreaOccupancyObservation occ_obs(double p) { return {true, Occupancy{p, 1}, Point2D{0, 0}, 1}; }
static void do_real(Rng &r, GridMap &m, WeightedMeanPointProbabilitySPE &spe, BruteForceMultiResolutionScanMatcher &sm,
                    const Window &w, const RobotPose &pose, const TransformedLaserScan &scan) {
  double sc = m.scale();
  auto obs = std::make_shared<Watch>();
  sm.subscribe(obs);
  RobotPoseDelta d{9, 9, 9};
  T().about("process_scan on a map");
  double s = sm.process_scan(scan, pose, m, d);
  bool restored = m.scale() == sc;
  // all poses of the lattice, one after another, on the finest level
  m.rescale(0);
  auto fs = spe.filter_scan(scan.scan, pose, m);
  long nx = 1 << halvings(w.x, w.step), ny = 1 << halvings(w.y, w.step), nr = w.sector / (2 * w.rstep);
  std::vector<long> table;
  bool none = fs.points().empty();
  ScanProbabilityEstimator::SPEParams par;
  par.scan_is_prerotated = true;
  double rs = w.rstep * w.ru;
  for (long k = -nr; k <= nr && !none; ++k) {
    auto rot = fs.to_cartesian(k * rs + pose.theta);
    for (long i = -nx; i <= nx; ++i)
      for (long j = -ny; j <= ny; ++j)
        table.push_back(I(spe.estimate_scan_probability(rot, RobotPose{pose.x + i * w.dx, pose.y + j * w.dy, 0}, m, par), 1e6));
  }
  m.rescale(sc);
  Ev e("real");
  put(e, w).a("table", table).t("none", none).a("d", {A(d.x, 1 / w.dx), A(d.y, 1 / w.dy), A(d.theta, 1 / rs)})
    .t("known", !std::isnan(s)).i("s", I(s, 1e6)).t("restored", restored).i("starts", obs->starts).i("ends", obs->ends).t("endok", obs->same(d, s));
  T().add(e);
}

static void real_mode(Args &a) {
  Rng r(a.seed * 29 + 3);
  std::clog.rdbuf(nullptr);
  for (long ep = 0, n = a.n(100, 1500); ep < n; ++ep) {
    double s0 = r.pick(std::vector<double>{0.125, 0.25, 0.0625});
    bool disc = r.chance(50);
    std::shared_ptr<ObservationImpactEstimator> oie;
    if (disc) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
    long pr = r.chance(70) ? 0 : 2; // unknown cells score no better than known ones
    auto proto = std::make_shared<OccCell>(pr / 16.0);
    GridMapParams gp{int(r.in(1, 30)), int(r.in(1, 30)), s0};
    std::shared_ptr<GridMap> m;
    if (r.chance(50)) m = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, gp);
    else m = std::make_shared<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, proto, gp);
    auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>(),
      0, r.chance(80) ? -1 : 1.5);
    auto w = window(r, 3);
    if (s0 == 0.25) w.u *= 2, w.dx *= 2, w.dy *= 2;
    BruteForceMultiResolutionScanMatcher sm{spe, w.x * w.u, w.y * w.u, w.sector * w.ru / 2, w.rstep * w.ru, w.step * w.u};
    T().begin(Obj());
    for (int q = 0, nq = int(r.in(1, 3)); q < nq; ++q) {
      long span = r.in(3, 18);
      bool walls = r.chance(50);
      for (int i = 0, nu = int(r.in(0, 60)); i < nu; ++i) {
        Coord c(int(r.in(-span, span)), int(r.in(-span, span)));
        if (walls) { if (r.chance(50)) c.x = int(span / 2); else c.y = int(-span / 2); }
        m->update(c, occ_obs(r.in(pr, 16) / 16.0));
      }
      RobotPose pose{r.in(-30, 30) * s0 / 8, r.in(-30, 30) * s0 / 8, r.chance(30) ? 0 : 0.3711 + r.in(-20, 20) * 0.21};
      TransformedLaserScan scan;
      scan.quality = 1;
      int np = int(r.chance(6) ? 0 : r.in(1, 12));
      bool free = r.chance(6);
      for (int i = 0; i < np; ++i) {
        double x = r.in(-span * 16, span * 16) * s0 / 16 + 0.00137, y = r.in(-span * 16, span * 16) * s0 / 16 + 0.00071;
        if (walls) { if (r.chance(50)) x = span / 2 * s0 + 0.3 * s0; else y = -span / 2 * s0 - 0.4 * s0; }
        auto p = ScanPoint2D::make_cartesian(Point2D{x, y}, !free && r.chance(90));
        if (r.chance(50)) p = p.to_polar();
        scan.scan.points().push_back(p);
      }
      do_real(r, *m, *spe, sm, w, pose, scan);
    }
    T().end();
  }
}

// Scenarios of recorded findings: each runs in a child, since it may abort. Prints which of them fail.
static void findings_mode() {
  auto run = [](const char *id, std::function<bool()> ok) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (!freopen("/dev/null", "w", stderr)) _exit(77);
      signal(SIGABRT, SIG_DFL);
      _exit(ok() ? 0 : 1);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    printf("%s %s\n", id, fine ? "ok" : "fails");
  };
  // a cell seen free beside a cell never seen, whose prior is higher: the bound of the coarse cell above is too low
  run("m3rsm-unknown-prior", [] {
    auto oie = std::make_shared<OccupancyOIE>();
    M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<OccCell>(0.5), GridMapParams{16, 16, 0.125}};
    for (int x = 0; x < 12; ++x) for (int y = 0; y < 12; ++y) if ((x + y) % 2 == 0) m.update({x, y}, occ_obs(0));
    auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>());
    BruteForceMultiResolutionScanMatcher sm{spe, 0.25, 0.25, 0, 0.1, 0.1};
    TransformedLaserScan s;
    s.quality = 1;
    s.scan.points().push_back(ScanPoint2D::make_cartesian(Point2D{0.82, 0.82}, true));
    RobotPoseDelta d;
    return std::abs(sm.process_scan(s, RobotPose{0, 0, 0}, m, d) - 0.5) < 1e-9;
  });
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  if (a.mode == "land") land_mode(a);
  else if (a.mode == "real") real_mode(a);
  else if (a.mode == "findings") findings_mode();
  else return 77;
  T().close();
  return 0;
}
