// Worlds fed with scans: C20 (mode single), C21 (modes particle, filter), C22 (mode pf, pfstat).
#include "vh.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/particle_filter.h"
#include "slams/gmapping/gmapping_particle_filter.h"
using namespace vh;

static double PS = 1024, TS = 1024;
static std::string pose(const RobotPose &p) {
  return arr(std::vector<long>{I(p.x, PS), I(p.y, PS), I(p.theta, TS)});
}
static std::string pose(const RobotPoseDelta &p) { return pose(RobotPose{p.x, p.y, p.theta}); }

// what has been mapped: tag k is an update of cell (k, 0)
static std::vector<long> tags(const GridMap &m, long upto) {
  std::vector<long> r;
  for (long k = 1; k <= upto; ++k)
    if (!m[DiscretePoint2D{int(k), 0}].is_unknown()) r.push_back(k);
  return r;
}
struct Script {
  long next_tag = 0;
  std::function<RobotPoseDelta()> corr;
  std::function<double()> score;
};
struct FakeMatcher : GridScanMatcher {
  Script *s;
  explicit FakeMatcher(Script *sc) : GridScanMatcher{nullptr}, s{sc} {}
  double process_scan(const TransformedLaserScan &scan, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    d = s->corr();
    double v = s->score();
    T().add(Ev("match").raw("p", pose(p)).a("map", tags(m, s->next_tag)).raw("c", pose(d)).t("zero", d.x == 0 && d.y == 0 && d.theta == 0)
            .i("s", I(v, 1024)).i("n", scan.scan.points().size()));
    return v;
  }
};

struct TaggingAdder : GridMapScanAdder {
  Script *s; mutable long pts = 0; mutable double q = -1; mutable Segment2D first{{0, 0}, {0, 0}}; mutable GridMap *map = nullptr;
  explicit TaggingAdder(Script *sc) : GridMapScanAdder{nullptr, std::make_shared<IdleOMQE>()}, s{sc} {}
  void handle_scan_point(GridMap &m, bool, double quality, const Segment2D &beam) const override {
    if (pts == 0) { first = beam; q = quality; map = &m; }
    else if (quality != q || &m != map || beam.beg().x != first.beg().x || beam.beg().y != first.beg().y) q = -7;
    ++pts;
    if (pts == expected) flush();
  }
  mutable long expected = 0;
  double range = 1;
  void flush() const {
    long tag = ++s->next_tag;
    auto before = tags(*map, tag);
    map->update(DiscretePoint2D{int(tag), 0}, AreaOccupancyObservation{true, {0.75, 1}, {0, 0}, 1});
    // heading of the pose the scan was inserted at: the first used point lies straight ahead
    double th = std::atan2(first.end().y - first.beg().y, first.end().x - first.beg().x);
    T().add(Ev("insert").a("at", {I(first.beg().x, PS), I(first.beg().y, PS)}).i("th", I(th, TS)).i("q", I(q, 64)).i("n", pts)
            .i("tag", tag).a("map", before));
    pts = 0;
  }
};

// ---- C20 ----------------------------------------------------------------
struct PoseObs : WorldPoseObserver {
  long id; explicit PoseObs(long i) : id{i} {}
  void on_pose_update(const RobotPose &p) override { T().add(Ev("pose").i("o", id).raw("p", pose(p))); }
};
struct MapObs : WorldMapObserver<GridMap> {
  long id; Script *s; MapObs(long i, Script *sc) : id{i}, s{sc} {}
  void on_map_update(const GridMap &m) override { T().add(Ev("map").i("o", id).a("map", tags(m, s->next_tag))); }
};
static LaserScan2D straight_scan(int n) { // all points straight ahead
  LaserScan2D s;
  for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(1, 0, true));
  return s;
}
static double dyv(Rng &r, long lo, long hi, double q) { return r.in(lo, hi) / q; }

static void single(Rng &r, long id) {
  Script sc;
  auto adder = std::make_shared<TaggingAdder>(&sc);
  SingleStateHypothesisLSGWProperties props;
  long margin = r.in(0, 3);
  long lq = r.in(1, 64), rq = r.in(1, 64);
  props.localized_scan_quality = lq / 64.0; props.raw_scan_quality = rq / 64.0; props.scan_margin = margin;
  props.grid_map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{1, 1, 0.5});
  props.gsm = std::make_shared<FakeMatcher>(&sc);
  props.gmsa = adder;
  SingleStateHypothesisLaserScanGridWorld w{props};
  T().begin(Obj().i("id", id).i("margin", margin).i("lq", lq).i("rq", rq));
  std::map<long, std::shared_ptr<PoseObs>> po;
  std::map<long, std::shared_ptr<MapObs>> mo;
  long oid = 0;
  for (int k = 0, n = int(r.in(2, 14)); k < n; ++k) {
    if (r.chance(30)) { auto o = std::make_shared<PoseObs>(++oid); w.subscribe_pose(o); po[oid] = o; }
    if (r.chance(30)) { auto o = std::make_shared<MapObs>(++oid, &sc); w.subscribe_map(o); mo[oid] = o; }
    if (!po.empty() && r.chance(15)) po.erase(po.begin());
    if (!mo.empty() && r.chance(15)) mo.erase(mo.begin());
    int kind = int(r.in(0, 5));
    RobotPoseDelta corr{0, 0, 0};
    if (kind == 5) { // next to nothing, but more than rounding
      double tiny = std::ldexp(r.chance(50) ? 1 : -1, -int(r.in(16, 22)));
      switch (r.in(0, 2)) { case 0: corr.x = tiny; break; case 1: corr.y = tiny; break; default: corr.theta = tiny; }
    }
    if (kind == 1) corr.x = dyv(r, -64, 64, 64);
    if (kind == 2) corr.theta = dyv(r, -16, 16, 64);
    if (kind == 3) corr.y = r.pick(std::vector<double>{-1 / 64.0, 1 / 64.0});
    if (kind == 4) corr = {dyv(r, -64, 64, 64), dyv(r, -64, 64, 64), dyv(r, -16, 16, 64)};
    if (kind == 4 && r.chance(30)) corr = {dyv(r, -6400, 6400, 64), dyv(r, -6400, 6400, 64), dyv(r, -400, 400, 64)};
    sc.corr = [&] { return corr; };
    double v = r.in(0, 64) / 64.0;
    if (r.chance(5)) v = std::nan("");
    sc.score = [&] { return v; };
    TransformedLaserScan scan;
    scan.pose_delta = {dyv(r, -64, 64, 64), dyv(r, -64, 64, 64), dyv(r, -16, 16, 64)};
    if (r.chance(15)) scan.pose_delta = {0, 0, 0};
    if (r.chance(15)) scan.pose_delta = {dyv(r, -6400, 6400, 64), dyv(r, -6400, 6400, 64), dyv(r, -400, 400, 64)};
    scan.quality = r.chance(50) ? 1 : r.in(0, 64) / 64.0;
    int pts = int(2 * margin + r.in(1, 5));
    if (r.chance(15)) pts = int(r.in(0, 2 * margin)); // nothing is left to insert
    scan.scan = straight_scan(pts);
    adder->expected = pts - 2 * margin; adder->pts = 0;
    std::vector<long> pl, ml;
    for (auto &o : po) pl.push_back(o.first);
    for (auto &o : mo) ml.push_back(o.first);
    T().add(Ev("scan").raw("d", pose(scan.pose_delta)).i("n", pts).a("po", pl).a("mo", ml));
    w.handle_sensor_data(scan);
    T().add(Ev("done").raw("p", pose(w.pose())).a("map", tags(w.map(), sc.next_tag)).i("pending", adder->pts));
  }
  T().end();
}

// ---- C21 ----------------------------------------------------------------
static GMappingParams gparams(double sxy, double sth, double lim, double limth) {
  return GMappingParams{0, sxy, 0, sth, lim, lim, limth, limth};
}
static double HALF_PI = M_PI / 2;
static void particle(Rng &r, long id) {
  Script sc;
  auto adder = std::make_shared<TaggingAdder>(&sc);
  SingleStateHypothesisLSGWProperties props;
  props.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{1, 1, 0.5});
  props.gsm = std::make_shared<FakeMatcher>(&sc);
  props.gmsa = adder;
  // thresholds off the lattice the movements live on
  long lim = r.pick(std::vector<long>{0, 150, 400, 701}), limth = r.pick(std::vector<long>{0, 300, 777, 5001}); // 1/1000 per axis, 1/10000 rad
  bool noisy = r.chance(30);
  if (noisy) lim = limth = 0;
  double sxy = noisy ? 256 : 0, sth = 0; // wide, so that no two draws look alike
  bool master = r.chance(25);
  T().begin(Obj().i("id", id).i("limsq", lim ? long(2 * lim * lim * 1.048576) : -1).i("limth", limth ? long(limth * 0.1024) : -1).t("noisy", noisy).t("master", master).i("sxy", I(sxy, PS)).i("sth", I(sth, TS)));
  std::vector<std::shared_ptr<GmappingWorld>> ws;
  auto add = [&] { ws.push_back(std::make_shared<GmappingWorld>(props, gparams(sxy, sth, lim / 1000.0, limth / 10000.0))); };
  add();
  if (master) ws[0]->mark_master();
  T().add(Ev("new").i("w", 1).i("wt", I(ws[0]->weight(), 1 << 20)));
  for (int k = 0, n = int(r.in(3, 30)); k < n; ++k) {
    if (ws.size() < 4 && r.chance(8)) { // another particle of the same properties
      add();
      T().add(Ev("new").i("w", ws.size()).i("wt", I(ws.back()->weight(), 1 << 20)));
    }
    if (ws.size() < 4 && r.chance(10)) { // a duplicate
      add();
      long src = r.in(0, long(ws.size()) - 2);
      *ws.back() = *ws[src];
      ws.back()->sample();
      T().add(Ev("dup").i("w", ws.size()).i("from", src + 1).t("own", true).i("wt", I(ws.back()->weight(), 1 << 20)));
    }
    if (ws.size() < 4 && r.chance(4)) { // a copy
      long src = r.in(0, long(ws.size()) - 1);
      ws.push_back(std::make_shared<GmappingWorld>(*ws[src]));
      T().add(Ev("dup").i("w", ws.size()).i("from", src + 1).t("own", false).i("wt", I(ws.back()->weight(), 1 << 20)));
    }
    long i = r.in(0, long(ws.size()) - 1);
    auto &w = *ws[i];
    if (r.chance(10)) {
      double nw = r.pick(std::vector<double>{1, 0.5, 0.25});
      w.set_weight(nw);
      T().add(Ev("setw").i("w", i + 1).i("wt", I(w.weight(), 1 << 20)));
    }
    RobotPoseDelta corr{dyv(r, -32, 32, 64), dyv(r, -32, 32, 64), noisy ? 0 : r.in(-1, 2) * HALF_PI * r.in(0, 1)};
    long turns = std::lround(corr.theta / HALF_PI);
    sc.corr = [&] { return corr; };
    double v = r.pick(std::vector<double>{0, 0.5, 0.5, 1, 0.25, 1});
    if (r.chance(6)) v = std::nan("");
    sc.score = [&] { return v; };
    TransformedLaserScan scan;
    scan.pose_delta = {dyv(r, -32, 32, 64), dyv(r, -32, 32, 64), dyv(r, -8, 8, 64) * r.in(0, 1)};
    if (r.chance(20)) scan.pose_delta = {0, 0, 0};
    scan.quality = 1;
    int pts = int(r.in(1, 4));
    scan.scan = straight_scan(pts);
    adder->expected = pts; adder->pts = 0;
    T().add(Ev("scan").i("w", i + 1).raw("d", pose(scan.pose_delta)).i("turns", turns));
    w.handle_sensor_data(scan);
    std::vector<std::string> maps;
    for (auto &x : ws) maps.push_back(arr(tags(x->map(), sc.next_tag)));
    std::vector<long> wts;
    for (auto &x : ws) wts.push_back(I(x->weight(), 1 << 20));
    T().add(Ev("done").i("w", i + 1).raw("p", pose(w.pose())).a("wts", wts).raw("maps", arrs(maps)).i("pending", adder->pts));
  }
  T().end();
}
static void filter(Rng &r, long id) {
  Script sc;
  auto adder = std::make_shared<TaggingAdder>(&sc);
  SingleStateHypothesisLSGWProperties props;
  props.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{1, 1, 0.5});
  props.gsm = std::make_shared<FakeMatcher>(&sc);
  props.gmsa = adder;
  bool still = r.chance(25);         // too little movement to resample
  long n = r.in(1, 5);
  // every particle matches every scan, or each at its own time
  double lim = still || r.chance(70) ? 0 : 0.3;
  double sxy = still ? 0 : r.pick(std::vector<double>{0, 0, 64});
  long unit = r.pick(std::vector<long>{256, 512, 512});
  int pace = int(r.in(0, 2));        // how far it moves with a scan
  GmappingParticleFilter pf{props, GMappingParams{0, sxy, 0, 0, lim, lim * 2, lim, lim * 2}, unsigned(n)};
  T().begin(Obj().i("id", id).i("n", n).t("all", lim == 0).i("sxy", I(sxy, PS)).i("unit", unit));
  auto po = std::make_shared<PoseObs>(1);
  auto mo = std::make_shared<MapObs>(2, &sc);
  pf.subscribe_pose(po); pf.subscribe_map(mo);
  for (int k = 0, m = int(r.in(2, lim ? 14 : unit == 256 ? 6 : 11)); k < m; ++k) {
    RobotPoseDelta corr; double v;
    sc.corr = [&] { return corr = RobotPoseDelta{dyv(r, -32, 32, 256), dyv(r, -32, 32, 256), 0}; };
    int spread = int(r.in(0, 2));
    sc.score = [&] {
      v = spread == 0 ? 0.5 : spread == 1 && unit == 256 ? r.pick(std::vector<double>{0.25, 0.5, 1}) : r.pick(std::vector<double>{0, 1, 0.5});
      return v;
    };
    TransformedLaserScan scan;
    scan.pose_delta = still ? RobotPoseDelta{dyv(r, -2, 2, 256), dyv(r, -2, 2, 256), 0}
      : pace == 0 ? RobotPoseDelta{dyv(r, -128, 128, 256), dyv(r, -128, 128, 256), dyv(r, -1, 1, 8)}
      : pace == 1 ? RobotPoseDelta{dyv(r, -64, 64, 256), dyv(r, -64, 64, 256), 0}
                  : RobotPoseDelta{0, 0, dyv(r, -1, 1, 16) * r.in(0, 1)};
    scan.quality = 1;
    int pts = int(r.in(1, 3));
    scan.scan = straight_scan(pts);
    adder->expected = pts; adder->pts = 0;
    T().add(Ev("scan").raw("d", pose(scan.pose_delta)));
    pf.handle_sensor_data(scan);
    auto *h = dynamic_cast<const GmappingWorld *>(&pf.world());
    T().add(Ev("done").raw("p", pose(pf.pose())).a("map", tags(pf.map(), sc.next_tag)).i("wt", h ? I(h->weight(), 1000000) : -1)
            .i("pending", adder->pts));
  }
  T().end();
}

// ---- C22 ----------------------------------------------------------------
struct Spy : Particle {
  long id = 0, sampled = 0, mark = 0;
  void sample() override { ++sampled; }
};
struct SpyFactory : ParticleFactory<Spy> {
  std::shared_ptr<Spy> create_particle() override { return std::make_shared<Spy>(); }
};
using PF = ParticleFilter<Spy>;
static std::string weights(PF &pf) {
  std::vector<long> w;
  for (auto &p : pf.particles()) w.push_back(I(p->weight(), 1e6));
  return arr(w);
}
static void pf_episode(Rng &r, long id) {
  long n = r.pick(std::vector<long>{1, 2, 3, 4, 8, 20});
  PF pf{std::make_shared<SpyFactory>(), unsigned(n)};
  T().begin(Obj().i("id", id).i("n", n));
  T().add(Ev("new").raw("w", weights(pf)));
  long ids = 0;
  for (int k = 0, m = int(r.in(1, 8)); k < m; ++k) {
    // raw weights of 1/64; sometimes all zero, sometimes one takes all
    int kind = int(r.in(0, 6));
    int scale = r.chance(60) ? 0 : r.pick(std::vector<int>{-10, -40, -200, -400, 20});
    std::vector<long> raw;
    for (long i = 0; i < n; ++i)
      raw.push_back(kind == 0 ? 0 : kind == 1 ? (r.chance(80) ? 0 : r.in(1, 64)) : kind == 2 ? 64 : kind == 3 ? r.in(1, 64) : r.in(0, 64));
    if (kind == 6) { // as many particles share the weight as make it a close call
      long share = std::max(1L, n / 2 + (r.chance(30) ? r.in(-1, 1) : 0)), at = r.in(0, n - 1);
      for (long i = 0; i < n; ++i) raw[(at + i) % n] = i < share ? 4 : 0;
    }
    long i = 0;
    for (auto &p : pf.particles()) { p->set_weight(std::ldexp(raw[i++] / 64.0, scale)); p->id = ++ids; p->sampled = 0; p->mark = 0; }
    T().add(Ev("raw").a("w", raw));
    pf.normalize_weights();
    T().add(Ev("norm").raw("w", weights(pf)));
    {
      // the heaviest one, asked in both ways
      const PF &c = pf;
      T().add(Ev("heavy").i("c", I(c.heaviest_particle().weight(), 1e6)).i("m", I(pf.heaviest_particle().weight(), 1e6))
              .t("same", [&] { for (auto &p : pf.particles()) if (p.get() == &pf.heaviest_particle()) return true; return false; }()));
    }
    auto before = pf.particles();
    bool done = pf.try_resample();
    std::vector<long> src;
    std::set<Spy *> distinct;
    for (auto &p : pf.particles()) { src.push_back(p->id - ids + n); distinct.insert(p.get()); }
    // is each of them an individual?
    long mark = 0;
    for (auto &p : pf.particles()) p->mark = ++mark;
    mark = 0; bool indiv = true;
    for (auto &p : pf.particles()) indiv = indiv && p->mark == ++mark;
    bool fresh = true; // the duplicates were told to sample, exactly once each
    std::set<long> seen;
    long nfresh = 0;
    for (auto &p : pf.particles()) { nfresh += p->sampled; }
    T().add(Ev("resample").t("done", done).a("src", src).raw("w", weights(pf)).t("indiv", indiv && long(distinct.size()) == long(pf.particles().size()))
            .i("sampled", nfresh));
  }
  T().end();
}
static void pf_stat(Rng &r, long id, long rounds) {
  // how often is each particle drawn?
  long n = 4;
  std::vector<std::vector<long>> sets{{61, 1, 1, 1}, {0, 60, 4, 0}, {48, 16, 0, 0}, {1, 1, 2, 60}, {0, 0, 0, 64}};
  T().begin(Obj().i("id", id).i("n", n));
  for (auto &raw : sets) {
    std::vector<long> cnt(n, 0);
    long tot = 0;
    for (long k = 0; k < rounds; ++k) {
      PF pf{std::make_shared<SpyFactory>(), unsigned(n)};
      long i = 0;
      for (auto &p : pf.particles()) { p->set_weight(raw[i] / 64.0); p->id = i++; }
      if (!pf.try_resample()) { continue; }
      for (auto &p : pf.particles()) { ++cnt[p->id]; ++tot; }
    }
    T().add(Ev("stat").a("raw", raw).a("cnt", cnt).i("tot", tot));
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  std::cout.rdbuf(nullptr);
  if (a.mode == "single") for (int n = 0; n < a.n(1200, 6000); ++n) single(r, ++id);
  else if (a.mode == "particle") for (int n = 0; n < a.n(1000, 6000); ++n) particle(r, ++id);
  else if (a.mode == "filter") for (int n = 0; n < a.n(800, 6000); ++n) filter(r, ++id);
  else if (a.mode == "pf") {
    for (int n = 0; n < a.n(1200, 9000); ++n) pf_episode(r, ++id);
    pf_stat(r, ++id, a.n(2000, 10000));
  } else return 77;
  T().close();
  return 0;
}
