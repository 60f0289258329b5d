// Scan matchers that enumerate poses, run against scripted scores.
// Modes: protocol (C13), bf (C14), hc (C15), mc (C16).
#include "vh.h"
#include "core/maps/plain_grid_map.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/pose_enumerators.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
using namespace vh;

static double PS = 4096; // reported pose unit
static std::string pose(const RobotPose &p) {
  return arr(std::vector<long>{I(p.x, PS), I(p.y, PS), I(p.theta, PS)});
}
static std::string pose(const RobotPoseDelta &p) { return pose(RobotPose{p.x, p.y, p.theta}); }
static bool off_grid(const RobotPose &p) { // not exactly representable in the reported unit
  return X(p.x, PS) != I(p.x, PS) || X(p.y, PS) != I(p.y, PS) || X(p.theta, PS) != I(p.theta, PS);
}

// A score that depends on the pose only; the landscape is the episode's script.
struct Landscape {
  int kind; uint64_t salt; long lv; double cx, cy, ct, w;
  double at(const RobotPose &p) const {
    long x = I(p.x, PS), y = I(p.y, PS), t = I(p.theta, PS);
    uint64_t h = salt;
    for (long v : {x, y, t}) { h ^= uint64_t(v) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
    switch (kind) {
      case 0: return double(h % (lv + 1)) / 64;                  // rough, many ties
      case 1: {                                                  // one peak
        double d = std::abs(x / PS - cx) + std::abs(y / PS - cy) + std::abs(t / PS - ct);
        return std::floor(std::max(0.0, 1 - d / w) * 1024) / 1024;
      }
      case 2: return 0.5;                                        // flat
      case 3: return h % 7 == 0 ? std::nan("") : double(h % (lv + 1)) / 64; // sometimes unknown
      case 4: return h % 1024 / 1024.0;                          // rough, few ties
      default: return 0;
    }
  }
};
static Landscape landscape(Rng &r, double span, bool nan_ok) {
  Landscape l;
  l.kind = int(r.pick(std::vector<long>{0, 0, 1, 1, 1, 2, nan_ok ? 3 : 0, 4}));
  l.salt = r.next(); l.lv = r.pick(std::vector<long>{1, 3, 15, 64});
  auto c = [&] { return r.in(-1000, 1000) / 1000.0 * span; };
  l.cx = c(); l.cy = c(); l.ct = c(); l.w = 2 * span + 0.1;
  return l;
}
static long sc(double s) { return I(s, 1024); }

struct ScriptedSPE : ScanProbabilityEstimator {
  Landscape land; long keep = 2; long asked = 0;
  ScriptedSPE() : ScanProbabilityEstimator{nullptr} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &) override {
    LaserScan2D f; f.trig_provider = s.trig_provider;
    for (long i = 0; i < keep && i < long(s.points().size()); ++i) f.points().push_back(s.points()[i]);
    return f;
  }
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &,
                                   const SPEParams &) const override {
    ++const_cast<ScriptedSPE *>(this)->asked;
    if (asked > 200000) { fprintf(stderr, "matching does not end\n"); abort(); }
    return land.at(p);
  }
};

struct Logger : GridScanMatcherObserver {
  long id; const ScriptedSPE *spe; bool full;
  Logger(long i, const ScriptedSPE *s, bool f) : id{i}, spe{s}, full{f} {}
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &) override {
    if (full) T().add(Ev("start").i("o", id).raw("p", pose(p)).i("s", 0).i("n", s.scan.points().size()));
  }
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double v) override {
    Ev e("test");
    if (full) e.i("o", id).i("n", s.points().size());
    e.raw("p", pose(p)).i("s", sc(v));
    if (full) e.i("f", sc(spe->land.at(p)));
    if (!full && off_grid(p)) e.i("off", 1);
    T().add(e);
  }
  void on_pose_update(const RobotPose &p, const LaserScan2D &s, double v) override {
    if (full) T().add(Ev("upd").i("o", id).raw("p", pose(p)).i("s", sc(v)).i("n", s.points().size()));
  }
  void on_matching_end(const RobotPose &p, const LaserScan2D &s, double v) override {
    if (full) T().add(Ev("end").i("o", id).raw("p", pose(p)).i("s", sc(v)).i("n", s.points().size()));
  }
};

static TransformedLaserScan make_scan(int n, double frame = 0) {
  TransformedLaserScan s; s.quality = 1;
  for (int i = 0; i < n; ++i) {
    // points along a line turned by `frame`
    double u = 1 + i * 0.25, v = 2;
    double x = u * std::cos(frame) - v * std::sin(frame), y = u * std::sin(frame) + v * std::cos(frame);
    s.scan.points().push_back(ScanPoint2D::make_polar(std::hypot(x, y), std::atan2(y, x), true));
  }
  return s;
}
static double dy(Rng &r, long lo, long hi, double q) { return r.in(lo, hi) / q; }

// an enumerator whose proposals follow a script
struct RandomPE : PoseEnumerator {
  Rng r; long n = 0, left = 0; uint64_t seed0;
  explicit RandomPE(uint64_t s, long n_) : r{s}, n{n_}, seed0{s} { reset(); }
  bool has_next() const override { return left > 0; }
  RobotPose next(const RobotPose &p) override {
    return {p.x + dy(r, -2, 2, 8), p.y + dy(r, -2, 2, 8), p.theta + dy(r, -1, 1, 16)};
  }
  void reset() override { left = n; }
  void feedback(bool) override { --left; }
};

static void protocol(Rng &r, long id) {
  auto map = UnboundedPlainGridMap{std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{4, 4, 0.5}};
  auto spe = std::make_shared<ScriptedSPE>();
  std::shared_ptr<GridScanMatcher> m;
  int kind = int(r.in(0, 4));
  PS = 4096;
  switch (kind) {
    case 0: m = std::make_shared<BruteForceScanMatcher>(spe, -0.25, 0.25, 0.25, -0.5, 0.25, 0.25, -0.125, 0.125, 0.125); break;
    case 1: m = std::make_shared<HillClimbingScanMatcher>(spe, unsigned(r.in(0, 4)), 0.5, 0.25); break;
    case 2: PS = 1e6; m = std::make_shared<MonteCarloScanMatcher>(spe, unsigned(r.in(1, 1000)), 0.25, 0.125, unsigned(r.in(1, 12)), unsigned(r.in(0, 40))); break;
    case 3: m = std::make_shared<PoseEnumerationScanMatcher>(spe, std::make_shared<RandomPE>(r.next(), r.in(0, 30))); break;
    // (observers of this one are told nothing, so none is there to be told)
    case 4: PS = 1e6; m = std::make_shared<HillClimbingSMFixed>(spe, int(r.in(1, 6))); break;
  }
  T().begin(Obj().i("id", id).i("kind", kind).i("tol", kind == 2 ? 2 : 0));
  std::map<long, std::shared_ptr<Logger>> kept, listed; // listed: subscribed and alive
  long next_id = 0;
  for (int k = 0, n = int(r.in(1, 4)); k < n; ++k) {
    for (int c = kind == 4 ? 0 : int(r.in(0, 2)); c-- > 0;) { // subscribe a newcomer
      auto o = std::make_shared<Logger>(++next_id, spe.get(), true);
      m->subscribe(o); listed[o->id] = o;
    }
    if (!listed.empty() && r.chance(30)) { // unsubscribe someone but keep it alive
      auto it = listed.begin(); std::advance(it, r.in(0, long(listed.size()) - 1));
      m->unsubscribe(it->second); kept[it->first] = it->second; listed.erase(it);
    }
    if (!listed.empty() && r.chance(20)) { // someone is destroyed without saying so
      auto it = listed.begin(); std::advance(it, r.in(0, long(listed.size()) - 1));
      listed.erase(it);
    }
    spe->land = landscape(r, 1.0, kind != 1);
    // nothing may be left to match, or nothing may have been seen at all
    spe->keep = r.chance(15) ? 0 : r.in(1, 5); spe->asked = 0;
    long seen = r.chance(10) ? 0 : 5;
    spe->keep = std::min(spe->keep, seen);
    auto scan = make_scan(int(seen));
    scan.quality = r.pick(std::vector<double>{1, 0.5, 0});
    RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)};
    std::vector<long> live;
    for (auto &o : listed) live.push_back(o.first);
    T().add(Ev("match").raw("p", pose(g)).a("live", live).i("n", seen).i("keep", spe->keep).i("f", sc(spe->land.at(g))));
    RobotPoseDelta d{7, 7, 7};
    double s = m->process_scan(scan, g, map, d);
    auto again = spe->land.at(g + d);
    // a pose that is only approximately the tested one may score differently on a rough landscape
    T().add(Ev("ret").raw("p", pose(d)).i("s", sc(s)).i("again", kind == 2 ? sc(s) : sc(again)));
  }
  T().end();
}

// drives a matcher through several matchings, reporting proposals only
// turn: how far the scans are turned, per matching (frame: whether the turn is told, as the direction
// most neighbouring points are laid along)
static void runs(Rng &r, GridScanMatcher &m, ScriptedSPE &spe, int n, double span, int frame_pts, bool turn) {
  auto map = UnboundedPlainGridMap{std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{4, 4, 0.5}};
  auto o = std::make_shared<Logger>(1, &spe, false);
  m.subscribe(o);
  for (int k = 0; k < n; ++k) {
    spe.land = landscape(r, span, false);
    spe.asked = 0;
    RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)};
    spe.land.cx += g.x; spe.land.cy += g.y; spe.land.ct += g.theta;
    if (r.chance(20)) m.reset_state();
    // (a scan may have too few points to lie along anything)
    auto scan = make_scan(turn && r.chance(20) ? int(r.in(0, 1)) : frame_pts, turn ? r.in(0, 30) * 0.1 : 0);
    scan.quality = r.pick(std::vector<double>{1, 1, 0.9, 0.25, 0});
    double fr = 0;
    if (turn) { AngleHistogram h{20}; h.reset(scan.scan); fr = h.major_direction(); if (scan.scan.points().size() < 2) fr = 0; }
    T().add(Ev("match").raw("p", pose(g)).i("c", I(std::cos(fr), 8192)).i("sn", I(std::sin(fr), 8192)));
    RobotPoseDelta d;
    T().about("matching from " + pose(g));
    double s = m.process_scan(scan, g, map, d);
    T().add(Ev("ret").raw("p", pose(d)).i("s", sc(s)));
  }
}
static void bf(Rng &r, long id) {
  PS = 256;
  double q[3] = {16, 16, 32};
  long from[3], cnt[3], step[3], slack[3];
  for (int i = 0; i < 3; ++i) { step[i] = r.in(1, 4); from[i] = r.in(-6, 2); cnt[i] = r.in(0, i == 2 ? 3 : 4); slack[i] = r.chance(25) ? r.in(0, step[i] - 1) : 0; }
  auto v = [&](int i, long k) { return k / q[i]; };
  auto spe = std::make_shared<ScriptedSPE>();
  auto to = [&](int i) { return v(i, from[i] + cnt[i] * step[i] + slack[i]); };
  BruteForceScanMatcher m{spe, v(0, from[0]), to(0), v(0, step[0]), v(1, from[1]), to(1), v(1, step[1]),
                          v(2, from[2]), to(2), v(2, step[2])};
  Obj h; h.i("id", id).i("direct", 0);
  std::vector<long> f, s, t;
  for (int i = 0; i < 3; ++i) { long u = long(PS / q[i]); f.push_back(from[i] * u); s.push_back(step[i] * u); t.push_back((from[i] + cnt[i] * step[i] + slack[i]) * u); }
  h.a("from", f).a("step", s).a("to", t);
  T().begin(h);
  if (r.chance(60)) runs(r, m, *spe, int(r.in(1, 4)), 0.5, 3, false);
  else { // the enumerator by itself, with arbitrary answers
    auto pe = m.pose_enumerator();
    for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
      RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)}, best = g;
      if (k || r.chance(50)) pe->reset();
      T().add(Ev("match").raw("p", pose(g)));
      T().add(Ev("test").raw("p", pose(g)).i("s", 0));
      long guard = 0, stop = r.chance(20) ? r.in(0, 10) : 100000;
      while (pe->has_next() && guard < stop) {
        if (++guard > 50000) { fprintf(stderr, "enumeration does not end\n"); abort(); }
        auto p = pe->next(best);
        Ev e("test"); e.raw("p", pose(p)).i("s", 0); if (off_grid(p)) e.i("off", 1);
        T().add(e);
        bool ok = r.chance(30);
        if (ok) best = p;
        pe->feedback(ok);
      }
      T().add(Ev(guard < stop ? "ret" : "cut").a("p", {0, 0, 0}).i("s", 0));
    }
  }
  T().end();
}
static void polar(Rng &r, long id) {
  PS = 1e5;
  long nd = r.in(0, 4), ns = r.in(0, 4);
  double fd = dy(r, -8, 8, 4), sd = dy(r, 1, 4, 4), fs = dy(r, -8, 8, 8), ss = dy(r, 1, 4, 8);
  PolarCoordBruteForcePoseEnumerator pe{fd, fd + nd * sd, sd, fs, fs + ns * ss, ss};
  std::vector<std::string> offs;
  for (long i = 0; i <= nd; ++i)
    for (long j = 0; j <= ns; ++j) {
      double a = fd + i * sd, d = fs + j * ss;
      offs.push_back(arr(std::vector<long>{I(std::cos(a) * d, PS), I(std::sin(a) * d, PS), 0}));
    }
  T().begin(Obj().i("id", id).raw("offs", arrs(offs)));
  for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
    RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)}, best = g;
    if (k || r.chance(50)) pe.reset();
    T().add(Ev("match").raw("p", pose(g)));
    long guard = 0;
    while (pe.has_next() && ++guard < 50000) {
      auto p = pe.next(best);
      T().add(Ev("test").raw("p", pose(p)));
      bool ok = r.chance(30);
      if (ok) best = p;
      pe.feedback(ok);
    }
    T().add(Ev("ret"));
  }
  T().end();
}
static void hc(Rng &r, long id) {
  PS = 65536;
  unsigned n = unsigned(r.in(0, 6));
  long tr = r.pick(std::vector<long>{8, 16, 32, 64, 48}), rt = r.pick(std::vector<long>{4, 16, 32, 24});
  bool aligned = r.chance(30);
  auto spe = std::make_shared<ScriptedSPE>();
  HillClimbingScanMatcher m{spe, n, tr / 64.0, rt / 64.0, aligned};
  int pts = int(r.in(aligned ? 3 : 0, 6));
  T().begin(Obj().i("id", id).i("max", n).i("tr", tr * 1024).i("rt", rt * 1024).t("al", aligned));
  runs(r, m, *spe, int(r.in(1, 4)), r.pick(std::vector<double>{0.5, 1, 3}), pts, aligned);
  T().end();
}
static void mc(Rng &r, long id) {
  PS = 1e6;
  unsigned seed = unsigned(r.in(1, 100000)), fal = unsigned(r.in(1, 24)), tot = unsigned(r.in(0, 160));
  double tr = r.pick(std::vector<double>{0.25, 0.5, 1}), rt = r.pick(std::vector<double>{0.125, 0.5});
  bool direct = r.chance(70);
  auto spe = std::make_shared<ScriptedSPE>();
  MonteCarloScanMatcher m{spe, seed, tr, rt, fal, tot};
  Obj h; h.i("id", id).i("fal", fal).i("tot", tot).i("tr", I(tr, 1000)).i("rt", I(rt, 1000));
  if (!direct) {
    // the same seed and the same scores twice
    T().begin(h.i("twin", 1));
    MonteCarloScanMatcher m2{spe, seed, tr, rt, fal, tot};
    Rng r1 = r, r2 = r;
    int n = int(r.in(1, 3));
    runs(r1, m, *spe, n, 1, 3, false);
    T().add(Ev("twin"));
    runs(r2, m2, *spe, n, 1, 3, false);
  } else {
    T().begin(h.i("twin", 0));
    GaussianPoseEnumerator pe{seed, tr, rt, fal, tot};
    for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
      RobotPose best{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)};
      if (k || r.chance(50)) pe.reset();
      T().add(Ev("match").raw("p", pose(best)));
      long guard = 0, luck = r.pick(std::vector<long>{0, 5, 10, 40, 100});
      while (pe.has_next()) {
        if (++guard > 50000) { fprintf(stderr, "enumeration does not end\n"); abort(); }
        auto p = pe.next(best);
        bool ok = r.chance(luck);
        T().add(Ev("draw").raw("b", pose(best)).raw("p", pose(p)).t("ok", ok));
        if (ok) best = p;
        pe.feedback(ok);
      }
      T().add(Ev("stop"));
    }
  }
  T().end();
}
// one long run per spread, for the statistics of the samples
static void mc_stat(Rng &r, long id, long n) {
  PS = 1e6;
  double tr = 0.5, rt = 0.25;
  unsigned fal = 6;
  GaussianPoseEnumerator pe{unsigned(r.in(1, 100000)), tr, rt, fal, 1000000};
  T().begin(Obj().i("id", id).i("fal", fal).i("tot", 1000000).i("tr", 500).i("rt", 250).i("twin", 0).i("n", n));
  std::map<long, std::vector<double>> sq; // per number of halvings: sums over x, y, theta of squares / spread^2, and of values
  std::vector<long> cnt(6, 0);
  std::vector<std::vector<double>> s2(6, std::vector<double>(6, 0));
  RobotPose best{0, 0, 0};
  for (long i = 0; i < n; ++i) {
    pe.reset();
    for (int lev = 0; lev < 6; ++lev) {
      for (int k = 0; k < 4; ++k) { // three failures and a late success
        if (!pe.has_next()) { fprintf(stderr, "stopped early\n"); abort(); }
        auto p = pe.next(best);
        double f = std::ldexp(1.0, lev);
        double z[3] = {(p.x - best.x) * f / tr, (p.y - best.y) * f / tr, (p.theta - best.theta) * f / rt};
        ++cnt[lev];
        for (int d = 0; d < 3; ++d) { s2[lev][d] += z[d] * z[d]; s2[lev][3 + d] += z[d]; }
        pe.feedback(k == 3);
      }
    }
  }
  for (int lev = 0; lev < 6; ++lev) {
    std::vector<long> a;
    for (int d = 0; d < 6; ++d) a.push_back(I(s2[lev][d] / cnt[lev], 10000));
    T().add(Ev("stat").i("lev", lev).i("cnt", cnt[lev]).a("m", a));
  }
  T().end();
}

// the climber with fixed steps: where it ends and what is around
static void fixed(Rng &r, long id) {
  PS = 1e6;
  auto map = UnboundedPlainGridMap{std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{4, 4, 0.5}};
  auto spe = std::make_shared<ScriptedSPE>();
  HillClimbingSMFixed m{spe, int(r.in(1, 6))};
  T().begin(Obj().i("id", id));
  const double lin = 0.01, ang = 0.5 * M_PI / 180;
  for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
    spe->land = landscape(r, r.pick(std::vector<double>{0.05, 0.3, 1}), false); spe->keep = 3;
    RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)};
    spe->land.cx += g.x; spe->land.cy += g.y; spe->land.ct += g.theta; spe->asked = 0;
    if (r.chance(20)) m.reset_state();
    RobotPoseDelta d{5, 5, 5};
    T().about("matching from " + pose(g));
    double s = m.process_scan(make_scan(5), g, map, d);
    auto p = g + d;
    std::vector<long> nb;
    for (int a = 0; a < 6; ++a) {
      double w = a % 2 ? -1 : 1;
      nb.push_back(sc(spe->land.at(RobotPose{p.x + (a / 2 == 0) * w * lin, p.y + (a / 2 == 1) * w * lin, p.theta + (a / 2 == 2) * w * ang})));
    }
    // along which axes, and by how many steps, the pose was moved
    T().add(Ev("climb").i("f", sc(spe->land.at(g))).i("s", sc(s)).i("again", sc(spe->land.at(p))).a("nb", nb)
      .a("st", {A(d.x / lin, 1, 1e-4), A(d.y / lin, 1, 1e-4), A(d.theta / ang, 1, 1e-4)}));
  }
  T().end();
}

// the detector of ambiguous drift around a matcher with a scripted answer
struct DotsSPE : ScanProbabilityEstimator {
  RobotPose from, base; uint64_t salt = 0; std::vector<bool> drop; long lv = 3; bool quiet = true;
  DotsSPE() : ScanProbabilityEstimator{nullptr} {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &) override {
    LaserScan2D f; f.trig_provider = s.trig_provider;
    for (size_t i = 0; i < s.points().size(); ++i) if (!drop[i]) f.points().push_back(s.points()[i]);
    return f;
  }
  static std::vector<long> pts(const LaserScan2D &s) { std::vector<long> v; for (auto &p : s.points()) { v.push_back(I(p.x(), 8)); v.push_back(I(p.y(), 8)); } return v; }
  double at(const LaserScan2D &s, const RobotPose &p) const {
    if (s.points().empty()) return std::nan("");
    uint64_t h = salt;
    auto v = pts(s);
    for (double c : {p.x - from.x, p.y - from.y, p.theta - from.theta}) v.push_back(I(c, 1e5));
    for (long x : v) { h ^= uint64_t(x) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
    return double(h % uint64_t(lv + 1)) / 64;
  }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    double v = at(s, p);
    if (!quiet) T().add(Ev("ask").a("pts", pts(s)).raw("p", pose(p - base)).i("s", sc(v)));
    return v;
  }
};
struct SaidSM : GridScanMatcher {
  RobotPoseDelta say; double score = 0; long resets = 0, calls = 0;
  SaidSM(SPE s) : GridScanMatcher{s} {}
  void reset_state() override { ++resets; }
  double process_scan(const TransformedLaserScan &, const RobotPose &, const GridMap &, RobotPoseDelta &d) override { ++calls; d = say; return score; }
};
static void dots(Rng &r, long id) {
  PS = 1e5;
  auto map = UnboundedPlainGridMap{std::make_shared<GridCell>(Occupancy{0.5, 1}), GridMapParams{4, 4, 0.5}};
  auto spe = std::make_shared<DotsSPE>();
  auto in = std::make_shared<SaidSM>(spe);
  ConnectTheDotsAmbiguousDriftDetector m{in};
  T().begin(Obj().i("id", id));
  const std::vector<std::array<long, 2>> dirs{{{1, 0}}, {{2, 1}}, {{1, 2}}, {{3, 1}}, {{1, 4}}, {{-1, 2}}, {{-2, 1}}, {{-4, 1}}};
  for (int k = 0, n = int(r.in(1, 3)); k < n; ++k) {
    TransformedLaserScan s; s.quality = 1;
    spe->drop.clear();
    long cnt = r.pick(std::vector<long>{0, 1, 2, 3, 5, 8, 10}), x = r.in(-20, 20), y = r.in(-20, 20), fav = r.in(0, 7), luck = r.pick(std::vector<long>{0, 25, 50, 80});
    std::vector<std::string> ps;
    for (long i = 0; i < cnt; ++i) {
      if (i) { auto d = dirs[size_t(r.chance(int(luck)) ? fav : r.in(0, 7))]; long w = r.pick(std::vector<long>{1, -1, 2}); x += w * d[0]; y += w * d[1]; }
      bool dr = r.chance(20);
      s.scan.points().push_back(ScanPoint2D::make_cartesian({x / 8.0, y / 8.0}, true)); spe->drop.push_back(dr);
      if (!dr) ps.push_back(arr(std::vector<long>{x, y}));
    }
    RobotPose g{dy(r, -32, 32, 8), dy(r, -32, 32, 8), dy(r, -16, 16, 8)};
    in->say = {dy(r, -4, 4, 8), dy(r, -4, 4, 8), dy(r, -4, 4, 16)};
    spe->from = g; spe->base = g + in->say; spe->salt = r.next(); spe->lv = r.pick(std::vector<long>{0, 1, 3, 15, 63});
    spe->quiet = true;
    LaserScan2D seen = spe->filter_scan(s.scan, g, map);
    in->score = spe->at(seen, spe->base); in->calls = 0;
    if (r.chance(30)) { long was = in->resets; m.reset_state(); T().add(Ev("reset").i("n", in->resets - was)); }
    T().add(Ev("match").raw("pts", arrs(ps)).i("s", sc(in->score)));
    spe->quiet = false;
    RobotPoseDelta d{5, 5, 5};
    double v = m.process_scan(s, g, map, d);
    spe->quiet = true;
    T().add(Ev("ret").raw("p", pose((g + d) - spe->base)).i("s", sc(v)).i("again", sc(spe->at(seen, g + d))).i("calls", in->calls));
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  if (a.mode == "protocol") for (int n = 0; n < a.n(600, 2000); ++n) protocol(r, ++id);
  else if (a.mode == "bf") for (int n = 0; n < a.n(120, 1200); ++n) bf(r, ++id);
  else if (a.mode == "polar") for (int n = 0; n < a.n(60, 600); ++n) polar(r, ++id);
  else if (a.mode == "hc") for (int n = 0; n < a.n(200, 2000); ++n) hc(r, ++id);
  else if (a.mode == "fixed") for (int n = 0; n < a.n(400, 4000); ++n) fixed(r, ++id);
  else if (a.mode == "dots") for (int n = 0; n < a.n(400, 4000); ++n) dots(r, ++id);
  else if (a.mode == "mc") {
    for (int n = 0; n < a.n(150, 1500); ++n) mc(r, ++id);
    for (int n = 0; n < 4; ++n) mc_stat(r, ++id, a.n(1000, 4000));
  } else return 77;
  T().close();
  return 0;
}
