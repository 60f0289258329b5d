// a point rule that answers by place and remembers what it was asked
struct AskedPE : OccupancyObservationProbabilityEstimator {
  struct OIE2 : ObservationImpactEstimator {
    double estimate_impact(const GridCell &, const AreaOccupancyObservation &) const override { return 0; }
    AreaOccupancyObservation obstacle_AOO() const override { return {true, {0.75, 0.5}, {0, 0}, 0.25}; }
  };
  AskedPE() : OccupancyObservationProbabilityEstimator{std::make_shared<OIE2>()} {}
  double probability(const AreaOccupancyObservation &o, const LightWeightRectangle &r, const GridMap &) const override {
    asked.push_back(arr(std::vector<long>{A(o.obstacle.x, k, 1e-3), A(o.obstacle.y, k, 1e-3), A(r.left(), 2 * k, 1e-3),
      A(r.right(), 2 * k, 1e-3), A(r.bot(), 2 * k, 1e-3), A(r.top(), 2 * k, 1e-3)}));
    aoo = aoo && o.is_occupied && o.occupancy.prob_occ == 0.75 && o.occupancy.estimation_quality == 0.5 && o.quality == 0.25;
    long cx = long(std::floor(o.obstacle.x * k / U)), cy = long(std::floor(o.obstacle.y * k / U));
    long v = (5 * cx + 3 * cy) % 16;
    return double((v + 16) % 16 * 4) / 64;
  }
  double k = 1; // units per world length
  long U = 1;
  mutable std::vector<std::string> asked;
  mutable bool aoo = true;
};
struct SPt { long a, b; bool occ; long f; };
static std::string pts_json(const std::vector<SPt> &v) {
  std::vector<std::string> r;
  for (auto &p : v) r.push_back(Obj().i("a", p.a).i("b", p.b).t("occ", p.occ).i("f", p.f).str());
  return arrs(r);
}
static std::vector<double> flat(const LaserScan2D &s) {
  std::vector<double> v;
  for (auto &p : s.points()) { v.push_back(p.x()); v.push_back(p.y()); v.push_back(p.range()); v.push_back(p.angle()); v.push_back(p.factor()); v.push_back(p.is_occupied()); }
  return v;
}
static void scan_mode(Args &args) {
  Rng r(args.seed * 19 + 7);
  std::clog.rdbuf(nullptr);
  static const std::vector<std::vector<long>> Heads = {{25, 0}, {0, 25}, {-25, 0}, {0, -25}, {15, 20}, {-15, 20}, {7, 24}, {24, 7}, {-24, -7}, {20, -15}};
  for (long ep = 0, n = args.n(500, 6000); ep < n; ++ep) {
    int scheme = int(r.in(0, 2));
    long U = r.pick(std::vector<long>{64, 100, 256}), D = 1;
    double s = r.pick(std::vector<double>{1, 0.5, 0.125, 0.1, 2}), unit = s / U;
    static const std::vector<std::vector<long>> Triples = {{20, 21, 29}, {5, 12, 13}, {8, 15, 17}};
    auto tr = r.pick(Triples);
    if (scheme == 2) D = tr[2];
    int kind = r.pick(std::vector<int>{PLAIN, PLAIN, UPLAIN, LAZY, ULAZY});
    auto m = make_map(kind, std::make_shared<LogCell>(1), int(r.in(1, r.chance(50) ? 50 : 14)), int(r.in(1, r.chance(50) ? 50 : 14)), s);
    auto pe = std::make_shared<AskedPE>();
    pe->k = 1 / unit; pe->U = U;
    std::shared_ptr<ScanPointWeighting> spw;
    if (scheme == 0) spw = std::make_shared<EvenSPW>();
    if (scheme == 1) spw = std::make_shared<AngleHistogramReciprocalSPW>();
    if (scheme == 2) spw = std::make_shared<VinySlamSPW>();
    long skip = r.chance(50) ? 0 : r.in(1, 4), max2 = r.chance(60) ? -1 : 2 * r.in(1, 2500) + 1;
    bool dflt = skip == 0 && max2 == -1 && r.chance(50);
    auto spe = dflt ? std::make_shared<WeightedMeanPointProbabilitySPE>(pe, spw)
                    : std::make_shared<WeightedMeanPointProbabilitySPE>(pe, spw, unsigned(skip), max2 == -1 ? -1.0 : max2 * unit / 2);
    T().begin(Obj().i("U", U).i("D", D));
    for (int sc = 0, ns = int(r.in(1, 3)); sc < ns; ++sc) {
      // a scan
      std::vector<SPt> pts;
      int np = int(scheme == 1 ? r.in(0, 6) : r.in(0, 9));
      bool factors = r.chance(40), cart = scheme == 1 || r.chance(50);
      auto ambiguous = [&](const SPt &p) {
        if (scheme != 1) return false;
        for (auto &q : pts) {
          long dx = p.a - q.a, dy = p.b - q.b;
          if (dy == 0) continue;
          double ang = std::atan2(double(dy), double(dx)) * 180 / M_PI / 9;
          if (std::abs(ang - std::round(ang)) < 0.03) return true;
        }
        return false;
      };
      for (int i = 0, tries = 0; i < np && tries < 400; ++tries) {
        SPt p;
        if (scheme == 2) {
          long k = r.in(0, 3), x = tr[0], y = tr[1];
          if (r.chance(30)) { x = D; y = 0; }
          if (r.chance(50)) std::swap(x, y);
          if (r.chance(50)) x = -x;
          if (r.chance(50)) y = -y;
          p.a = k * k * x; p.b = k * k * y;
        } else {
          long span = r.chance(50) ? 40 : 12;
          p.a = r.in(-span, span); p.b = r.in(-span, span);
          if (scheme == 1 && !pts.empty() && r.chance(50)) { // walls
            long t = r.in(1, 4);
            p.a = pts.back().a + t * 3; p.b = pts.back().b + t * 5;
          }
        }
        p.occ = r.chance(scheme == 1 ? 90 : 80);
        p.f = factors ? r.in(0, 8) : 4;
        bool twice = false; // points are told apart by their places
        for (auto &o : pts) twice = twice || (o.a == p.a && o.b == p.b);
        if (twice) continue;
        if (2500 * (p.a * p.a + p.b * p.b) == max2 * max2 || ambiguous(p)) continue;
        pts.push_back(p);
        ++i;
      }
      LaserScan2D scan;
      for (auto &p : pts) {
        auto c = ScanPoint2D::make_cartesian(Point2D{25 * p.a * unit, 25 * p.b * unit}, p.occ);
        if (!cart) c = c.to_polar();
        scan.points().push_back(c.set_factor(p.f / 4.0));
      }
      auto place = [&](const std::vector<SPt> &v, long px, long py, const std::vector<long> &h) {
        for (auto &p : v) {
          long x = px + h[0] * p.a - h[1] * p.b, y = py + h[1] * p.a + h[0] * p.b;
          if (x % U == 0 || y % U == 0) return false;
          if ((px + 25 * p.a) % U == 0 || (py + 25 * p.b) % U == 0) return false;
        }
        return true;
      };
      auto where = [&](long &px, long &py, std::vector<long> &h) {
        for (int t = 0; t < 500; ++t) {
          px = r.in(-8 * U, 8 * U); py = r.in(-8 * U, 8 * U); h = r.pick(Heads);
          if (place(pts, px, py, h)) return true;
        }
        return false;
      };
      long px, py; std::vector<long> h;
      if (!where(px, py, h)) continue;
      auto pose_of = [&](long x, long y, const std::vector<long> &d) { return RobotPose{x * unit, y * unit, std::atan2(double(d[1]), double(d[0]))}; };
      auto pose = pose_of(px, py, h);
      auto ext = map_ext(*m);
      auto was = flat(scan);
      auto fp = print_of(*m);
      RobotPose pc = pose;
      T().about("filter_scan");
      auto kept = spe->filter_scan(scan, pose, *m);
      std::vector<long> ids;
      std::vector<SPt> kpts;
      size_t from = 0;
      auto kf = flat(kept);
      for (size_t i = 0; i < kept.points().size(); ++i) {
        size_t j = from;
        while (j < pts.size() && !std::equal(kf.begin() + i * 6, kf.begin() + i * 6 + 6, was.begin() + j * 6)) ++j;
        if (j == pts.size()) { ids.push_back(0); continue; }
        ids.push_back(long(j) + 1); kpts.push_back(pts[j]);
        from = j + 1;
      }
      T().add(Ev("filter").raw("pts", pts_json(pts)).a("pose", {px, py}).a("h", h).i("skip", skip).i("max2", max2)
        .raw("ext", Obj().t("any", unbounded(kind)).i("x", ext[0]).i("y", ext[1]).i("w", ext[2]).i("h", ext[3]).str())
        .a("kept", ids).t("pure", was == flat(scan) && fp == print_of(*m) && pc.x == pose.x && pc.y == pose.y && pc.theta == pose.theta));
      if (kpts.size() != kept.points().size()) continue;
      for (int q = 0, nq = int(r.in(1, 4)); q < nq; ++q) {
        bool raw = scheme != 1 && !kpts.empty() && r.chance(30); // weights are those of a filtered scan
        auto &sp = raw ? pts : kpts;
        auto &ss = raw ? scan : kept;
        if (!where(px, py, h)) continue;
        pose = pose_of(px, py, h);
        ScanProbabilityEstimator::SPEParams par;
        long aw = 0, ah = 0;
        bool plain = r.chance(30);
        par.scan_is_prerotated = !plain && r.chance(40);
        if (!plain && r.chance(70)) { aw = r.in(1, 3 * U); ah = r.in(1, 3 * U); par.sp_analysis_area = LightWeightRectangle{-ah * unit / 2, ah * unit / 2, -aw * unit / 2, aw * unit / 2}; }
        pe->asked.clear(); pe->aoo = true;
        was = flat(ss);
        pc = pose;
        T().about("estimate_scan_probability");
        const ScanProbabilityEstimator &est = *spe;
        double v = plain ? est.estimate_scan_probability(ss, pose, *m) : est.estimate_scan_probability(ss, pose, *m, par);
        T().add(Ev("score").raw("pts", pts_json(sp)).s("w", scheme == 0 ? "even" : scheme == 1 ? "ahr" : "viny")
          .a("pose", {px, py}).a("h", h).t("pre", par.scan_is_prerotated).a("area", {aw, ah}).raw("asked", arrs(pe->asked))
          .t("aoo", pe->aoo).t("unknown", std::isnan(v)).t("isunk", ScanProbabilityEstimator::is_prob_unknown(v)).i("res", I(v, 4096))
          .t("pure", was == flat(ss) && fp == print_of(*m) && pc.x == pose.x && pc.y == pose.y && pc.theta == pose.theta));
      }
    }
    T().end();
  }
}
