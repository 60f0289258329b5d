// Components built from configurations (C24): what the factories build for the configurations the specification wrote down.
#include "vh.h"
#include "utils/init_slam.h"
#include "utils/properties_providers.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#include <sys/wait.h>
#include <typeinfo>
#include <dirent.h>
#ifndef VERIF_CONFIG
#define VERIF_CONFIG "/repo/config"
#endif
using namespace vh;
using Words = std::vector<std::string>;
static Words split(const std::string &s, char d) {
  Words r;
  std::string cur;
  for (char c : s) { if (c == d) { r.push_back(cur); cur.clear(); } else cur += c; }
  r.push_back(cur);
  return r;
}

// ---- reference objects, from the words of the specification
static Words w;
static size_t at;
static std::string word() { if (at >= w.size()) _exit(77); return w[at++]; }
static void expect(const std::string &s) { if (word() != s) _exit(77); }
static double num() {
  auto s = word();
  if (s == "inf") return std::numeric_limits<double>::infinity();
  if (s.substr(0, 4) == "deg:") return deg2rad(std::stod(s.substr(4)));
  return std::stod(s);
}
static unsigned uns() { return unsigned(std::stoul(word())); }
static bool flag() { auto s = word(); if (s != "true" && s != "false") _exit(77); return s == "true"; }
static bool undetermined = false; // only the types of the parts are compared
static bool bounding = true;      // the point rule bounds from above on coarse cells, as BF_M3RSM needs it

static std::shared_ptr<ObservationImpactEstimator> ref_oie() {
  expect("oie");
  if (word() == "discrepancy") return std::make_shared<DiscrepancyOIE>();
  return std::make_shared<OccupancyOIE>();
}
static std::shared_ptr<OccupancyObservationProbabilityEstimator> ref_oope() {
  auto k = word();
  if (k == "gmoope") { double th = num(); return std::make_shared<GmappingOccupancyObservationPE>(th, uns()); }
  if (k != "oope") _exit(77);
  auto t = word();
  auto oie = ref_oie();
  bounding = t == "max";
  if (t == "obstacle") return std::make_shared<ObstacleBasedOccupancyObservationPE>(oie);
  if (t == "max") return std::make_shared<MaxOccupancyObservationPE>(oie);
  if (t == "mean") return std::make_shared<MeanOccupancyObservationPE>(oie);
  return std::make_shared<OverlapWeightedOccupancyObservationPE>(oie);
}
static std::shared_ptr<ScanPointWeighting> ref_swp() {
  expect("swp");
  auto t = word();
  if (t == "even") return std::make_shared<EvenSPW>();
  if (t == "viny") return std::make_shared<VinySlamSPW>();
  return std::make_shared<AngleHistogramReciprocalSPW>();
}
static std::shared_ptr<ScanProbabilityEstimator> ref_spe() {
  expect("wmpp");
  unsigned skip = uns();
  double range = num();
  auto s = ref_swp();
  return std::make_shared<WeightedMeanPointProbabilitySPE>(ref_oope(), s, skip, range);
}
static std::shared_ptr<GridScanMatcher> ref_sm() {
  auto t = word();
  bool dots = t == "dots";
  if (dots) t = word();
  std::vector<double> v;
  std::shared_ptr<GridScanMatcher> sm;
  if (t == "MC") {
    auto s = word();
    if (s == "any") undetermined = true;
    int seed = s == "any" ? 0 : std::stoi(s);
    double tr = num(), rot = num();
    unsigned fal = uns(), lim = uns();
    sm = std::make_shared<MonteCarloScanMatcher>(ref_spe(), seed, tr, rot, fal, lim);
  } else if (t == "HC") {
    unsigned fal = uns();
    double tr = num(), rot = num();
    bool fa = flag();
    sm = std::make_shared<HillClimbingScanMatcher>(ref_spe(), fal, tr, rot, fa);
  } else if (t == "BF") {
    for (int i = 0; i < 9; ++i) v.push_back(num());
    sm = std::make_shared<BruteForceScanMatcher>(ref_spe(), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
  } else if (t == "BF_M3RSM") {
    for (int i = 0; i < 5; ++i) v.push_back(num());
    sm = std::make_shared<BruteForceMultiResolutionScanMatcher>(ref_spe(), v[0], v[1], v[2], v[3], v[4]);
    if (!bounding) undetermined = true;
  } else if (t == "idle") sm = std::make_shared<NoActionScanMatcher>(ref_spe());
  else if (t == "HC_FIXED") sm = std::make_shared<HillClimbingSMFixed>(ref_spe());
  else _exit(77);
  if (dots) sm = std::make_shared<ConnectTheDotsAmbiguousDriftDetector>(sm);
  return sm;
}
static GridMapParams ref_size() {
  expect("size");
  int ww = int(num()), h = int(num());
  return {ww, h, num()};
}
static std::shared_ptr<CellOccupancyEstimator> ref_est() {
  expect("est");
  auto t = word();
  double a = num(), b = num(), c = num(), d = num();
  if (t == "const") return std::make_shared<ConstOccupancyEstimator>(Occupancy{a, b}, Occupancy{c, d});
  return std::make_shared<AreaOccupancyEstimator>(Occupancy{a, b}, Occupancy{c, d});
}
static std::shared_ptr<ObservationMappingQualityEstimator> ref_omqe() {
  expect("omqe");
  if (word() == "idle") return std::make_shared<IdleOMQE>();
  return std::make_shared<AngleHistogramResiprocalOMQE>();
}
static std::shared_ptr<GridMapScanAdder> ref_adder() {
  expect("adder");
  double blur = num(), range = num();
  auto e = ref_est();
  auto o = ref_omqe();
  auto b = WallDistanceBlurringScanAdder::builder();
  return b.set_blur_distance(blur).set_max_usable_range(range).set_occupancy_estimator(e).set_observation_quality_estimator(o).build();
}
static std::shared_ptr<GridCell> ref_area() {
  expect("cell");
  auto t = word();
  if (t == "tbm_consistent") return std::make_shared<TbmOccConsistentCell>();
  if (t == "tbm_unknown_even_occ") return std::make_shared<TbmUnknownEvenOccCell>();
  if (t == "affine_quality_merge") return std::make_shared<AffineQualityMergeCell>();
  if (t == "credibilist") return std::make_shared<CredibilistCell>();
  if (t != "mean_probability") _exit(77);
  return std::make_shared<MeanProbabilityCell>();
}
template <typename M> static std::shared_ptr<GridMap> ref_map_of(std::shared_ptr<ObservationImpactEstimator> oie, std::shared_ptr<GridCell> c, GridMapParams p) {
  if (oie) return std::make_shared<M3RSMRescalableGridMap<M>>(oie, c, p);
  return std::make_shared<M>(c, p);
}
static std::shared_ptr<GridMap> ref_map() {
  expect("map");
  auto t = word();
  auto p = ref_size();
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (word() == "rescalable") oie = ref_oie();
  auto c = ref_area();
  if (t == "plain") return ref_map_of<PlainGridMap>(oie, c, p);
  if (t == "unbounded_plain") return ref_map_of<UnboundedPlainGridMap>(oie, c, p);
  if (t == "lazy_tiled") return ref_map_of<LazyTiledGridMap>(oie, c, p);
  return ref_map_of<UnboundedLazyTiledGridMap>(oie, c, p);
}
static std::shared_ptr<LaserScanGridWorld> ref_slam() {
  expect("slam");
  expect("qualities");
  SingleStateHypothesisLSGWProperties s;
  s.localized_scan_quality = num();
  s.raw_scan_quality = num();
  s.grid_map = ref_map();
  s.gsm = ref_sm();
  s.gmsa = ref_adder();
  return std::make_shared<SingleStateHypothesisLaserScanGridWorld>(s);
}
static GMappingParams ref_sampling() {
  expect("sampling");
  std::vector<double> v;
  for (int i = 0; i < 8; ++i) v.push_back(num());
  return {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]};
}
static std::shared_ptr<LaserScanGridWorld> ref_gmapping() {
  expect("gmapping");
  expect("particles");
  unsigned n = uns();
  if (n > 1) undetermined = true;
  auto prm = ref_sampling();
  auto size = ref_size();
  SingleStateHypothesisLSGWProperties s;
  s.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), size);
  s.gsm = std::make_shared<HillClimbingScanMatcher>(ref_spe(), 6, 0.1, 0.1);
  s.gmsa = ref_adder();
  return std::make_shared<GmappingParticleFilter>(s, prm, n);
}

// ---- what an object does, as a text
static std::ostringstream out;
static void put(double v) { char b[40]; snprintf(b, 40, "%.10g ", v); out << b; }
static void put(const RobotPose &p) { put(p.x); put(p.y); put(p.theta); }
struct Cell : GridCell { // occupancy and discrepancy are independent
  Cell(double p = 0.3, double d = 0.45) : GridCell{Occupancy{p, 1}}, d{d} { on_update(); }
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<Cell>(*this); }
  double discrepancy(const AreaOccupancyObservation &a) const override { return a.occupancy > 0.5 ? d : 1 - d; }
  double d;
};
static std::shared_ptr<GridMap> test_map(bool rescalable, double s = 0.25) {
  std::shared_ptr<GridMap> m;
  GridMapParams p{48, 48, s};
  if (rescalable) m = std::make_shared<M3RSMRescalableGridMap<PlainGridMap>>(std::make_shared<OccupancyOIE>(), std::make_shared<Cell>(0, 1), p);
  else m = std::make_shared<PlainGridMap>(std::make_shared<Cell>(0, 1), p);
  for (int x = -24; x < 24; ++x)
    for (int y = -24; y < 24; ++y) {
      long h = (x * 7 + y * 13 + x * y * 3) % 29;
      double v = double(h < 0 ? h + 29 : h) / 40;
      m->reset({x, y}, rescalable ? Cell{v, 1 - v} : Cell{v, 0.9 - v * v});
    }
  return m;
}
static TransformedLaserScan test_scan(double r0 = 0.4, double k = 1.3) {
  TransformedLaserScan s;
  s.scan.points() = {};
  for (int i = 0; i < 13; ++i)
    s.scan.points().push_back(ScanPoint2D::make_polar(r0 + k * ((i * i * 5) % 11) / 11.0, -1.9 + 0.31 * i, i % 6 != 4));
  s.quality = 1;
  return s;
}
static void does(ObservationImpactEstimator &o) {
  out << typeid(o).name() << " ";
  put(o.estimate_obstacle_impact(Cell{}));
}
static void does(OccupancyObservationProbabilityEstimator &o) {
  out << typeid(o).name() << " ";
  auto m = test_map(false);
  for (int i = 0; i < 12; ++i) {
    Point2D p{0.37 * i - 2, 1.9 - 0.29 * i};
    put(o.probability({true, {1, 1}, p, 1}, Rectangle{p.y - 0.3, p.y + 0.41, p.x - 0.22, p.x + 0.35}, *m));
  }
}
static void does(ScanPointWeighting &o) {
  out << typeid(o).name() << " ";
  auto s = test_scan();
  o.reset(s.scan);
  for (size_t i = 0; i < s.scan.points().size(); ++i) put(o.weight(s.scan.points(), i));
}
static void does(ScanProbabilityEstimator &o) {
  out << typeid(o).name() << " ";
  auto &oo = *o.occupancy_observation_probability_estimator();
  out << typeid(oo).name() << " ";
  auto m = test_map(false);
  for (int i = 0; i < 3; ++i) {
    RobotPose p{0.3 * i, -0.2 * i, 0.4 * i};
    auto f = o.filter_scan(test_scan().scan, p, *m);
    out << f.points().size() << " ";
    for (auto &x : f.points()) { put(x.range()); put(x.angle()); }
    ScanProbabilityEstimator::SPEParams prm;
    prm.sp_analysis_area = Rectangle{-0.2, 0.3, -0.25, 0.15};
    put(o.estimate_scan_probability(f, p, *m));
    put(o.estimate_scan_probability(f, p, *m, prm));
  }
}
struct Watch : GridScanMatcherObserver {
  long n = 0;
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double v) override {
    if (++n <= 400) { put(p); put(v); out << s.points().size() << " "; }
  }
};
static void does(GridScanMatcher &o, bool m3) {
  out << typeid(o).name() << " ";
  if (undetermined) return;
  auto m = test_map(m3);
  for (int i = 0; i < 2; ++i) {
    auto wt = std::make_shared<Watch>();
    o.subscribe(wt);
    RobotPoseDelta d;
    o.reset_state();
    auto sc = test_scan();
    put(o.process_scan(sc, RobotPose{0.1 * i, 0.07, 0.2}, *m, d));
    put(d.x); put(d.y); put(d.theta);
    out << wt->n << " ";
  }
  put(m->scale());
}
static void does(const GridMapParams &p) { out << p.width_cells << " " << p.height_cells << " "; put(p.meters_per_cell); }
static void does(CellOccupancyEstimator &o) {
  out << typeid(o).name() << " ";
  Rectangle c{1, 2, 1, 2};
  for (bool occ : {true, false})
    for (auto &s : {Segment2D{{0.3, 1.2}, {3, 1.7}}, Segment2D{{0.3, 1.2}, {1.6, 1.55}}, Segment2D{{1.2, 1.3}, {1.8, 1.9}}, Segment2D{{0.5, 0.3}, {1.7, 1.4}}}) {
      auto r = o.estimate_occupancy(s, c, occ);
      put(r.prob_occ); put(r.estimation_quality);
    }
}
static void does(ObservationMappingQualityEstimator &o) {
  out << typeid(o).name() << " ";
  auto s = test_scan();
  o.reset(s.scan);
  for (size_t i = 0; i < s.scan.points().size(); ++i) put(o.quality(s.scan.points(), i));
}
struct RecMap : UnboundedPlainGridMap {
  using UnboundedPlainGridMap::UnboundedPlainGridMap;
  void update(const Coord &c, const AreaOccupancyObservation &o) override {
    out << c.x << "," << c.y << " " << o.is_occupied << " ";
    put(o.occupancy.prob_occ); put(o.occupancy.estimation_quality); put(o.quality);
  }
};
static void does(GridMapScanAdder &o) {
  out << typeid(o).name() << " " << typeid(*o._occ_est).name() << " " << typeid(*o._omqe).name() << " ";
  RecMap m{std::make_shared<Cell>(), {20, 20, 0.21}};
  auto s = test_scan();
  o.append_scan(m, RobotPose{0.113, -0.207, 0.3}, s.scan, 0.75, 0);
}
static void does(const GridCell &proto) {
  auto c = proto.clone();
  out << typeid(*c).name() << " ";
  double k = 0;
  for (auto p : {0.9, 0.2, 0.7}) {
    *c += AreaOccupancyObservation{p > 0.5, {p, 0.8 - k}, {0.3, 0.2}, 0.6};
    k += 0.3;
    put(c->occupancy().prob_occ); put(c->occupancy().estimation_quality);
    put(c->discrepancy({true, {0.8, 0.7}, {0.31, 0.2}, 0.9}));
  }
}
static void does(GridMap &m) {
  out << typeid(m).name() << " " << m.width() << " " << m.height() << " ";
  put(m.scale());
  auto o = m.origin();
  out << o.x << "," << o.y << " ";
  does(m[{0, 0}]);
  int n = 0;
  for (auto c : {DiscretePoint2D{0, 0}, DiscretePoint2D{-1, -1}, DiscretePoint2D{0, -1}, DiscretePoint2D{-1, 0}}) {
    auto q = n++ % 2 ? 0.9 : 0.2;
    m.update(c, AreaOccupancyObservation{true, {q > 0.5 ? 0.7 : 0.9, q}, {0.3, 0.2}, 0.95});
  }
  double s = m.scale();
  for (int l = 0; l < 4; ++l) {
    m.rescale(s * (1 << l));
    put(m.scale());
    for (int x = -1; x < 1; ++x)
      for (int y = -1; y < 1; ++y)
        if (m.has_cell({x, y})) { put(m.occupancy({x, y})); put(m[{x, y}].is_unknown()); }
  }
}
static void does(LaserScanGridWorld &wld, bool gm, bool m3) {
  out << typeid(wld).name() << " " << typeid(wld.map()).name() << " " << wld.map().width() << " " << wld.map().height() << " ";
  put(wld.map().scale());
  if (undetermined) return;
  int n = m3 ? 1 : 3;
  for (int i = 0; i < n; ++i) {
    auto s = test_scan(0.12, 0.3);
    s.pose_delta = gm ? RobotPoseDelta{4, 0.3, 0.1} : RobotPoseDelta{0.02, -0.03, 0.05};
    wld.handle_sensor_data(s);
    put(wld.pose());
  }
  put(wld.map().scale());
  out << wld.map().width() << " " << wld.map().height() << " ";
  for (int x = -12; x <= 12; ++x)
    for (int y = -12; y <= 12; ++y) {
      GridMap::Coord c{x + (gm ? int(4.1 / wld.map().scale()) : 0), y};
      if (wld.map().has_cell(c)) put(wld.map().occupancy(c));
    }
}
template <typename T> static void does(const std::shared_ptr<T> &p) { does(*p); }
static void does(GMappingParams &p) {
  std::mt19937 e(5);
  for (int i = 0; i < 3; ++i) {
    auto d = p.pose_guess_rv.sample(e);
    put(d.x); put(d.y); put(d.theta);
    d = p.next_sm_delta_rv.sample(e);
    put(d.x); put(d.y); put(d.theta);
  }
}

static void both(const std::string &f, const PropertiesProvider &p, bool real) {
  bool m3 = is_m3rsm(scan_matcher_type(p));
  if (f == "oie") does(real ? init_oie(p) : ref_oie());
  else if (f == "oope") does(real ? init_oope(p) : ref_oope());
  else if (f == "swp") does(real ? init_swp(p) : ref_swp());
  else if (f == "spe") { if (real) { std::shared_ptr<ScanProbabilityEstimator> s = init_spe(p); does(*s); } else does(*ref_spe()); }
  else if (f == "gmspe") { if (real) { std::shared_ptr<ScanProbabilityEstimator> s = init_gmapping_prob_estimator(p); does(*s); } else does(*ref_spe()); }
  else if (f == "sm") does(real ? *init_scan_matcher(p) : *ref_sm(), m3);
  else if (f == "size") { auto s = real ? init_grid_map_params(p) : ref_size(); does(s); }
  else if (f == "est") does(real ? init_occ_estimator(p) : ref_est());
  else if (f == "omqe") does(real ? init_omqe(p) : ref_omqe());
  else if (f == "adder") { if (real) { std::shared_ptr<GridMapScanAdder> s = init_scan_adder(p); does(*s); } else does(*ref_adder()); }
  else if (f == "area") does(*(real ? init_occupied_area_model(p) : ref_area()));
  else if (f == "map") does(real ? init_grid_map(p) : ref_map());
  else if (f == "qualities") {
    if (real) { auto t = init_pose_quality_estimators(p); put(std::get<0>(t)); put(std::get<1>(t)); }
    else { expect("qualities"); put(num()); put(num()); }
  } else if (f == "particles") { if (real) put(init_particles_nm(p)); else { expect("particles"); put(uns()); } }
  else if (f == "sampling") { auto s = real ? init_gmapping_params(p) : ref_sampling(); does(s); }
  else if (f == "slam") { if (real) does(*init_1h_slam(p), false, m3); else does(*ref_slam(), false, m3); }
  else if (f == "credibilist") { if (real) does(*init_credibilist_slam(p), false, m3); else does(*ref_slam(), false, m3); }
  else if (f == "gmapping") { if (real) does(*init_gmapping(p), true, false); else does(*ref_gmapping(), true, false); }
  else if (f == "keys") return;
  else _exit(77);
}

// S: the same as the words say, D: another one, B: built something although it has to be refused; R: refused, X: crashed
static char replay(const std::string &f, const PropertiesProvider &p, const Words &want) {
  int fd[2];
  if (pipe(fd)) exit(77);
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, SIG_DFL);
    close(fd[0]);
    alarm(60);
    int null = open("/dev/null", O_RDWR);
    if (!getenv("CFG_LOUD")) { dup2(null, 1); dup2(null, 2); }
    w = want; at = 0;
    auto say = [&](char c) { if (write(fd[1], &c, 1) != 1) _exit(77); };
    std::string ref;
    bool refuse = want.size() == 1 && want[0] == "refused";
    if (!refuse) {
      both(f, p, false);
      if (at != w.size()) _exit(77);
      ref = out.str();
      out.str("");
    }
    say('r'); // the reference is there
    both(f, p, true);
    if (getenv("CFG_LOUD")) std::cerr << "REF " << ref << "\nGOT " << out.str() << "\n";
    say(refuse ? 'B' : out.str() == ref ? 'S' : 'D');
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char c;
  while (read(fd[0], &c, 1) == 1) got += c;
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (got.empty() && WIFSIGNALED(st)) return 'X'; // the named component itself fails
  if (got.empty()) { std::cerr << "no reference for " << f; for (auto &x : want) std::cerr << " " << x; std::cerr << "\n"; exit(77); }
  if (got.size() == 2) return got[1];
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) return 'X';
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 'X';
  return 'R';
}

static std::string pairs(const std::map<std::string, std::string> &p) {
  Words r;
  for (auto &kv : p) r.push_back("[" + q(kv.first) + "," + q(kv.second) + "]");
  return arrs(r);
}
static std::string texts(const Words &v) { Words r; for (auto &s : v) r.push_back(q(s)); return arrs(r); }

using Pairs = std::map<std::string, std::string>;
static void event(const std::string &f, const Pairs &kv, const Words &want, const std::string &file) {
  MapPropertiesProvider p;
  for (auto &e : kv) p.set_property(e.first, e.second);
  char got = replay(f, p, want);
  T().add(Ev("built").s("f", f).s("file", file).raw("p", pairs(kv)).raw("want", texts(want)).s("got", std::string(1, got)));
}
// the settings files of the repository, as the real reader understands them; made small and deterministic
static int read_shipped(const char *to) {
  std::ofstream o(to);
  for (std::string dir : {"bag_runner", "slams", "common"}) {
    std::string path = std::string(VERIF_CONFIG) + "/" + dir;
    std::vector<std::string> names;
    if (DIR *d = opendir(path.c_str())) {
      while (auto *e = readdir(d)) {
        std::string n = e->d_name;
        if (n.size() > 11 && n.substr(n.size() - 11) == ".properties") names.push_back(n);
      }
      closedir(d);
    }
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
      FilePropertiesProvider fp;
      fp.append_file_content(path + "/" + n);
      bool whole = dir == "bag_runner" || (dir == "slams" && n.find("cell") == std::string::npos);
      for (int fixed = 0; fixed < 2; ++fixed) {
        Pairs kv;
        bool gm = n.find("gmapping") != std::string::npos;
        for (auto &k : fp.available_properties()) if (k.substr(0, 5) == "slam/") kv[k] = fp.get_str(k, "");
        if (whole) {
          kv["slam/map/width_in_meters"] = kv["slam/map/height_in_meters"] = "12.8";
          kv["slam/map/meters_per_cell"] = "0.1";
          if (fixed) { kv["slam/scmtch/MC/seed"] = "5"; if (gm) kv["slam/particles/number"] = "1"; }
        } else if (fixed) break;
        o << "{\"file\":" << q(dir + "/" + n) << ",\"f\":" << q(!whole ? "keys" : gm ? "gmapping" : "slam") << ",\"p\":" << pairs(kv) << "}\n";
      }
    }
  }
  return o ? 0 : 77;
}

int main(int argc, char **argv) {
  if (argc < 6) return 77;
  if (argv[4] == std::string("shipped")) return read_shipped(argv[5]);
  Args a(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  std::ifstream in(argv[5]);
  if (!in) return 77;
  std::string line;
  struct Case { Pairs p; Words want; std::string file; };
  std::map<std::string, std::vector<Case>> cases;
  while (std::getline(in, line)) {
    auto c = split(line, '\t');
    if (c.size() != 4) return 77;
    Pairs p;
    if (!c[1].empty()) for (auto &e : split(c[1], '\x1f')) { auto d = e.find('='); p[e.substr(0, d)] = e.substr(d + 1); }
    cases[c[0]].push_back({p, c[2].empty() ? Words{} : split(c[2], ' '), c[3]});
  }
  for (auto &f : cases) {
    size_t n = 0;
    for (auto &c : f.second) {
      if (n++ % 40 == 0) { if (n > 1) T().end(); T().begin(Obj()); }
      event(f.first, c.p, c.want, c.file);
    }
    T().end();
  }
  T().close();
}
