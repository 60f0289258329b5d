// Scores of scan points (C19) and of scans (C18).
#include "maps.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
using namespace vh;
using Coord = GridMap::Coord;

static const long U = 16;

// occupancy and disagreement are whatever the last observation said (in 1/64)
struct ValCell : GridCell {
  double disc;
  ValCell(double o, double d) : GridCell{Occupancy{o, 1}}, disc{d} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<ValCell>(*this); }
  void operator+=(const AreaOccupancyObservation &aoo) override { _occupancy = aoo.occupancy; disc = aoo.quality; on_update(); }
  double discrepancy(const AreaOccupancyObservation &) const override { return disc; }
};
static AreaOccupancyObservation val_obs(long o, long d) {
  return {true, Occupancy{o / 64.0, 1}, Point2D{0, 0}, d / 64.0};
}
static uint64_t print_of(const GridMap &m) { // the content around the origin, and the extent
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](double d) { uint64_t u; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; };
  auto e = map_ext(m);
  for (auto v : e) mix(double(v));
  mix(m.scale());
  for (long y = std::max(e[1], -7l); y < std::min(e[1] + e[3], 8l); ++y)
    for (long x = std::max(e[0], -7l); x < std::min(e[0] + e[2], 8l); ++x) {
      auto &c = m[Coord(int(x), int(y))];
      mix(double(c)); mix(c.is_unknown());
      if (auto *v = dynamic_cast<const ValCell *>(&c)) mix(v->disc);
    }
  return h;
}
static long coord(Rng &r, long span) { // strictly inside a cell half of the time
  long c = r.in(-span, span) * U;
  switch (r.in(0, 5)) { case 0: return c; case 1: return c + U / 2; default: return c + r.in(1, U - 1); }
}

static void point_mode(Args &a) {
  Rng r(a.seed * 17 + 1);
  using PE = OccupancyObservationProbabilityEstimator;
  for (long ep = 0, n = a.n(250, 4000); ep < n; ++ep) {
    double s0 = r.pick(std::vector<double>{1, 0.5, 0.125, 2, 0.0625});
    long po = r.in(0, 64), pd = r.in(0, 64);
    int kind = r.pick(std::vector<int>{UPLAIN, ULAZY, R_UPLAIN, R_ULAZY});
    auto m = make_map(kind, std::make_shared<ValCell>(po / 64.0, pd / 64.0), int(r.in(1, 9)), int(r.in(1, 9)), s0);
    bool levels = kind == R_UPLAIN || kind == R_ULAZY;
    std::map<std::string, std::shared_ptr<ObservationImpactEstimator>> oies{
      {"occ", std::make_shared<OccupancyOIE>()}, {"disc", std::make_shared<DiscrepancyOIE>()}};
    std::vector<std::tuple<std::string, std::string, std::shared_ptr<PE>>> pes;
    for (auto &o : oies) {
      pes.emplace_back("obst", o.first, std::make_shared<ObstacleBasedOccupancyObservationPE>(o.second));
      pes.emplace_back("max", o.first, std::make_shared<MaxOccupancyObservationPE>(o.second));
      pes.emplace_back("mean", o.first, std::make_shared<MeanOccupancyObservationPE>(o.second));
      pes.emplace_back("overlap", o.first, std::make_shared<OverlapWeightedOccupancyObservationPE>(o.second));
    }
    long th = r.pick(std::vector<long>{1, 7, 13, 32, 45, 64}), k = r.in(0, 3);
    auto win = std::make_shared<GmappingOccupancyObservationPE>(th / 64.0, unsigned(k));
    pes.emplace_back("window", "disc", win);
    pes.emplace_back("window", "disc", win);
    T().begin(Obj().i("U", U).a("prior", {po, pd}).s("scale", std::to_string(s0)));
    long lev = 0;
    // the same questions come back after the map has changed and after others
    struct Q { long px, py, l, R, b, t; bool inf; };
    std::vector<Q> qs;
    for (int i = 0, nq = int(r.in(2, 6)); i < nq; ++i) {
      Q q;
      long span = 4;
      q.px = coord(r, span); q.py = coord(r, span);
      q.inf = false;
      if (r.chance(25)) { q.l = q.R = q.px; q.b = q.t = q.py; }
      else {
        long w = r.in(1, 3 * U) * (r.chance(30) ? 2 : 1), h = r.in(1, 3 * U);
        q.l = r.chance(70) ? q.px - w / 2 : coord(r, span); q.R = q.l + w;
        q.b = r.chance(70) ? q.py - h / 2 : coord(r, span); q.t = q.b + h;
      }
      qs.push_back(q);
    }
    for (int st = 0, ns = int(r.in(6, 30)); st < ns; ++st) {
      int what = int(r.in(0, 99));
      if (what < 40) {
        Coord c(int(r.in(-5, 5)), int(r.in(-5, 5)));
        long o = r.chance(20) ? r.pick(std::vector<long>{0, 64}) : r.in(0, 64), d = r.chance(20) ? r.pick(std::vector<long>{0, 64}) : r.in(0, 64);
        m->update(c, val_obs(o, d));
        T().add(Ev("set").i("s", lev).a("c", {c.x, c.y}).a("v", {o, d}));
      } else if (what < 46 && levels) {
        lev = r.in(0, 2);
        m->rescale(s0 * (1 << lev));
        // the map may have fewer levels than asked for
        double s = m->scale();
        lev = s == s0 ? 0 : s == 2 * s0 ? 1 : s == 4 * s0 ? 2 : -1;
        if (lev < 0) { m->rescale(s0); lev = 0; }
      } else {
        auto &q = qs[r.in(0, long(qs.size()) - 1)];
        auto &pe = pes[r.in(0, long(pes.size()) - 1)];
        double f = m->scale() / U;
        // the same estimator is asked again at once, with one covered cell changed in between
        for (int again = 0, na = r.chance(40) ? int(r.in(1, 2)) : 0; again <= na; ++again) {
          if (again) {
            bool at_obstacle = r.chance(50);
            Point2D w = at_obstacle ? Point2D{q.px * f, q.py * f}
                                    : Point2D{r.in(q.l, q.R) * f, r.in(q.b, q.t) * f};
            Coord c = m->world_to_cell(w);
            long o = r.chance(30) ? r.pick(std::vector<long>{0, 64}) : r.in(0, 64), d = r.in(0, 64);
            m->update(c, val_obs(o, d));
            T().add(Ev("set").i("s", lev).a("c", {c.x, c.y}).a("v", {o, d}));
          }
          AreaOccupancyObservation aoo = std::get<2>(pe)->impact_estimator()->obstacle_AOO();
          aoo.obstacle = Point2D{q.px * f, q.py * f};
          LightWeightRectangle area{q.b * f, q.t * f, q.l * f, q.R * f};
          auto before = print_of(*m);
          T().about("probability " + std::get<0>(pe));
          double v = std::get<2>(pe)->probability(aoo, area, *m);
          T().add(Ev("score").s("rule", std::get<0>(pe)).s("oie", std::get<1>(pe)).i("s", lev).i("th", th).i("k", k)
            .a("p", {q.px, q.py}).a("r", {q.l, q.R, q.b, q.t}).i("res", I(v, 4096)).t("pure", before == print_of(*m)));
        }
      }
    }
    T().end();
  }
  // hit counting cells in a window
  for (long ep = 0, n = a.n(80, 1500); ep < n; ++ep) {
    double s = r.pick(std::vector<double>{0.125, 0.0625});
    int kind = r.pick(std::vector<int>{UPLAIN, ULAZY});
    auto m = make_map(kind, std::make_shared<GmappingBaseCell>(), int(r.in(1, 9)), int(r.in(1, 9)), s);
    long th = r.pick(std::vector<long>{7, 13, 27, 45}), k = r.in(0, 2);
    GmappingOccupancyObservationPE pe(th / 64.0, unsigned(k)), pe2(45 / 64.0, 2);
    T().begin(Obj().i("U", U).a("prior", {0, 0}));
    double f = s / U;
    std::vector<std::pair<long, long>> obs;
    for (int i = 0; i < 4; ++i) obs.emplace_back(coord(r, 2), coord(r, 2));
    std::map<std::pair<int, int>, int> tries;
    auto last = obs[0];
    for (int st = 0, ns = int(r.in(6, 40)); st < ns; ++st) {
      if (r.chance(60)) {
        Coord c(int(r.in(-3, 3)), int(r.in(-3, 3)));
        if (++tries[{c.x, c.y}] > 6) continue;
        bool occ = r.chance(65);
        long px = c.x * U + r.in(0, U - 1), py = c.y * U + r.in(0, U - 1);
        m->update(c, AreaOccupancyObservation{occ, Occupancy{occ ? 1.0 : 0.0, 1}, Point2D{px * f, py * f}, 1});
        T().add(Ev("gset").a("c", {c.x, c.y}).t("occ", occ).a("p", {px, py}));
      } else {
        auto o = r.chance(30) ? last : r.pick(obs);
        last = o;
        AreaOccupancyObservation aoo{true, {1, 1}, Point2D{o.first * f, o.second * f}, 1};
        bool second = r.chance(30);
        T().about("gmapping probability");
        double v = (second ? pe2 : pe).probability(aoo, LightWeightRectangle{0, 0, 0, 0}, *m);
        double d2 = -0.05 * std::log(v) / (f * f);
        T().add(Ev("gscore").a("p", {o.first, o.second}).i("th", second ? 45 : th).i("k", second ? 2 : k)
          .t("none", v == 0).i("d2", v == 0 ? 0 : I(d2, 16)));
      }
    }
    T().end();
  }
}

#include "scoring_scan.h"

int main(int argc, char **argv) {
  Args a(argc, argv);
  if (a.mode == "point") point_mode(a);
  else if (a.mode == "scan") scan_mode(a);
  else return 77;
  T().close();
  return 0;
}
