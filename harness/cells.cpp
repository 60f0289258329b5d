// Cell kinds under sequences of observations: C07 (mode merge), C08 (mode belief).
#include "vh.h"
#include "core/maps/grid_cell.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"
using namespace vh;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double S8 = 1e8, S6 = 1e6;

enum Kind { BASE, AFFINE, MEAN, GMAP, TBMC, TBME, CRED };
static std::unique_ptr<GridCell> make(int k) {
  switch (k) {
    case BASE: return std::make_unique<GridCell>(Occupancy{0.25, 1});
    case AFFINE: return std::make_unique<AffineQualityMergeCell>();
    case MEAN: return std::make_unique<MeanProbabilityCell>();
    case GMAP: return std::make_unique<GmappingBaseCell>();
    case TBMC: return std::make_unique<TbmOccConsistentCell>();
    case TBME: return std::make_unique<TbmUnknownEvenOccCell>();
    case CRED: return std::make_unique<CredibilistCell>();
  }
  exit(77);
}
struct O { long p, q, x, y, bad, eq; }; // p/16, q/8, obstacle /4, bad: 1 occupancy nan, 2 quality nan, 3 both; eq/8 estimation quality
static AreaOccupancyObservation aoo(const O &o) {
  return AreaOccupancyObservation{o.p > 8, Occupancy{o.bad & 1 ? NaN : o.p / 16.0, o.bad & 2 ? NaN : o.eq / 8.0},
                                  Point2D{o.x / 4.0, o.y / 4.0}, o.q / 8.0};
}
static O rnd(Rng &r, int flavour, bool allow_bad) {
  O o;
  o.p = flavour == 1 ? r.pick(std::vector<long>{0, 16}) : flavour == 2 ? r.pick(std::vector<long>{0, 1, 7, 8, 9, 15, 16}) : r.in(0, 16);
  o.q = flavour == 1 ? r.pick(std::vector<long>{0, 8, 8}) : r.in(0, 8);
  o.eq = flavour == 3 ? r.in(0, 8) : 8;
  o.x = r.in(-6, 6); o.y = r.in(-6, 6);
  o.bad = allow_bad && r.chance(15) ? r.in(1, 3) : 0;
  return o;
}
static void put(Ev &e, const O &o) { e.i("p", o.p).i("q", o.q).i("eq", o.eq).i("x", o.x).i("y", o.y).i("bad", o.bad); }
static const TBM *belief(int k, const GridCell &c) {
  if (k == TBMC || k == TBME) return &dynamic_cast<const TbmBaseCell &>(c).belief();
  if (k == CRED) return &dynamic_cast<const CredibilistCell &>(c).belief();
  return nullptr;
}
static std::string masses(const TBM &b) {
  return arr(std::vector<long>{I(b.unknown(), S6), I(b.empty(), S6), I(b.occupied(), S6), I(b.conflict(), S6)});
}

static void episode(Rng &r, long id, int kind, int n, int flavour, bool beliefs) {
  auto c = make(kind);
  T().begin(Obj().i("id", id).i("kind", kind));
  auto report = [&](Ev &e) {
    e.i("occ", I(c->occupancy().prob_occ, S8)).i("qual", I(c->occupancy().estimation_quality, S8))
     .t("unk", c->is_unknown()).i("dbl", I(double(*c), S8));
    if (beliefs) e.raw("b", masses(*belief(kind, *c)));
  };
  Ev e0("new");
  report(e0);
  T().add(e0);
  for (int i = 0; i < n; ++i) {
    T().about("observation " + std::to_string(i));
    if (r.chance(8)) c = c->clone(); // a clone carries on like the original
    if (r.chance(25)) {
      // how far is the cell from some observations?
      std::vector<std::string> ds;
      for (int k = 0; k < 5; ++k) {
        O o = rnd(r, k == 4 ? flavour : r.in(0, 3), false);
        if (k == 3) { o.x = 0; o.y = 0; }
        ds.push_back(arr(std::vector<long>{o.p, o.q, o.x, o.y, I(c->discrepancy(aoo(o)), S6), o.eq}));
      }
      Ev e("disc");
      e.raw("ds", arrs(ds));
      report(e);
      T().add(e);
      continue;
    }
    O o = rnd(r, flavour, kind != BASE);
    *c += aoo(o);
    Ev e("obs");
    put(e, o);
    report(e);
    T().add(e);
  }
  T().end();
}
// the same observations in another order
static void perm(Rng &r, long id, int kind, int n, int flavour) {
  T().begin(Obj().i("id", id).i("kind", kind));
  std::vector<O> os;
  for (int i = 0; i < n; ++i) {
    O o = rnd(r, flavour, true);
    if (kind != MEAN && !o.bad) { o.p = r.in(1, 15); o.q = r.in(0, 6); } // never certain: no total contradiction
    os.push_back(o);
  }
  auto run = [&](const std::vector<O> &v) {
    auto c = make(kind);
    for (auto &o : v) *c += aoo(o);
    std::vector<long> res{I(c->occupancy().prob_occ, S6), I(c->occupancy().estimation_quality, S6)};
    if (auto b = belief(kind, *c)) {
      res.push_back(I(b->unknown(), S6)); res.push_back(I(b->empty(), S6)); res.push_back(I(b->occupied(), S6));
    }
    return arr(res);
  };
  auto a = run(os);
  for (int k = 0; k < 3; ++k) {
    for (size_t i = os.size(); i-- > 1;) std::swap(os[i], os[r.in(0, long(i))]);
    T().add(Ev("perm").i("n", n).raw("a", a).raw("b", run(os)));
  }
  T().end();
}

// a cell certain of one side hears almost total contradictions of it
static void sharp(Rng &r, long id, int kind, int n) {
  T().begin(Obj().i("id", id).i("kind", kind));
  for (int i = 0; i < n; ++i) {
    auto c = make(kind);
    long side = r.in(0, 1);
    for (long k = r.in(1, 3); k--;) *c += AreaOccupancyObservation{side == 1, Occupancy{double(side), 1}, Point2D{0, 0}, 1};
    for (long k = r.in(1, 3); k--;) {
      double eps = std::ldexp(1, -int(r.in(2, 45))), q = 1;
      double p = side ? eps : 1 - eps;
      if (r.chance(30)) { q = 1 - eps; p = 1 - side; }
      *c += AreaOccupancyObservation{side == 0, Occupancy{p, 1}, Point2D{0, 0}, q};
    }
    Ev e("sharp");
    e.i("side", side).raw("b", masses(*belief(kind, *c)));
    T().add(e);
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  if (a.mode == "merge") {
    for (int k : {BASE, AFFINE, MEAN, GMAP})
      for (int n = 0; n < a.n(150, 1500); ++n) episode(r, ++id, k, int(r.in(1, 40)), int(r.in(0, 3)), false);
    for (int n = 0; n < a.n(60, 400); ++n) perm(r, ++id, MEAN, int(r.in(2, 20)), int(r.in(0, 3)));
  } else if (a.mode == "belief") {
    for (int k : {TBMC, TBME, CRED})
      for (int n = 0; n < a.n(200, 2000); ++n) episode(r, ++id, k, int(r.in(1, 24)), int(r.in(0, 3)), true);
    for (int k : {TBMC, TBME, CRED})
      for (int n = 0; n < a.n(80, 500); ++n) perm(r, ++id, k, int(r.in(2, 8)), int(r.in(0, 3)));
    for (int k : {TBMC, TBME, CRED})
      for (int n = 0; n < a.n(20, 200); ++n) sharp(r, ++id, k, int(r.in(2, 10)));
  } else return 77;
  T().close();
  return 0;
}
