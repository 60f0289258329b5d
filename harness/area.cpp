// Occupancy estimates of a cell along a beam (C12).
#include "maps.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
using namespace vh;
static const long S = 16;
static const double Z = 4096;
static bool pow2(long v) { v = std::abs(v); return (v & (v - 1)) == 0; }

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 17 + 9);
  std::vector<std::unique_ptr<CellOccupancyEstimator>> keep;
  for (long ep = 0, n = a.n(600, 10000); ep < n; ++ep) {
    bool cst = r.chance(5);
    long pe = r.in(0, 20), qe = r.in(1, 64), po = r.in(40, 64), qo = r.in(1, 64), low = r.in(1, 6), unk = r.in(1, 64);
    if (r.chance(40)) { pe = 1; qe = 64; qo = 64; low = 1; unk = 32; }
    std::unique_ptr<CellOccupancyEstimator> est;
    Occupancy bo{po / 64.0, qo / 64.0}, be{pe / 64.0, qe / 64.0};
    bool dflt = !cst && r.chance(20);
    if (dflt) low = -1;
    if (cst) est = std::make_unique<ConstOccupancyEstimator>(bo, be);
    else if (dflt) { unk = 32; est = std::make_unique<AreaOccupancyEstimator>(bo, be); }
    else est = std::make_unique<AreaOccupancyEstimator>(bo, be, low / 16.0, unk / 64.0);
    T().begin(Obj().s("kind", cst ? "const" : "area").i("S", S)
      .raw("prm", Obj().i("pe", pe).i("qe", qe).i("po", po).i("qo", qo).i("low", low).i("unk", unk).str()));
    for (int i = 0; i < 16; ++i) {
      // the same estimator serves cells of different sizes and places
      bool rough = r.chance(25);
      double scale = rough ? r.pick(std::vector<double>{0.1, 0.3, 0.05}) : std::vector<double>{1, 0.5, 2, 8, 0.0625, 0.125}[r.in(0, 5)];
      long far = r.chance(30) ? 0 : r.chance(50) ? 3 : 500;
      int cx = int(r.in(-far, far)), cy = int(r.in(-far, far));
      auto co = [&]() -> long {
        if (rough) { long v; do v = r.in(-20, 40); while (v % S == 0); return v; }
        switch (r.in(0, 5)) {
          case 0: return r.chance(50) ? 0 : S;
          case 1: return S / 2;
          case 2: return r.in(-24, 40);
          case 3: return r.in(1, S - 1);
          default: return r.in(-8, 24);
        }
      };
      long ax = co(), ay = co(), bx = co(), by = co();
      int dir = int(r.in(0, 7));
      if (dir == 0) by = ay;
      if (dir == 1) bx = ax;
      if (dir == 2) { bx = ax; by = ay; }
      if (dir == 3 || dir == 4) { long d = (1 << r.in(0, 5)) * (r.chance(50) ? 1 : -1); ax = bx - d; ay = by - (r.chance(50) ? d : -d); }
      if (dir == 5) { bx = r.chance(50) ? 0 : S; by = r.chance(50) ? 0 : S; long d = 1 << r.in(0, 4); ax = bx - (r.chance(50) ? d : -d); ay = by - (r.chance(50) ? d : -d) * r.in(1, 2); }
      if (rough && (ax % S == 0 || ay % S == 0 || bx % S == 0 || by % S == 0)) continue;
      // corners exactly on the beam or across its end have to be computable exactly
      long dx = bx - ax, dy = by - ay;
      bool corner = false;
      for (long X : {0L, S}) for (long Y : {0L, S}) {
        if (dx * (Y - ay) == dy * (X - ax)) corner = true;
        if (dx * (X - bx) + dy * (Y - by) == 0) corner = true;
      }
      bool along = (dx == 0 && (ax == 0 || ax == S)) || (dy == 0 && (ay == 0 || ay == S));
      if (corner && (rough || !pow2(dx) || !pow2(dy))) { if (!along || rough) continue; }
      if (along && !cst && (dflt || rough)) continue;
      auto X = [&](long v) { return (double(cx) + double(v) / S) * scale; };
      auto Y = [&](long v) { return (double(cy) + double(v) / S) * scale; };
      bool occ = r.chance(50);
      RegularSquaresGrid g(10, 10, scale);
      T().about("estimate_occupancy");
      auto o = est->estimate_occupancy(Segment2D{{X(ax), Y(ay)}, {X(bx), Y(by)}}, g.world_cell_bounds({cx, cy}), occ);
      T().add(Ev("est").a("a", {ax, ay}).a("b", {bx, by}).t("occ", occ).t("ok", o.is_valid())
        .i("p", o.is_valid() ? I(o.prob_occ, Z) : -1).i("q", o.is_valid() ? I(o.estimation_quality, Z) : -1)
        .s("at", std::to_string(scale) + " " + std::to_string(cx) + " " + std::to_string(cy)));
    }
    T().end();
    if (keep.size() < 50) keep.push_back(std::move(est));
  }
  T().close();
  return 0;
}
