// Saving and loading maps of every real cell kind (C06).
#include "maps.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"
using namespace vh;
using Coord = GridMap::Coord;
using RU = RescalableCachingGridMap<UnboundedPlainGridMap>;
using MU = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
enum Kind { BASE, AFFINE, MEAN, GMAP, TBMC, TBME, CRED, CKINDS };
static std::shared_ptr<GridCell> make_cell(int k) {
  switch (k) {
    case BASE: return std::make_shared<GridCell>(Occupancy{0.25, 1});
    case AFFINE: return std::make_shared<AffineQualityMergeCell>();
    case MEAN: return std::make_shared<MeanProbabilityCell>();
    case GMAP: return std::make_shared<GmappingBaseCell>();
    case TBMC: return std::make_shared<TbmOccConsistentCell>();
    case TBME: return std::make_shared<TbmUnknownEvenOccCell>();
    case CRED: return std::make_shared<CredibilistCell>();
  }
  exit(77);
}
struct Tok { double p, eq, q, x, y; bool occ; };
static AreaOccupancyObservation aoo(const Tok &t) { return {t.occ, Occupancy{t.p, t.eq}, Point2D{t.x, t.y}, t.q}; }
// everything one can ask a cell
static std::string cell_text(const GridCell &c) {
  static const AreaOccupancyObservation Asks[] = {
    {true, Occupancy{1, 1}, Point2D{0, 0}, 1}, {true, Occupancy{0.75, 0.5}, Point2D{0.25, -0.125}, 0.5},
    {false, Occupancy{0.0, 1}, Point2D{-0.25, 0.25}, 1}};
  std::vector<long> v{I(c.occupancy().prob_occ, 1e6), I(c.occupancy().estimation_quality, 1e6), c.is_unknown()};
  for (auto &a : Asks) v.push_back(I(c.discrepancy(a), 1e6));
  if (auto t = dynamic_cast<const TbmBaseCell *>(&c)) { v.push_back(I(t->belief().unknown(), 1e6)); v.push_back(I(t->belief().occupied(), 1e6)); v.push_back(I(t->belief().conflict(), 1e6)); }
  if (auto t = dynamic_cast<const CredibilistCell *>(&c)) { v.push_back(I(t->belief().unknown(), 1e6)); v.push_back(I(t->belief().occupied(), 1e6)); v.push_back(I(t->belief().conflict(), 1e6)); }
  return arr(v);
}
static std::string level_text(const GridMap &m, const std::string &unk) {
  auto e = map_ext(m);
  std::string r = arr(e) + "@" + (std::isinf(m.scale()) ? "inf" : std::to_string(X(m.scale(), 1024)));
  for (long x = e[0]; x < e[0] + e[2]; ++x)
    for (long y = e[1]; y < e[1] + e[3]; ++y) {
      auto t = cell_text(m[Coord(x, y)]);
      if (t != unk) r += " " + std::to_string(x) + "," + std::to_string(y) + t;
    }
  return r + " out" + cell_text(m[Coord(int(e[0] + e[2] + 3), int(e[1] - 5))]);
}
template <typename M> std::string levels_text(M &m, const std::string &unk) {
  auto id = m.scale_id();
  std::string r = "L" + std::to_string(id) + "/" + std::to_string(m.scales_nm()) + ": ";
  r += m.scale() == std::numeric_limits<double>::infinity() ? "inf " : std::to_string(X(m.scale(), 1024)) + " ";
  for (unsigned i = 0; i < m.scales_nm(); ++i) { m.set_scale_id(i); r += "| " + level_text(m, unk); }
  m.set_scale_id(id);
  return r;
}
static std::string report(int kind, GridMap &m, const std::string &unk) {
  if (kind == R_UPLAIN) return levels_text(static_cast<RU &>(m), unk);
  if (kind == M3_UPLAIN) return levels_text(static_cast<MU &>(m), unk);
  return level_text(m, unk);
}
static void set_level(int kind, GridMap &m, unsigned k) {
  if (kind == R_UPLAIN) { auto &r = static_cast<RU &>(m); r.set_scale_id(std::min(k, r.coarsest_scale_id())); }
  if (kind == M3_UPLAIN) { auto &r = static_cast<MU &>(m); r.set_scale_id(std::min(k, r.coarsest_scale_id())); }
}
static unsigned level(int kind, GridMap &m) {
  return kind == R_UPLAIN ? static_cast<RU &>(m).scale_id() : kind == M3_UPLAIN ? static_cast<MU &>(m).scale_id() : 0;
}

static void episode(Rng &r, long id, int kind, int ck, int ops) {
  static const double S[] = {1.0, 0.5, 0.125, 2.0};
  const int NM = 3, NF = 2;
  auto proto = make_cell(ck);
  auto unk = cell_text(*proto);
  std::vector<std::shared_ptr<GridMap>> m(NM);
  std::vector<std::vector<char>> file(NF);
  std::vector<Tok> toks;
  for (int i = 0; i < 5; ++i) {
    Tok t;
    t.p = r.in(0, 8) / 8.0; t.eq = r.in(1, 8) / 8.0; t.q = r.in(1, 8) / 8.0;
    t.x = r.in(-4, 4) / 8.0; t.y = r.in(-4, 4) / 8.0; t.occ = t.p > 0.5;
    toks.push_back(t);
  }
  std::vector<std::vector<int>> twins; // maps in the same state, to be driven on together
  T().begin(Obj().i("id", id).i("kind", kind).i("cell", ck).i("nmaps", NM).i("nfiles", NF));
  int made = 0;
  auto reports = [&]() {
    std::vector<std::string> v;
    for (auto &x : m) v.push_back(x ? q(report(kind, *x, unk)) : std::string("\"\""));
    return arrs(v);
  };
  auto fresh = [&](int i) {
    int w = int(r.in(1, 6)), h = int(r.in(1, 6));
    double s = S[r.in(0, 3)];
    m[i] = make_map(kind, proto, w, h, s);
    T().add(Ev("new").i("m", i + 1).a("how", {w, h, X(s, 1024), ++made}).raw("rep", reports()));
  };
  std::vector<int> same{0}; // the maps that have been equal to map 0 (or to each other) since a load
  fresh(0);
  bool saved[2] = {false, false};
  int group_from = -1;
  for (int k = 0; k < ops; ++k) {
    T().about("op " + std::to_string(k));
    int roll = int(r.in(0, 99));
    int mi = int(r.in(0, NM - 1));
    if (!m[mi]) { if (roll < 40) fresh(mi); continue; }
    if (roll < 14) {
      int f = int(r.in(0, NF - 1));
      file[f] = m[mi]->save_state();
      saved[f] = true;
      group_from = mi;
      T().add(Ev("save").i("m", mi + 1).i("f", f + 1).raw("rep", reports()));
      // most of the time it is loaded into another map at once and both go on
      if (r.chance(70)) {
        int to = (mi + int(r.in(1, NM - 1))) % NM;
        if (!m[to]) fresh(to);
        m[to]->load_state(file[f]);
        T().add(Ev("load").i("m", to + 1).i("f", f + 1).raw("rep", reports()));
        same = {mi, to};
      }
    } else if (roll < 20) {
      int f = int(r.in(0, NF - 1));
      if (!saved[f]) continue;
      m[mi]->load_state(file[f]);
      T().add(Ev("load").i("m", mi + 1).i("f", f + 1).raw("rep", reports()));
      same = {mi};
    } else if (roll < 28 && kind != UPLAIN) {
      set_level(kind, *m[mi], unsigned(r.in(0, 4)));
      T().add(Ev("level").i("m", mi + 1).i("k", level(kind, *m[mi])).raw("rep", reports()));
    } else {
      std::vector<int> ms{mi};
      for (int x : same) if (x == mi && r.chance(85)) { ms = same; break; }
      for (int x : ms) if (level(kind, *m[x]) != 0) {
        set_level(kind, *m[x], 0);
        T().add(Ev("level").i("m", x + 1).i("k", 0).raw("rep", reports()));
      }
      Coord c(int(r.in(-4, 4)), int(r.in(-4, 4)));
      if (r.chance(12)) c = Coord(int(r.in(-11, 11)), int(r.in(-11, 11)));
      int t = int(r.in(0, long(toks.size()) - 1));
      bool upd = r.chance(85);
      for (int x : ms) {
        if (upd) m[x]->update(c, aoo(toks[t]));
        else { auto cell = make_cell(ck); *cell += aoo(toks[t]); *cell += aoo(toks[t]); m[x]->reset(c, *cell); }
      }
      std::vector<long> ml;
      for (int x : ms) ml.push_back(x + 1);
      T().add(Ev("write").a("ms", ml).s("kind", upd ? "put" : "set").a("c", {c.x, c.y}).i("tok", t + 1).raw("rep", reports()));
    }
  }
  T().end();
  (void)group_from;
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  for (int n = 0; n < a.n(5, 40); ++n)
    for (int kind : {UPLAIN, R_UPLAIN, M3_UPLAIN})
      for (int ck = 0; ck < CKINDS; ++ck)
        episode(r, ++id, kind, ck, 40);
  T().close();
  return 0;
}
