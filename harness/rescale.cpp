// Multi-resolution maps: level selection (C04) and coarse bounds (C05).
#include "maps.h"
using namespace vh;
using Coord = GridMap::Coord;
using RU = RescalableCachingGridMap<UnboundedPlainGridMap>;
using RL = RescalableCachingGridMap<UnboundedLazyTiledGridMap>;
using MU = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
using ML = M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>;

static long sc(double s) { return std::isinf(s) ? -1 : X(s, 1024); }
static std::string log_of(const GridCell &c) {
  auto lc = dynamic_cast<const LogCell *>(&c);
  if (!lc || lc->tag != 7 || lc->is_unknown() != lc->log.empty()) return "[-1]";
  return arr(lc->log);
}

template <typename M> struct Run {
  std::shared_ptr<M> m; double base; std::vector<Coord> probes; bool m3;
  int zero() { for (size_t i = 0; i < probes.size(); ++i) if (probes[i] == Coord(0, 0)) return int(i); exit(77); }
  std::string observe() { // the active level only
    std::vector<std::string> reads;
    for (auto &c : probes) reads.push_back(log_of((*m)[c]));
    bool has = true;
    for (auto &c : probes) has = has && m->has_cell(c);
    Obj o;
    o.i("n", m->scales_nm()).i("id", m->scale_id()).i("scale", sc(m->scale())).a("ext", map_ext(*m))
     .i("fine", m->finest_scale_id()).i("coarse", m->coarsest_scale_id())
     .raw("reads", arrs(reads)).t("has", has);
    return o.str();
  }
  std::string survey() { // all levels; leaves the active level as it was
    auto id = m->scale_id();
    std::vector<std::string> lv;
    for (unsigned i = 0; i < m->scales_nm(); ++i) {
      m->set_scale_id(i);
      auto e = map_ext(*m);
      std::vector<std::string> cells;
      long odd = 0;
      for (long x = e[0]; x < e[0] + e[2]; ++x)
        for (long y = e[1]; y < e[1] + e[3]; ++y) {
          auto &c = (*m)[Coord(x, y)];
          auto lc = dynamic_cast<const LogCell *>(&c);
          if (!c.is_unknown() || !lc || !lc->log.empty())
            cells.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," +
                            std::to_string(X(c.occupancy().prob_occ, 16)) + "," + (c.is_unknown() ? "0" : "1") +
                            "," + log_of(c) + "]");
          else if (X(c.occupancy().prob_occ, 16) != 4) ++odd;
        }
      Obj o;
      o.i("scale", sc(m->scale())).a("ext", e).raw("cells", arrs(cells)).i("odd", odd);
      lv.push_back(o.str());
    }
    m->set_scale_id(id);
    return arrs(lv);
  }
};

static Coord any_coord(Rng &r, int w, int h, int far) {
  int ox = w / 2, oy = h / 2;
  auto one = [&](int o, int n) -> int {
    switch (r.in(0, 4)) {
      case 0: return int(r.in(-3, 3));
      case 1: return r.chance(50) ? -o - int(r.in(0, 2)) : n - o + int(r.in(-1, 1));
      case 2: return int(r.in(-o - far, n - o + far));
      default: return int(r.in(-o, n - 1 - o));
    }
  };
  return Coord(one(ox, w), one(oy, h));
}

template <typename M, typename F>
static void levels_episode(Rng &r, long id, int kind, F mk, int w, int h, int far, int ops, bool full_survey) {
  static const double S[] = {1.0, 0.5, 0.125, 2.0};
  Run<M> run;
  run.base = S[r.in(0, 3)];
  run.m3 = kind == M3_UPLAIN || kind == M3_ULAZY;
  run.m = mk(w, h, run.base);
  std::set<std::pair<int, int>> ps;
  for (int i = 0; i < 14; ++i) { auto c = any_coord(r, w, h, far); ps.insert({c.x, c.y}); }
  ps.insert({0, 0}); ps.insert({-1, 0}); ps.insert({1, 0}); ps.insert({0, -1}); ps.insert({-1, -1});
  std::vector<std::string> pj;
  for (auto &p : ps) { run.probes.push_back(Coord(p.first, p.second)); pj.push_back(arr(std::vector<long>{p.first, p.second})); }
  Obj hdr;
  hdr.i("id", id).i("kind", kind).i("w", w).i("h", h).i("base", sc(run.base)).raw("probes", arrs(pj)).t("m3", run.m3);
  T().begin(hdr);
  T().add(Ev("new").raw("obs", run.observe()));
  { auto s = run.survey(); T().add(Ev("survey").raw("levels", s).raw("obs", run.observe())); }
  int v = 1;
  for (int k = 0; k < ops; ++k) {
    T().about("op " + std::to_string(k));
    auto &m = *run.m;
    int roll = int(r.in(0, 99));
    if (roll < 30) {
      // targets on, just below and just above cell sizes of levels
      double t = run.base * std::pow(2.0, int(r.in(-2, 10)));
      if (r.chance(30)) t *= 0.75; else if (r.chance(20)) t *= 1.25;
      if (r.chance(25)) t += (r.chance(50) ? 1 : -1) / 16384.0; // only just more or less than a level's
      if (r.chance(10)) t = 0;
      if (r.chance(10)) t = std::numeric_limits<double>::infinity();
      m.rescale(t);
      T().add(Ev("rescale").i("target", std::isinf(t) ? -1 : X(t, 16384)).raw("obs", run.observe()));
    } else if (roll < 45) {
      unsigned i = unsigned(r.in(0, m.scales_nm() - 1));
      m.set_scale_id(i);
      T().add(Ev("setid").i("level", i).raw("obs", run.observe()));
    } else if (roll < 55) {
      {
        SafeRescalableMap sm{m};
        GridMap &g = sm;
        std::vector<long> ts, got;
        for (int j = 0; j < r.in(1, 3); ++j) {
          double t = run.base * std::pow(2.0, int(r.in(-1, 9))) * (r.chance(30) ? 0.75 : 1);
          g.rescale(t);
          ts.push_back(X(t, 16384)); got.push_back(sc(g.scale()));
        }
        bool wrote = false;
        int pi = int(r.in(0, long(run.probes.size()) - 1));
        if (std::isinf(g.scale())) pi = run.zero();
        if ((!run.m3) && r.chance(30)) { g.update(run.probes[pi], log_obs(v)); wrote = true; }
        T().add(Ev("scoped").a("targets", ts).a("got", got).i("p", wrote ? pi + 1 : 0).i("v", v)
                .i("depth", 1).raw("obs", run.observe()));
        if (wrote) ++v;
      }
      T().add(Ev("unscoped").raw("obs", run.observe()));
    } else if (roll < 92) {
      if (run.m3 && m.scale_id() != m.finest_scale_id()) continue;
      if (m.scales_nm() > 24) continue; // sizes stay countable
      int pi = int(r.in(0, long(run.probes.size()) - 1));
      if (std::isinf(m.scale())) pi = run.zero(); // the all-covering cell is the only one there
      if (r.chance(30)) { // a write and a rescale right after it, with nothing asked in between
        double t = run.base * std::pow(2.0, int(r.in(-1, 9))) * (r.chance(30) ? 0.75 : 1);
        bool safe = r.chance(40);
        m.update(run.probes[pi], log_obs(v));
        if (safe) { SafeRescalableMap sm{m}; GridMap &g = sm; g.rescale(t); }
        else { m.rescale(t); }
        T().add(Ev("write_rescale").i("p", pi + 1).i("v", v).t("back", safe).i("target", X(t, 16384)).raw("obs", run.observe()));
      } else if (r.chance(70)) {
        m.update(run.probes[pi], log_obs(v));
        T().add(Ev("update").i("p", pi + 1).i("v", v).raw("obs", run.observe()));
      } else {
        LogCell c(7); c += log_obs(v);
        m.reset(run.probes[pi], c);
        T().add(Ev("reset").i("p", pi + 1).i("v", v).raw("obs", run.observe()));
      }
      ++v;
    } else {
      if (!full_survey) continue;
      auto s = run.survey();
      T().add(Ev("survey").raw("levels", s).raw("obs", run.observe()));
    }
  }
  if (full_survey) {
    auto s = run.survey();
    T().add(Ev("survey").raw("levels", s).raw("obs", run.observe()));
  }
  T().end();
}

template <typename M>
static void bounds_episode(Rng &r, long id, int kind, int w, int h, int far, int ops, int survey_pct) {
  Run<M> run;
  run.base = r.chance(50) ? 1.0 : 0.25;
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (r.chance(50)) oie = std::make_shared<OccupancyOIE>(); else oie = std::make_shared<DiscrepancyOIE>();
  run.m = std::make_shared<M>(oie, std::make_shared<LogCell>(7), GridMapParams{w, h, run.base});
  Obj hdr;
  hdr.i("id", id).i("kind", kind).i("w", w).i("h", h);
  T().begin(hdr);
  bool clustered = r.chance(50), rising = r.chance(40);
  std::vector<Coord> pool;
  for (int i = 0; i < 6; ++i) pool.push_back(any_coord(r, w, h, far));
  int v = 1, level = 1;
  for (int k = 0; k < ops; ++k) {
    Coord c = clustered && r.chance(70) ? r.pick(pool) : any_coord(r, w, h, far);
    if (clustered && r.chance(40)) c += Coord(int(r.in(-1, 1)), int(r.in(-1, 1)));
    int imp = rising ? std::min(16, level++) : int(r.in(0, 16));
    T().about("write " + std::to_string(c.x) + "," + std::to_string(c.y));
    bool upd = r.chance(70);
    if (upd) run.m->update(c, log_obs(v, imp / 16.0));
    else { LogCell lc(7); lc += log_obs(v, imp / 16.0); run.m->reset(c, lc); }
    ++v;
    Ev e("write");
    e.a("c", {c.x, c.y}).i("imp", imp);
    bool sv = k == ops - 1 || r.chance(survey_pct);
    e.t("survey", sv);
    e.raw("levels", sv ? run.survey() : std::string("[]"));
    e.t("valid", sv && kind == M3_UPLAIN ? run.m->validate() : true);
    T().add(e);
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  auto proto = std::make_shared<LogCell>(7);
  auto oie = std::make_shared<OccupancyOIE>();
  auto mkRU = [&](int w, int h, double s) { return std::make_shared<RU>(proto, GridMapParams{w, h, s}); };
  auto mkRL = [&](int w, int h, double s) { return std::make_shared<RL>(proto, GridMapParams{w, h, s}); };
  auto mkMU = [&](int w, int h, double s) { return std::make_shared<MU>(oie, proto, GridMapParams{w, h, s}); };
  auto mkML = [&](int w, int h, double s) { return std::make_shared<ML>(oie, proto, GridMapParams{w, h, s}); };
  if (a.mode == "levels") {
    // every small size: the level structure right after construction and a short history
    for (int w = 1; w <= a.n(12, 34); ++w)
      for (int h = 1; h <= a.n(12, 34); ++h)
        levels_episode<RU>(r, ++id, R_UPLAIN, mkRU, w, h, 2, 5, true);
    for (int n = 0; n < a.n(90, 600); ++n) {
      levels_episode<RU>(r, ++id, R_UPLAIN, mkRU, int(r.in(1, 40)), int(r.in(1, 40)), 20, 30, true);
      levels_episode<MU>(r, ++id, M3_UPLAIN, mkMU, int(r.in(1, 40)), int(r.in(1, 40)), 20, 30, true);
    }
    for (int n = 0; n < a.n(6, 40); ++n) {
      levels_episode<RL>(r, ++id, R_ULAZY, mkRL, int(r.in(1, 300)), int(r.in(1, 300)), 150, 30, false);
      levels_episode<ML>(r, ++id, M3_ULAZY, mkML, int(r.in(1, 300)), int(r.in(1, 300)), 150, 30, false);
    }
  } else if (a.mode == "bounds") {
    for (int n = 0; n < a.n(250, 2000); ++n)
      bounds_episode<MU>(r, ++id, M3_UPLAIN, int(r.in(1, 20)), int(r.in(1, 20)), int(r.in(0, 12)), int(r.in(3, 26)), 25);
    for (int n = 0; n < a.n(60, 300); ++n)
      bounds_episode<MU>(r, ++id, M3_UPLAIN, int(r.in(1, 5)), int(r.in(1, 5)), 70, 8, 50);
    for (int n = 0; n < a.n(4, 30); ++n)
      bounds_episode<ML>(r, ++id, M3_ULAZY, int(r.in(1, 60)), int(r.in(1, 60)), 100, 10, 0);
  } else return 77;
  T().close();
  return 0;
}
