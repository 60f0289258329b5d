// Histories over grid maps: C01 (store), C02 (growth), C03 (copies), C06 (save/load).
#include "maps.h"
using namespace vh;
using Coord = GridMap::Coord;

static const double Scales[] = {1.0, 0.5, 0.125, 2.0};

struct World {
  int kind; double scale;
  std::vector<std::shared_ptr<GridMap>> m;
  std::vector<Coord> probes;

  std::string read(const GridMap &mp, const Coord &c) {
    auto &cell = mp[c];
    auto lc = dynamic_cast<const LogCell *>(&cell);
    std::vector<long> l;
    if (!lc || lc->tag != 7) l = {-1};
    else {
      l.assign(lc->log.begin(), lc->log.end());
      if (lc->is_unknown() != l.empty()) l.push_back(-2);
      if (mp.occupancy(c) != cell.occupancy().prob_occ) l.push_back(-3);
    }
    return arr(l);
  }
  bool ext_has(const GridMap &mp, const Coord &c) {
    auto e = map_ext(mp);
    return e[0] <= c.x && c.x < e[0] + e[2] && e[1] <= c.y && c.y < e[1] + e[3];
  }
  // the whole observable state of every live map
  std::string observe(bool full) {
    std::vector<std::string> all;
    for (auto &mp : m) {
      if (!mp) { all.push_back("{\"live\":false}"); continue; }
      auto e0 = map_ext(*mp);
      std::vector<std::string> reads;
      std::vector<long> has;
      for (auto &c : probes) {
        bool ok = unbounded(kind) || ext_has(*mp, c);
        reads.push_back(ok ? read(*mp, c) : std::string("[]"));
        has.push_back(mp->has_cell(c) ? 1 : 0);
      }
      long known = -1;
      if (full) {
        known = 0;
        for (long x = e0[0]; x < e0[0] + e0[2]; ++x)
          for (long y = e0[1]; y < e0[1] + e0[3]; ++y) {
            auto lc = dynamic_cast<const LogCell *>(&(*mp)[Coord(x, y)]);
            if (!lc || !lc->log.empty() || !lc->is_unknown()) ++known;
          }
      }
      Obj o;
      o.t("live", true).a("ext", map_ext(*mp)).raw("reads", arrs(reads)).a("has", has)
       .i("known", known).i("scale", X(mp->scale(), 1024));
      all.push_back(o.str());
    }
    return arrs(all);
  }
};

static std::vector<Coord> gen_probes(Rng &r, int kind, int w, int h, int n) {
  std::set<std::pair<int, int>> s;
  int ox = w / 2, oy = h / 2;
  bool big = kind == LAZY || kind == ULAZY || kind == R_ULAZY || kind == M3_ULAZY;
  auto bx = [&]() -> int {
    switch (r.in(0, 5)) {
      case 0: return -ox + int(r.in(-2, 1));
      case 1: return w - 1 - ox + int(r.in(-1, 2));
      case 2: return int(r.in(-2, 2));
      case 3: return big ? -ox + 128 * int(r.in(0, 3)) + int(r.in(-1, 1)) : int(r.in(-ox - 3, w - ox + 3));
      case 4: return big ? -ox - 128 * int(r.in(0, 3)) + int(r.in(-1, 1)) : int(r.in(-ox - w, w - ox + w));
      default: return int(r.in(-ox, w - 1 - ox));
    }
  };
  auto by = [&]() -> int {
    switch (r.in(0, 5)) {
      case 0: return -oy + int(r.in(-2, 1));
      case 1: return h - 1 - oy + int(r.in(-1, 2));
      case 2: return int(r.in(-2, 2));
      case 3: return big ? -oy + 128 * int(r.in(0, 3)) + int(r.in(-1, 1)) : int(r.in(-oy - 3, h - oy + 3));
      case 4: return big ? -oy - 128 * int(r.in(0, 3)) + int(r.in(-1, 1)) : int(r.in(-oy - h, h - oy + h));
      default: return int(r.in(-oy, h - 1 - oy));
    }
  };
  int tries = 0;
  while (int(s.size()) < n && ++tries < 400) {
    int x = bx(), y = by();
    // some mirrored and shared-row/column companions: likely aliases of a wrong index
    s.insert({x, y});
    if (r.chance(30)) s.insert({y, x});
    if (r.chance(20)) s.insert({-x, y});
    if (r.chance(20)) s.insert({x, by()});
    if (r.chance(20) && big) s.insert({x + 128, y});
    if (r.chance(20) && big) s.insert({x, y + 128});
  }
  std::vector<Coord> v;
  for (auto &p : s) {
    if (!unbounded(kind) && !(-ox <= p.first && p.first < w - ox && -oy <= p.second && p.second < h - oy)
        && r.chance(60)) continue;
    v.push_back(Coord(p.first, p.second));
  }
  if (v.empty()) v.push_back(Coord(0, 0));
  return v;
}

static void episode(Rng &r, long id, int kind, int w, int h, int ops, int nprobes,
                    int p_copy, int p_load, bool always_full) {
  World wd;
  wd.kind = kind;
  wd.scale = Scales[r.in(0, 3)];
  wd.probes = gen_probes(r, kind, w, h, nprobes);
  auto proto = std::make_shared<LogCell>(7);
  const int NMAPS = p_copy || p_load ? 3 : 1;
  wd.m.resize(NMAPS);
  wd.m[0] = make_map(kind, proto, w, h, wd.scale);
  Obj hdr;
  std::vector<std::string> ps;
  for (auto &c : wd.probes) ps.push_back(arr(std::vector<long>{c.x, c.y}));
  hdr.i("id", id).i("kind", kind).t("unbounded", unbounded(kind)).i("w", w).i("h", h)
     .i("scale", X(wd.scale, 1024)).raw("probes", arrs(ps)).i("nmaps", NMAPS);
  T().begin(hdr);
  T().add(Ev("new").i("m", 1).raw("obs", wd.observe(w * h <= 5000)));
  std::map<std::pair<int, int>, int> writes; // keep logs short (LogCell stores 8 when saved)
  int next_id = 1;
  for (int k = 0; k < ops; ++k) {
    std::vector<int> live;
    for (int i = 0; i < NMAPS; ++i) if (wd.m[i]) live.push_back(i);
    int mi = r.pick(live);
    auto &mp = wd.m[mi];
    auto e = map_ext(*mp);
    bool full = always_full || k == ops - 1 ? e[2] * e[3] <= 60000 : e[2] * e[3] <= 1200;
    int roll = int(r.in(0, 99));
    T().about("op " + std::to_string(k) + " on map " + std::to_string(mi + 1));
    if (roll < p_copy) {
      int to = int(r.in(0, NMAPS - 1));
      if (to == mi) continue;
      if (wd.m[to] && r.chance(50)) {
        assign_map(kind, *wd.m[to], *mp);
        T().add(Ev("assign").i("m", to + 1).i("from", mi + 1).raw("obs", wd.observe(full)));
      } else {
        wd.m[to] = copy_map(kind, *mp);
        T().add(Ev("copy").i("m", to + 1).i("from", mi + 1).raw("obs", wd.observe(full)));
      }
      continue;
    }
    if (roll < p_copy + p_load) {
      int to = int(r.in(0, NMAPS - 1));
      if (to == mi) continue;
      auto data = mp->save_state();
      if (!wd.m[to]) {
        int w2 = int(r.in(1, 9)), h2 = int(r.in(1, 9));
        auto nm = make_map(kind, proto, w2, h2, Scales[r.in(0, 3)]);
        if (r.chance(50)) nm->update(r.pick(wd.probes), log_obs(999));
        wd.m[to] = nm;
      }
      wd.m[to]->load_state(data);
      T().add(Ev("load").i("m", to + 1).i("from", mi + 1).raw("obs", wd.observe(full)));
      continue;
    }
    if (p_copy && roll < p_copy + p_load + 4 && live.size() > 1) {
      mp.reset();
      T().add(Ev("drop").i("m", mi + 1).raw("obs", wd.observe(full)));
      continue;
    }
    int pi = int(r.in(0, long(wd.probes.size()) - 1));
    auto c = wd.probes[pi];
    if (!unbounded(kind) && !wd.ext_has(*mp, c)) continue;
    if (r.chance(70)) {
      if (++writes[{c.x, c.y}] > 7) continue;
      mp->update(c, log_obs(next_id));
      T().add(Ev("update").i("m", mi + 1).i("p", pi + 1).i("v", next_id).raw("obs", wd.observe(full)));
    } else {
      LogCell cell(7);
      bool blank = r.chance(15);
      if (!blank) cell += log_obs(next_id);
      mp->reset(c, cell);
      T().add(Ev("reset").i("m", mi + 1).i("p", pi + 1).i("v", blank ? 0 : next_id).raw("obs", wd.observe(full)));
    }
    ++next_id;
  }
  T().end();
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed);
  long id = 0;
  auto small = [&]() { return int(r.in(1, 14)); };
  if (a.mode == "store") {
    // small maps, everything observed after each step
    for (int k = 0; k < KINDS; ++k) {
      for (int n = 0; n < a.n(40, 220); ++n) episode(r, ++id, k, small(), small(), 24, 14, 0, 0, true);
      bool tiled = k == LAZY || k == ULAZY || k == R_ULAZY || k == M3_ULAZY;
      for (int n = 0; n < a.n(8, 40); ++n)
        episode(r, ++id, k, tiled ? int(r.in(100, 400)) : int(r.in(15, 60)),
                tiled ? int(r.in(100, 400)) : int(r.in(15, 60)), 30, 22, 0, 0, false);
    }
  } else if (a.mode == "grow") {
    for (int k = 0; k < KINDS; ++k) {
      if (!unbounded(k)) continue;
      for (int n = 0; n < a.n(40, 220); ++n) {
        int w = r.chance(30) ? 1 : int(r.in(1, 30)), h = r.chance(30) ? 1 : int(r.in(1, 30));
        episode(r, ++id, k, w, h, 22, 18, 0, 0, false);
      }
      bool tiled = k == ULAZY || k == R_ULAZY || k == M3_ULAZY;
      for (int n = 0; n < a.n(10, 60); ++n)
        episode(r, ++id, k, tiled ? int(r.in(90, 300)) : int(r.in(30, 130)),
                tiled ? int(r.in(90, 300)) : int(r.in(30, 130)), 22, 22, 0, 0, false);
    }
  } else if (a.mode == "copy") {
    for (int k : {LAZY, ULAZY}) {
      for (int n = 0; n < a.n(70, 400); ++n) episode(r, ++id, k, small(), small(), 36, 12, 22, 0, false);
      for (int n = 0; n < a.n(40, 200); ++n)
        episode(r, ++id, k, int(r.in(100, 300)), int(r.in(100, 300)), 36, 18, 22, 0, false);
    }
  } else if (a.mode == "save") {
    for (int k : {UPLAIN, R_UPLAIN, M3_UPLAIN})
      for (int n = 0; n < a.n(60, 300); ++n)
        episode(r, ++id, k, int(r.in(1, 20)), int(r.in(1, 20)), 26, 14, 0, 22, true);
  } else return 77;
  T().close();
  return 0;
}
