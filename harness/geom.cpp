// Geometry of grids (C09), beams (C10) and rectangles (C29).
#include "maps.h"
#include "core/maps/grid_rasterization.h"
using namespace vh;
using Coord = RegularSquaresGrid::Coord;

struct OpenGrid : RegularSquaresGrid {
  using RegularSquaresGrid::RegularSquaresGrid;
};
template <typename G> struct Reveal : G { // the conversion grids offer to their subclasses
  using RegularSquaresGrid::external2internal;
  static Coord e2i(const G &g, const Coord &c) { return (g.*(&Reveal::external2internal))(c); }
};

static const long U = 16;
static const std::vector<double> Exact = {1, 0.5, 0.125, 2, 0.0625, 8, 0.0078125, 1.0 / 1024};
static const std::vector<double> Rough = {0.1, 0.05, 0.2, 0.3, 0.025, 0.01, 1.7, 3.3};

static long coord(Rng &r, long span, bool exact) { // in 1/U cells
  long c = r.in(-span, span) * U;
  if (!exact) return c + r.in(1, U - 1);
  switch (r.in(0, 5)) {
    case 0: return c;
    case 1: return c + U / 2;
    case 2: return c + (r.chance(50) ? 1 : U - 1);
    default: return c + r.in(0, U - 1);
  }
}
static std::string cells(const std::vector<Coord> &cs, long bx = 0, long by = 0) {
  std::vector<std::string> v;
  for (auto &c : cs) v.push_back(arr(std::vector<long>{c.x - bx, c.y - by}));
  return arrs(v);
}
static std::vector<Coord> drain(GridRasterizedRectangle rr, size_t limit) {
  std::vector<Coord> v;
  while (rr.has_next() && v.size() < limit) v.push_back(rr.next());
  return v;
}

// a grid of some kind, maybe grown and rescaled
static std::shared_ptr<RegularSquaresGrid> make_grid(Rng &r, double s, bool &any, bool &map) {
  int w = int(r.in(1, 12)), h = int(r.in(1, 12));
  any = map = false;
  if (r.chance(40)) return std::make_shared<OpenGrid>(w, h, s);
  map = true;
  int kind = int(r.in(0, KINDS - 1));
  auto m = make_map(kind, std::make_shared<LogCell>(7), w, h, s);
  any = unbounded(kind);
  if (any && r.chance(60))
    for (int i = 0, n = int(r.in(1, 3)); i < n; ++i)
      m->update(Coord(int(r.in(-20, 20)), int(r.in(-20, 20))), log_obs(1));
  if (kind >= R_UPLAIN && r.chance(50)) m->rescale(s * (1 << r.in(0, 3)));
  return m;
}

static void cells_mode(Args &a) {
  Rng r(a.seed * 7 + 1);
  for (long ep = 0, n = a.n(500, 6000); ep < n; ++ep) {
    bool exact = r.chance(60), any, map;
    double s0 = exact ? r.pick(Exact) : r.pick(Rough);
    auto g = make_grid(r, s0, any, map);
    double s = g->scale();
    if (s == RegularSquaresGrid::Dbl_Inf) continue;
    T().begin(Obj().i("U", U).s("scale", std::to_string(s)));
    long far = r.chance(20) ? 100000 : r.chance(40) ? 300 : 6;
    auto to = [&](long v) { return double(v) * s / U; };
    for (int i = 0; i < 8; ++i) {
      long x = coord(r, far, exact), y = coord(r, far, exact);
      Point2D p{to(x), to(y)};
      T().about("world_to_cell");
      Coord c = r.chance(50) ? g->world_to_cell(p) : r.chance(50) ? g->world_to_cell(p.x, p.y) : g->world_to_cell(p.x, p.y, s);
      auto b = g->world_cell_bounds(c);
      auto m = g->cell_to_world(c);
      auto back = g->world_to_cell(m);
      double k = U / s;
      T().add(Ev("pt").a("p", {x, y}).a("c", {c.x, c.y})
        .a("m", {A(b.left(), k, 1e-3), A(b.right(), k, 1e-3), A(b.bot(), k, 1e-3), A(b.top(), k, 1e-3)})
        .a("mid", {A(m.x, 2 * k, 1e-3), A(m.y, 2 * k, 1e-3)}).a("back", {back.x, back.y}));
    }
    for (int i = 0; i < 4; ++i) {
      Coord in(int(r.in(-3, g->width() + 3)), int(r.in(-3, g->height() + 3)));
      auto ext = g->internal2external(in);
      auto o = g->origin();
      auto i2 = Reveal<RegularSquaresGrid>::e2i(*g, ext);
      T().add(Ev("shift").a("i", {in.x, in.y}).a("ext", {ext.x, ext.y}).a("int", {i2.x, i2.y}).a("o", {o.x, o.y})
        .i("w", g->width()).i("h", g->height()).t("any", any).t("has", g->has_cell(ext)));
    }
    for (int i = 0; i < 8; ++i) {
      long l = coord(r, r.chance(20) ? far : 4, exact), b = coord(r, 4, exact), w = 0, h = 0;
      if (!r.chance(15)) {
        w = r.chance(30) ? U * r.in(1, 4) : r.in(1, 6 * U);
        h = r.chance(30) ? U * r.in(1, 4) : r.in(1, 6 * U);
      }
      if (!exact) { if ((l + w) % U == 0) ++w; if ((b + h) % U == 0) ++h; }
      bool border = r.chance(50), dflt = border && r.chance(50);
      if (r.chance(25) && exact) { // the bounds of one cell
        Coord c(int(r.in(-5, 5)), int(r.in(-5, 5)));
        auto bb = g->world_cell_bounds(c);
        auto v = drain(GridRasterizedRectangle(*g, bb, border), 400);
        long L = c.x * U, B = c.y * U;
        T().add(Ev("rect").a("r", {L, L + U, B, B + U}).t("border", border).raw("c", cells(v)));
        continue;
      }
      LightWeightRectangle q{to(b), to(b + h), to(l), to(l + w)};
      T().about("rasterized rectangle");
      auto v = dflt ? drain(GridRasterizedRectangle(*g, q), 400) : drain(GridRasterizedRectangle(*g, q, border), 400);
      if (r.chance(20)) v = dflt ? GridRasterizedRectangle(*g, q).to_vector() : GridRasterizedRectangle(*g, q, border).to_vector();
      T().add(Ev("rect").a("r", {l, l + w, b, b + h}).t("border", border).raw("c", cells(v)));
    }
    if (g->width() * g->height() < 400) {
      double inf = RegularSquaresGrid::Dbl_Inf;
      auto v = drain(GridRasterizedRectangle(*g, LightWeightRectangle{-inf, inf, -inf, inf}, r.chance(50)), 400);
      auto o = g->origin();
      T().add(Ev("whole").a("o", {o.x, o.y}).i("w", g->width()).i("h", g->height()).raw("c", cells(v)));
    }
    T().end();
  }
}

static void beams_mode(Args &a) {
  Rng r(a.seed * 11 + 3);
  for (long ep = 0, n = a.n(350, 5000); ep < n; ++ep) {
    bool exact = r.chance(75), any, map;
    double s0 = exact ? r.pick(Exact) : r.pick(Rough);
    auto g = make_grid(r, s0, any, map);
    double s = g->scale();
    if (s == RegularSquaresGrid::Dbl_Inf) continue;
    T().begin(Obj().i("U", U).s("scale", std::to_string(s)));
    auto to = [&](long v) { return double(v) * s / U; };
    // everything is told relative to a cell that may be far from the world's origin
    long bx = r.chance(70) ? 0 : r.in(-5000, 5000), by = r.chance(70) ? 0 : r.in(-5000, 5000);
    for (int i = 0; i < 12; ++i) {
      long span = r.chance(15) ? 40 : r.chance(50) ? 8 : 3;
      long ax = coord(r, span, exact), ay = coord(r, span, exact), x, y;
      int dir = int(r.in(0, 9));
      x = coord(r, span, exact); y = coord(r, span, exact);
      if (dir == 0) y = ay;
      if (dir == 1) x = ax;
      if (dir == 2) { x = ax; y = ay; }
      if (dir == 3 || dir == 4) { long d = r.in(-span, span) * (r.chance(50) ? U : 1); x = ax + d; y = ay + (r.chance(50) ? d : -d); }
      if (dir == 5) { long d = r.in(-span, span) * (r.chance(50) ? U / 2 : 1); x = ax + d * r.in(1, 2); y = ay + (r.chance(50) ? d : -d); }
      if (dir == 6 && exact) { ax = ax / U * U; ay = ay / U * U; x = x / U * U; y = y / U * U; }
      if (!exact && (x % U == 0 || y % U == 0)) continue;
      T().about("world_to_cells");
      auto v = g->world_to_cells(Segment2D{{to(bx * U + ax), to(by * U + ay)}, {to(bx * U + x), to(by * U + y)}});
      T().add(Ev("beam").a("a", {ax, ay}).a("b", {x, y}).raw("c", cells(v, bx, by)));
    }
    for (int i = 0; i < 3; ++i) { // lines of whole points
      long k = r.chance(15) ? 60 : r.chance(50) ? 12 : 4;
      long ax = bx + r.in(-k, k), ay = by + r.in(-k, k), x = bx + r.in(-k, k), y = by + r.in(-k, k);
      if (r.chance(15)) { long d = r.in(-k, k); x = ax + d; y = ay + (r.chance(50) ? d : -d); }
      if (r.chance(10)) { x = ax + 2 * (y - ay); }
      T().about("DiscreteSegment2D");
      std::vector<Coord> line = DiscreteSegment2D{{int(ax), int(ay)}, {int(x), int(y)}};
      T().add(Ev("line").a("a", {ax - bx, ay - by}).a("b", {x - bx, y - by}).raw("c", cells(line, bx, by)));
    }
    T().end();
  }
}

static const double Q = 64; // rectangles live on multiples of 1/8 (emitted in 1/64)
static std::vector<long> rect(const LightWeightRectangle &q) {
  return {X(q.left(), Q), X(q.right(), Q), X(q.bot(), Q), X(q.top(), Q)};
}
static std::string pt(const Point2D &p) { return arr(std::vector<long>{X(p.x, Q), X(p.y, Q)}); }

static void rects_mode(Args &a) {
  Rng r(a.seed * 13 + 5);
  auto side = [&](long k) { return r.chance(8) ? 0 : r.in(1, k); };
  for (long ep = 0, n = a.n(500, 8000); ep < n; ++ep) {
    T().begin(Obj());
    long k = r.chance(50) ? 3 : r.chance(70) ? 8 : 60;
    for (int i = 0; i < 12; ++i) {
      long l = r.in(-k, k) * 8, b = r.in(-k, k) * 8, w = side(k) * 8, h = side(k) * 8;
      auto mk = [](long l, long w, long b, long h) { return LightWeightRectangle{b / Q, (b + h) / Q, l / Q, (l + w) / Q}; };
      auto R = mk(l, w, b, h);
      std::vector<long> rc = {l, l + w, b, b + h};
      switch (r.in(0, 6)) {
        case 0: case 1: case 2: {
          long l2 = r.in(-k, k) * 8, b2 = r.in(-k, k) * 8, w2 = side(k) * 8, h2 = side(k) * 8;
          if (r.chance(15)) { w = h = 0; R = mk(l, w, b, h); rc = {l, l, b, b}; } // points have a share too
          if (r.chance(15)) { w2 = h2 = 0; if (r.chance(40)) { l2 = l; b2 = b; } }
          auto S = mk(l2, w2, b2, h2);
          T().about("intersect");
          auto I1 = R.intersect(S);
          Ev e("inter");
          e.a("r", rc).a("q", {l2, l2 + w2, b2, b2 + h2}).a("i", rect(I1)).t("eq", R == S);
          // the share is defined for areas and points
          bool ok = (w && h) || (!w && !h);
          bool ok2 = (w2 && h2) || (!w2 && !h2);
          long den = w * h / 64;
          e.i("ov", ok && ok2 ? (den ? A(R.overlap(S), double(den), 1e-6) : X(R.overlap(S), 1)) : -1);
          T().add(e);
          break;
        }
        case 3: {
          std::vector<std::string> v, hh, f, cs;
          for (auto &x : R.split_vert()) v.push_back(arr(rect(x)));
          for (auto &x : R.split_horz()) hh.push_back(arr(rect(x)));
          for (auto &x : R.split4_evenly()) f.push_back(arr(rect(x)));
          for (auto &c : R.corners()) cs.push_back(pt(c));
          T().add(Ev("parts").a("r", rc).raw("v", arrs(v)).raw("h", arrs(hh)).raw("f", arrs(f)).raw("c", arrs(cs)));
          break;
        }
        case 4: {
          long x = r.in(-k, k) * 8, y = r.in(-k, k) * 8;
          bool in = r.chance(50) ? R.contains(x / Q, y / Q) : R.contains(Point2D{x / Q, y / Q});
          T().add(Ev("meas").a("r", rc).a("b", rect(R)).i("v", X(R.vside_len(), Q)).i("h", X(R.hside_len(), Q))
            .t("sq", R.is_square()).i("side", X(R.side(), Q)).i("area", X(R.area(), 64)).raw("c", pt(R.center()))
            .t("line", R.is_line()).t("point", R.is_point())
            .raw("mv", arr(rect(R.move_center({x / Q, y / Q})))).raw("sh", arr(rect(R.shrink(2))))
            .a("p", {x, y}).t("in", in));
          break;
        }
        default: { // a line through points of the grid and a proper rectangle
          if (!w) { w = 8; } if (!h) { h = 8; }
          Rectangle P{b / Q, (b + h) / Q, l / Q, (l + w) / Q};
          long x = r.in(-k, k) * 8, y = r.in(-k, k) * 8, x2, y2;
          if (r.chance(30)) { x = r.chance(50) ? l : l + w; y = r.chance(50) ? b : b + h; }
          long dx, dy;
          if (r.chance(20)) { dx = 0; dy = r.in(-4, 4) * 8; if (r.chance(50)) std::swap(dx, dy); }
          else { dx = (r.chance(50) ? 8 : -8) << r.in(0, 3); dy = (r.chance(50) ? 8 : -8) << r.in(0, 3); }
          x2 = x + dx; y2 = y + dy;
          bool seg = r.chance(60);
          Segment2D sg{{x / Q, y / Q}, {x2 / Q, y2 / Q}};
          T().about("find_intersections");
          auto is = seg ? P.find_intersections(sg) : P.find_intersections(r.chance(50) ? Ray{sg} : Ray{x / Q, dx / Q, y / Q, dy / Q});
          std::vector<std::string> v;
          for (auto &p : is) v.push_back(Obj().a("p", {X(p.x, Q * 64), X(p.y, Q * 64)}).i("loc", int(p.location)).t("hor", p.is_horiz()).str());
          T().add(Ev("ray").a("r", {l, l + w, b, b + h}).t("seg", seg).a("a", {x, y}).a("b", {x2, y2}).raw("is", arrs(v)));
          if (r.chance(50)) {
            auto ed = P.find_containing_edge({x / Q, y / Q});
            bool has = bool(ed);
            T().add(Ev("edge").a("r", {l, l + w, b, b + h}).a("p", {x, y}).t("has", has)
              .a("e", {X(ed.beg().x, Q), X(ed.beg().y, Q), X(ed.end().x, Q), X(ed.end().y, Q)})
              .a("s", {x, y, x2, y2}).t("on", P.has_on_edge_line(sg)).i("len", X(sg.length_sq(), 64))
              .t("hor", sg.is_horiz()).t("ver", sg.is_vert()).t("pt", sg.is_point()));
          }
        }
      }
    }
    T().end();
  }
}

int main(int argc, char **argv) {
  Args a(argc, argv);
  if (a.mode == "cells") cells_mode(a);
  else if (a.mode == "beams") beams_mode(a);
  else if (a.mode == "rects") rects_mode(a);
  else return 77;
  T().close();
  return 0;
}
