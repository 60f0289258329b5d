#include "vh.h"
#include <iostream>
#include <limits>
#include <core/features/angle_histogram.h>
using namespace vh;
using P = std::vector<long>;
static const std::vector<P> Heads = {{25, 0}, {0, 25}, {-25, 0}, {0, -25}, {15, 20}, {-15, 20}, {7, 24}, {24, 7}, {-24, -7}, {20, -15}, {-20, -15}};
static const std::vector<P> Triples = {{3, 4}, {5, 12}, {8, 15}, {20, 21}, {7, 24}, {1, 0}, {9, 40}, {12, 35}};
static double ang(const P &h) { return std::atan2(double(h[1]), double(h[0])); }
static ScanPoint2D mk(const P &p, double u, bool polar, bool occ, double turns = 0) {
  if (!polar) return ScanPoint2D::make_cartesian({p[0] * u, p[1] * u}, occ);
  return ScanPoint2D::make_polar(std::hypot(double(p[0]), double(p[1])) * u, std::atan2(double(p[1]), double(p[0])) + turns * 2 * M_PI, occ);
}
static P xy(double x, double y, double u) { return {A(x / u, 25, 1e-5), A(y / u, 25, 1e-5)}; }
static std::string bits(double v) { char b[40]; snprintf(b, 40, "%a", v); return b; }

static void points(Args &args) {
  Rng r(args.seed * 3 + 1);
  for (long ep = 0, n = args.n(200, 3000); ep < n; ++ep) {
    double u = r.pick(std::vector<double>{1, 0.125, 0.1, 3, 0.05});
    T().begin(Obj().s("kind", "points"));
    for (int i = 0; i < 12; ++i) {
      P p = {r.in(-40, 40), r.in(-40, 40)}, d = {r.in(-60, 60), r.in(-60, 60)};
      if (r.chance(10)) p[r.in(0, 1)] = 0;
      bool polar = r.chance(60), occ = r.chance(50);
      auto h = r.pick(Heads);
      double turns = r.chance(70) ? 0 : double(r.in(-2, 2)), th = ang(h) + (r.chance(60) ? 0 : 2 * M_PI * double(r.in(-3, 3)));
      auto sp = mk(p, u, polar, occ, turns);
      auto tp = std::make_shared<RawTrigonometryProvider>();
      if (r.chance(30)) tp->set_base_angle(double(r.in(-9, 9)));
      tp->set_base_angle(th);
      long m = r.in(0, 3);
      auto before = std::vector<std::string>{bits(sp.x()), bits(sp.y()), bits(sp.range()), bits(sp.angle())};
      auto tc = sp.to_cartesian(), tpol = sp.to_polar(), tpd = sp.to_polar(d[0] * u, d[1] * u), tn = sp.to_cartesian(th),
           lg = sp.to_cartesian(0, m * sp.range()), ct = sp.to_cartesian(tp);
      auto mv = sp.move_origin(d[0] * u, d[1] * u), ba = sp.move_origin(d[0] * u, d[1] * u, th),
           bt = sp.move_origin(d[0] * u, d[1] * u, tp), btp = sp.move_origin(Point2D{d[0] * u, d[1] * u}, tp);
      auto after = std::vector<std::string>{bits(sp.x()), bits(sp.y()), bits(sp.range()), bits(sp.angle())};
      auto pol = [&](const ScanPoint2D &q) { return xy(q.range() * std::cos(q.angle()), q.range() * std::sin(q.angle()), u); };
      auto both = [&](const ScanPoint2D &q) { auto a = xy(q.x(), q.y(), u), b = pol(q); return a == b ? a : P{INEXACT, INEXACT}; };
      auto e = Ev("point").a("p", p).a("d", d).a("h", h).i("m", m).t("o", occ);
      e.a("xy", xy(sp.x(), sp.y(), u)).a("polar", pol(sp)).i("sq", A(sp.range() * sp.range() / u / u, 1, 1e-6));
      auto b = [](bool v) { return std::string(v ? "true" : "false"); };
      e.raw("occ", arrs(std::vector<std::string>{b(sp.is_occupied()), b(tc.is_occupied() && tn.is_occupied()) == b(tc.is_occupied() || tn.is_occupied()) ? b(tc.is_occupied()) : b(!occ),
        b(tpol.is_occupied() && tpd.is_occupied()) == b(tpol.is_occupied() || tpd.is_occupied()) ? b(tpol.is_occupied()) : b(!occ), b(ct.is_occupied())}));
      e.a("tocart", both(tc)).a("topol", both(tpol)).a("topold", both(tpd)).a("turned", both(tn)).a("longer", both(lg)).a("carttp", both(ct));
      e.a("moved", xy(mv.x, mv.y, u)).a("byangle", xy(ba.x, ba.y, u)).a("bytp", xy(bt.x, bt.y, u)).a("bytpp", xy(btp.x, btp.y, u)).t("pure", before == after);
      T().add(e);
    }
    T().end();
  }
}
static std::vector<std::string> js(const std::vector<P> &v) { std::vector<std::string> r; for (auto &p : v) r.push_back(arr(p)); return r; }
static void scans(Args &args) {
  Rng r(args.seed * 5 + 2);
  for (long ep = 0, n = args.n(150, 2000); ep < n; ++ep) {
    double u = r.pick(std::vector<double>{1, 0.125, 0.1, 3});
    T().begin(Obj().s("kind", "scans"));
    LaserScan2D kept; // receives what is read
    for (int i = 0; i < 4; ++i) {
      std::vector<P> pts;
      std::vector<bool> occ;
      LaserScan2D s;
      if (r.chance(50)) s.trig_provider->set_base_angle(double(r.in(-9, 9)));
      for (long k = 0, m = r.in(0, 8); k < m; ++k) {
        P p = {r.in(-40, 40), r.in(-40, 40)};
        pts.push_back(p); occ.push_back(r.chance(60));
        s.points().push_back(mk(p, u, r.chance(60), occ.back()));
      }
      auto h = r.pick(Heads);
      auto c = s.to_cartesian(ang(h) + (r.chance(60) ? 0 : 2 * M_PI * double(r.in(-3, 3))));
      std::vector<P> res, after;
      std::vector<bool> o2;
      for (auto &q : c.points()) { res.push_back(xy(q.x(), q.y(), u)); o2.push_back(q.is_occupied()); }
      for (auto &q : s.points()) after.push_back(xy(q.x(), q.y(), u));
      auto bl = [](const std::vector<bool> &v) { std::vector<std::string> t; for (bool b : v) t.push_back(b ? "true" : "false"); return arrs(t); };
      T().add(Ev("convert").raw("pts", arrs(js(pts))).a("h", h).raw("occ", bl(occ)).raw("res", arrs(js(res))).raw("occ2", bl(o2)).raw("after", arrs(js(after))));
      // text
      LaserScan2D w;
      for (long k = 0, m = r.in(0, 7); k < m; ++k) {
        int kind = int(r.in(0, 3));
        double a = double(r.next() >> 11) / 9007199254740992.0, b = double(r.next() >> 11) / 9007199254740992.0;
        if (kind == 0) w.points().push_back(ScanPoint2D::make_polar(a * 30, (b - 0.5) * 2 * M_PI, r.chance(50)));
        if (kind == 1) w.points().push_back(ScanPoint2D::make_cartesian({(a - 0.5) * 50, (b - 0.5) * 50}, r.chance(50)));
        if (kind == 2) w.points().push_back(ScanPoint2D::make_polar(std::ldexp(a, int(r.in(-40, 40))), std::ldexp(b - 0.5, int(r.in(-30, 5))), r.chance(50)));
        if (kind == 3) w.points().push_back(ScanPoint2D::make_polar(double(r.in(0, 100)), double(r.in(-3, 3)), r.chance(50)));
      }
      std::stringstream ss;
      bool two = r.chance(40);
      ss << w;
      if (two) ss << w;
      LaserScan2D fresh;
      LaserScan2D &dst = r.chance(60) ? kept : fresh;
      ss >> dst;
      if (two) ss >> dst; // the first one ends where the second begins
      std::vector<std::string> put, got;
      for (auto &q : w.points()) { put.push_back(vh::q(bits(q.range()) + " " + bits(q.angle()) + (q.is_occupied() ? " hit" : " free"))); }
      for (auto &q : dst.points()) { got.push_back(vh::q(bits(q.range()) + " " + bits(q.angle()) + (q.is_occupied() ? " hit" : " free"))); }
      T().add(Ev("text").raw("put", arrs(put)).raw("got", arrs(got)).t("ok", bool(ss)));
    }
    T().end();
  }
}
static void trig(Args &args) {
  Rng r(args.seed * 7 + 3);
  for (long ep = 0, n = args.n(120, 1500); ep < n; ++ep) {
    T().begin(Obj().s("kind", "trig"));
    auto raw = std::make_shared<RawTrigonometryProvider>();
    auto cached = std::make_shared<CachedTrigonometryProvider>();
    auto by = [&](int v) { return v ? std::shared_ptr<TrigonometryProvider>(cached) : std::shared_ptr<TrigonometryProvider>(raw); };
    long lo = 0, step = 1, hi = 1, tol = 1, nb = 0;
    double dlo = 0, dstep = 0;
    bool have = false, acc = false;
    for (int i = 0; i < 14; ++i) {
      int what = have ? int(r.in(0, 5)) : 0;
      if (what == 0) { // a sensor; sometimes only one of its parameters changes
        bool fl = r.chance(30), k0 = !have || r.chance(60);
        if (k0) {
          step = r.pick(std::vector<long>{1, 2, 5, 7, 10, 20, 60, 100, 140, 300, 600});
          lo = -r.pick(std::vector<long>{0, 100, 900, 1800, 2400, 2700, 3600, -400});
          hi = lo + r.in(1, std::max(1L, std::min(5400L / step, 1200L))) * step;
        } else {
          int k = int(r.in(0, 3));
          if (k == 3) lo -= step * r.in(1, 4);
          if (k == 0) { long d = r.in(-3, 3) * 20; lo += d; hi += d; }
          if (k == 1) hi += step * r.in(1, 4);
          if (k == 2) { long o = step; step = r.pick(std::vector<long>{o * 2, std::max(1L, o / 2), o + 1}); while ((hi - lo) / step > 1200) ++step; }
        }
        if (k0 && r.chance(30) && step > 1 && hi - lo > step) hi -= r.in(1, step - 1) % (hi - lo);
        auto rad = [&](long v) { double d = deg2rad(v / 20.0); return fl ? double(float(d)) : d; };
        tol = fl ? 1 + (hi - lo) / 60 : 1;
        dlo = rad(lo); dstep = rad(step);
        double dhi = fl ? double(float(float(dlo) + float(dstep) * ((hi - lo) / double(step)))) : rad(hi);
        nb = (hi - lo + step - 1) / step;
        if (fl && nb > 1) { // a sensor's limits are those of its last beam, one step added
          dhi = double(float(rad(lo + (nb - 1) * step)) + float(dstep));
        }
        cached->update(dlo, dhi, dstep);
        if (r.chance(20)) cached->update(dlo, dhi, dstep);
        acc = fl || r.chance(50);
        have = true;
        T().add(Ev("update").i("lo", lo).i("hi", hi).i("step", step).i("tol", tol));
      } else if (what == 1) {
        int v = int(r.in(0, 1));
        long a = r.in(-9000, 9000);
        by(v)->set_base_angle(deg2rad(a / 20.0));
        T().add(Ev("base").i("v", v).i("a", a));
      } else {
        std::vector<double> as(nb);
        double a = dlo - dstep;
        for (long k = 0; k < nb; ++k) { a += dstep; as[k] = acc ? a : dlo + dstep * k; }
        int v = int(r.in(0, 1));
        if (what <= 3) {
          P b, s, c;
          for (int k = 0; k < 12; ++k) {
            b.push_back(k == 0 ? 0 : k == 1 ? nb - 1 : k == 2 ? nb / 2 : r.in(0, nb - 1));
            s.push_back(I(by(v)->sin(as[b.back()]), 1e6)); c.push_back(I(by(v)->cos(as[b.back()]), 1e6));
          }
          T().add(Ev("ask").i("v", v).a("b", b).a("sin", s).a("cos", c));
        } else if (tol == 1) {
          long b = r.in(0, nb - 1), range = r.in(0, 1000), ax = r.in(-1000, 1000), ay = r.in(-1000, 1000);
          auto sp = ScanPoint2D::make_polar(double(range), as[b], true);
          Point2D w = r.chance(50) ? sp.move_origin(double(ax), double(ay), by(v)) : sp.move_origin(Point2D{double(ax), double(ay)}, by(v));
          if (r.chance(30)) { auto c = sp.to_cartesian(by(v)); w = Point2D{c.x() + ax, c.y() + ay}; }
          T().add(Ev("cast").i("v", v).i("b", b).i("range", range).a("at", {ax, ay}).a("res", {I(w.x, 1e4), I(w.y, 1e4)}));
        }
      }
    }
    T().end();
  }
}
static void hist(Args &args) {
  Rng r(args.seed * 11 + 5);
  for (long ep = 0, n = args.n(300, 4000); ep < n; ++ep) {
    T().begin(Obj().s("kind", "hist"));
    long N = r.pick(std::vector<long>{1, 2, 3, 4, 5, 9, 20, 20, 20, 36, 180});
    AngleHistogram ah = N == 20 && r.chance(50) ? AngleHistogram{} : AngleHistogram{std::size_t(N)};
    double u = r.pick(std::vector<double>{1, 0.125, 0.1, 3});
    for (int k = 0, m = int(r.in(1, 4)); k < m; ++k) {
      std::vector<P> pts;
      int shape = int(r.in(0, 3));
      P at = {r.in(-100, 100), r.in(-100, 100)}, d = {r.in(-9, 9), r.in(-9, 9)};
      for (long i = 0, np = r.chance(90) ? r.in(2, 12) : r.in(0, 1); i < np; ++i) {
        if (shape == 0) pts.push_back({r.in(-200, 200), r.in(-200, 200)});
        if (shape == 1) { pts.push_back(at); long t = r.in(1, 5); at[0] += d[0] * t; at[1] += d[1] * t; if (r.chance(20)) std::swap(d[0], d[1]); }
        if (shape == 2) { pts.push_back(at); at[r.in(0, 1)] += r.in(-5, 5); }
        if (shape == 3) { pts.push_back(at); long t = r.in(-5, 5), s = r.pick(P{-1, 1}); at[0] += t; at[1] += t * s; }
      }
      if (r.chance(15)) { // pairs that run along the x axis but for a hair
        LaserScan2D s;
        double x = 0, y = 0;
        long np = r.in(2, 9);
        for (long i = 0; i < np; ++i) {
          s.points().push_back(ScanPoint2D::make_cartesian(Point2D{x, y}, true));
          x += r.pick(P{-1, 1}) * double(r.in(1, 200)) / 8;
          y = r.pick(std::vector<double>{0, 1e-9, -1e-9, 1e-17, -1e-17, 1e-300});
        }
        T().about("pairs a hair off the x axis");
        auto copy = ah.reset(s);
        P hv, val;
        for (long i = 0; i < N; ++i) hv.push_back(copy[i]);
        for (long i = 0; i < np; ++i) val.push_back(copy.value(s.points(), i));
        T().add(Ev("hair").i("n", N).i("m", np).a("hist", hv).a("val", val).i("max", long(copy.max_i()) + 1));
        continue;
      }
      bool clear = true;
      for (std::size_t i = 1; i < pts.size(); ++i) {
        double dx = pts[i][0] - pts[i - 1][0], dy = pts[i][1] - pts[i - 1][1], a = std::atan2(dy, dx) * N / M_PI;
        if (std::abs(a - std::round(a)) < 1e-5) clear = false;
      }
      LaserScan2D s, b;
      for (auto &p : pts) s.points().push_back(mk(p, u, clear && r.chance(50), r.chance(50)));
      b.points().assign(s.points().rbegin(), s.points().rend());
      auto rh = AngleHistogram{std::size_t(N)};
      rh.reset(b);
      bool ret = r.chance(40);
      auto copy = ah.reset(s);
      AngleHistogram &use = ret ? copy : ah;
      P hv, rv, val;
      for (long i = 0; i < N; ++i) { hv.push_back(use[i]); rv.push_back(rh[i]); }
      for (std::size_t i = 0; i < pts.size(); ++i) val.push_back(use.value(s.points(), i));
      long full = std::count_if(hv.begin(), hv.end(), [](long x) { return x > 0; });
      T().add(Ev("hist").i("n", I(M_PI / use.angle_step())).raw("pts", arrs(js(pts))).a("hist", hv).a("rev", rv).a("val", val)
              .i("max", long(use.max_i()) + 1).i("min", long(use.min_i()) + 1).i("major", full ? I(use.major_direction() * 180 / M_PI, 1000) : -1)
              .i("minor", hv[use.min_i()] ? I(use.minor_direction() * 180 / M_PI, 1000) : -1));
    }
    T().end();
  }
}
int main(int argc, char **argv) {
  Args args(argc, argv);
  if (args.mode == "points") points(args);
  if (args.mode == "scans") scans(args);
  if (args.mode == "trig") trig(args);
  if (args.mode == "hist") hist(args);
  T().close();
}
