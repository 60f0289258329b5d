// Arithmetic of poses, moves, points, cells, occupancies, numbers and random variables.
#include "vh.h"
#include <random>
#include <core/states/robot_pose.h>
#include <core/states/state_data.h>
using namespace vh;
static double Q = 64; // the lattice of the numbers: a 64th, or about a millionth
typedef std::vector<long> V;
static V v3(const RobotPoseDelta &d) { return {X(d.x, Q), X(d.y, Q), X(d.theta, Q)}; }
static V v3(const RobotPose &d) { return {X(d.x, Q), X(d.y, Q), X(d.theta, Q)}; }
static V v2(const Point2D &p) { return {X(p.x, Q), X(p.y, Q)}; }
static V v2(const DiscretePoint2D &p) { return {p.x, p.y}; }
static RobotPoseDelta delta(const V &v) { return {double(v[0]) / Q, double(v[1]) / Q, double(v[2]) / Q}; }
static void walk(Rng &r, RobotPose &pose) {
  Q = 64;
  auto vec = [&] { long k = r.chance(50) ? 3 : 700; return V{r.in(-k, k), r.in(-k, k), r.in(-k, k)}; };
  auto d = vec();
  Ev e("move");
  e.a("d", d);
  switch (r.in(0, 4)) {
    case 0: pose = pose + delta(d); e.s("how", "plus"); break;
    case 1: pose += delta(d); e.s("how", "step"); break;
    case 2: pose += -delta(d); e.s("how", "back"); break;
    case 3: { RobotPose to{delta(d)}; auto way = to - pose; e.a("way", v3(way)); pose += way; e.s("how", "to"); break; }
    default: { RobotPose copy{pose}, other{1, 2, 3}; other = copy; copy += delta(d); pose = other; e.s("how", "copied"); }
  }
  e.a("pose", v3(pose)).a("at", v2(pose.point()));
  T().add(e);
}
static V near(Rng &r, const V &a) { // the same, one of it changed, or something else
  V b = a;
  if (r.chance(60)) { auto &x = b[size_t(r.in(0, long(b.size()) - 1))]; x = r.chance(30) ? -x : x + r.in(-2, 2); }
  return b;
}
static void deltas(Rng &r) {
  Q = r.chance(50) ? 64 : 1048576;
  long k = r.chance(50) ? 2 : 900;
  V a{r.in(-k, k), r.in(-k, k), r.in(-k, k)}, b = r.chance(50) ? near(r, a) : V{r.in(-k, k), r.in(-k, k), r.in(-k, k)};
  if (r.chance(20)) { a = {0, 0, 0}; if (r.chance(60)) a[size_t(r.in(0, 2))] = r.pick(V{-1, 1, 5}); }
  auto A1 = delta(a), B = delta(b), acc = A1, none = A1;
  acc += B; none.reset();
  if (r.chance(50)) A1 = RobotPoseDelta{Point2D{A1.x, A1.y}, A1.theta};
  T().add(Ev("deltas").a("a", a).a("b", b).a("sum", v3(A1 + B)).a("acc", v3(acc)).a("neg", v3(-A1)).a("mag", v3(A1.abs())).i("sq", X(A1.sq_dist(), Q * Q))
    .t("moves", bool(A1)).t("same", A1 == B).t("less", A1.is_abs_less(B)).a("none", v3(r.chance(50) ? none : RobotPoseDelta{})));
}
static void points(Rng &r) {
  Q = r.chance(50) ? 64 : 1048576;
  long k = r.chance(50) ? 2 : 900;
  V a{r.in(-k, k), r.in(-k, k)}, b = r.chance(50) ? near(r, a) : V{r.in(-k, k), r.in(-k, k)};
  long m = r.in(-5, 5);
  Point2D A1{double(a[0]) / Q, double(a[1]) / Q}, B{double(b[0]) / Q, double(b[1]) / Q};
  T().add(Ev("points").a("a", a).a("b", b).i("k", m).a("sum", v2(A1 + B)).a("dif", v2(A1 - B)).a("left", v2(double(m) * A1)).a("right", v2(A1 * double(m)))
    .i("sq", X(A1.dist_sq(B), Q * Q)).t("same", A1 == B));
  DiscretePoint2D C{int(a[0]), int(a[1])}, D{int(b[0]), int(b[1])}, acc = C;
  acc += D;
  T().add(Ev("cells").a("a", a).a("b", b).a("sum", v2(C + D)).a("acc", v2(acc)).a("dif", v2(C - D)).a("neg", v2(-C)).i("sq", X(C.dist_sq(D))).t("same", C == D).t("other", C != D));
  auto occ = [&](V &v) { if (r.chance(25)) { v = {0, 0, 0}; double nan = std::nan(""); return r.chance(50) ? Occupancy::invalid() : r.chance(50) ? Occupancy{nan, 0.5} : Occupancy{0.5, nan}; }
    v = {1, r.in(0, 2), r.in(0, 2)}; return Occupancy{double(v[1]) / 2, double(v[2]) / 2}; };
  V o, p;
  auto O = occ(o), P = occ(p);
  T().add(Ev("occ").a("a", o).a("b", p).t("valid", O.is_valid()).t("same", O == P));
}
static void numbers(Rng &r) {
  { // b = a + d tenths of the tolerance, c = b + d2 tenths
    double a = double(r.in(-999, 999)) / std::pow(10.0, double(r.in(0, 6))) * (r.chance(30) ? 1e6 : 1);
    auto pick = [&] { return r.chance(30) ? r.in(1, 8) * (r.chance(50) ? 1 : -1) : r.chance(50) ? r.in(12, 40) * (r.chance(50) ? 1 : -1) : r.in(1000, 100000000) * (r.chance(50) ? 1 : -1); };
    double unit = 1e-8 * std::max(1.0, std::abs(a));
    long d = pick(), d2 = pick();
    if (std::abs(d) > 1000) unit = 1e-8; // so far apart that the scale of the tolerance is another one: nothing near it is asked
    if (std::abs(d) > 1000) d = d > 0 ? d + long(40 * std::max(1.0, std::abs(a))) : d - long(40 * std::max(1.0, std::abs(a)));
    double b = a + double(d) * unit;
    double unit2 = 1e-8 * std::max(1.0, std::abs(b)), c = b + double(d2) * unit2;
    if (std::abs(d2) > 1000) d2 = d2 > 0 ? 1000 : -1000; // only its side counts
    if (std::abs(d) > 1000) d = d > 0 ? 1000 : -1000;
    T().add(Ev("cmp").i("d", d).i("d2", d2).t("eq", are_equal(a, b)).t("qe", are_equal(b, a)).t("lt", less(a, b)).t("gt", less(b, a)).t("le", less_or_equal(a, b)).t("ge", less_or_equal(b, a))
      .t("ord", are_ordered(a, b, c)).t("strict", are_strictly_ordered(a, b, c)));
  }
  long l = r.in(-9, 9), v = r.in(-20, 20), h = l + r.in(0, 9);
  T().add(Ev("bound").a("a", {l, v, h}).i("res", X(bound_value(double(l) / Q, double(v) / Q, double(h) / Q), Q)));
  long i = r.chance(30) ? r.in(1, 20) : r.chance(30) ? (1l << r.in(0, 20)) + r.in(0, 1) : r.in(1, 1000000);
  T().add(Ev("power").i("i", i).i("two", ge_pow<2>(int(i))).i("three", ge_pow<3>(int(i))));
  double f = r.pick(std::vector<double>{0.1, 0.05, 0.3, 1, 2, 7, 1.0 / 3, 0.7});
  long num = r.chance(60) ? r.in(-300, 300) * 16 : r.in(-3000, 3000);
  T().add(Ev("multiple").i("num", num).t("res", is_multiple_of(double(num) / 16 * f, f)));
  long a = r.in(-1440, 1440);
  T().add(Ev("angle").i("a", a).i("deg", A(rad2deg(deg2rad(double(a))))).i("turns", A(deg2rad(double(a)) / std::acos(-1.0), 180)));
}
typedef std::mt19937 Engine;
static std::unique_ptr<RandomVariable1D<Engine>> variable(Rng &r, std::string &told) {
  long m = r.in(-500, 500);
  if (r.chance(50)) {
    long sd = r.chance(15) ? 0 : r.in(50, 300);
    told = Obj().s("kind", "gauss").i("a", m).i("b", sd).str();
    if (sd == 0) { // nothing is random then
      struct Fixed : RandomVariable1D<Engine> {
        double v; Fixed(double d) : v{d} {}
        double sample(Engine &) override { return v; }
        std::unique_ptr<RandomVariable1D<Engine>> clone() const override { return std::make_unique<Fixed>(v); }
      };
      if (r.chance(50)) return std::make_unique<Fixed>(double(m));
    }
    return std::make_unique<GaussianRV1D<Engine>>(double(m), double(sd));
  }
  long w = r.in(100, 900);
  told = Obj().s("kind", "uniform").i("a", m).i("b", m + w).str();
  return std::make_unique<UniformRV1D<Engine>>(double(m), double(m + w));
}
static void randoms(Rng &r) {
  std::vector<std::string> told(3);
  auto x = variable(r, told[0]), y = variable(r, told[1]), t = variable(r, told[2]);
  RobotPoseDeltaRV<Engine> rv{*x, *y, *t}, other{*t, *x, *y};
  bool assigned = r.chance(50);
  if (assigned) other = rv;
  RobotPoseDeltaRV<Engine> copy{assigned ? other : rv};
  Engine e1(unsigned(r.in(1, 1000000))), e2 = e1;
  std::vector<V> s(3);
  V again, twin;
  for (int i = 0; i < 400; ++i) {
    auto d = rv.sample(e1);
    s[0].push_back(I(d.x)); s[1].push_back(I(d.y)); s[2].push_back(I(d.theta));
    if (i < 6) {
      for (double v : {d.x, d.y, d.theta}) again.push_back(I(v, 1000));
      d = copy.sample(e2);
      for (double v : {d.x, d.y, d.theta}) twin.push_back(I(v, 1000));
    }
  }
  std::vector<std::string> ss; for (auto &v : s) ss.push_back(arr(v));
  T().add(Ev("rv").raw("rv", arrs(told)).raw("s", arrs(ss)).a("again", again).a("copy", twin));
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 43 + 19);
  for (long ep = 0, n = a.n(300, 4000); ep < n; ++ep) {
    Q = 64;
    RobotPose pose{double(r.in(-99, 99)) / Q, double(r.in(-99, 99)) / Q, double(r.in(-99, 99)) / Q};
    if (r.chance(20)) pose = RobotPose{};
    T().begin(Obj().a("start", v3(pose)));
    for (int i = 0; i < 20; ++i) {
      T().about("vectors");
      long w = r.in(0, 9);
      if (w < 4) walk(r, pose); else if (w < 6) deltas(r); else if (w < 8) points(r); else numbers(r);
    }
    if (ep % 5 == 0) { T().about("random variables"); randoms(r); }
    T().end();
  }
  T().close();
  return 0;
}
