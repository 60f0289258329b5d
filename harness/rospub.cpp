// What is published about poses and maps (with stand-ins for ROS).
#include "drive.h"
#include "maps.h"
#include <chrono>
#include <thread>
#include <ros/init_utils.h>
using namespace vh;
using namespace drive;
using Scan = sensor_msgs::LaserScan;
static const double DEG20 = M_PI / 3600;

class ValCell : public GridCell {
public:
  ValCell(double v = 0.5) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<ValCell>(*this); }
  void operator+=(const AreaOccupancyObservation &o) override { _occupancy = o.occupancy; }
};
struct W : WorldObservable<GridMap> {
  void pose(const RobotPose &p) { notify_with_pose(p); }
  void map(const GridMap &m) { notify_with_map(m); }
};
static long ms() { return long(ros::Time::clock() / 1000000); }
static long ms(const ros::Time &t) { return t.ns() % 1000000 ? INEXACT : long(t.ns() / 1000000); }
static std::vector<long> pl(const tf::Transform &t) {
  long h = A(tf::getYaw(t.r), 1 / DEG20, 1e-3);
  double r, p, y; tf::Matrix3x3{t.r}.getRPY(r, p, y);
  if (std::abs(r) > 1e-6 || std::abs(p) > 1e-6 || std::abs(t.o.z()) > 1e-9) h = INEXACT; // not flat
  return {A(t.o.x(), 64, 1e-4), A(t.o.y(), 64, 1e-4), h == INEXACT ? h : ((h % 7200) + 7200) % 7200};
}
static std::string sent() {
  std::vector<std::string> v;
  auto &b = tf::TransformBroadcaster::sent();
  for (auto &t : b) v.push_back(Obj().s("f", t.frame_id_).s("t", t.child_frame_id_).a("p", pl(t)).i("s", ms(t.stamp_)).str());
  b.clear();
  return arrs(v);
}
static void set_params(Rng &r, Obj &h) {
  auto &p = ros::stub::params(); p.clear();
  std::string map = "map", robot = "robot_pose";
  if (r.chance(50)) ros::param::set("~ros/tf/map_frame_id", map = "world");
  if (r.chance(50)) ros::param::set("~ros/tf/robot_pose_frame_id", robot = "robot");
  h.s("map", map).s("robot", robot);
}
struct Props : PropertiesProvider { // properties by name
  std::map<std::string, std::string> m;
  int get_int(const std::string &, int d) const override { return d; }
  unsigned get_uint(const std::string &, unsigned d) const override { return d; }
  double get_dbl(const std::string &, double d) const override { return d; }
  bool get_bool(const std::string &, bool d) const override { return d; }
  std::string get_str(const std::string &n, const std::string &d) const override { return m.count(n) ? m.at(n) : d; }
  void set_property(const std::string &n, const std::string &v) override { m[n] = v; }
};
static void poses(Rng &r) {
  Obj h; set_params(r, h);
  Props props; std::string odom = "odom_combined";
  if (r.chance(50)) props.m["in/odometry/ros/tf/odom_frame_id"] = odom = "odom";
  T().begin(h.s("odom", odom));
  ros::stub::subscribers().clear(); tf::TransformBroadcaster::sent().clear();
  ros::Time::clock() = 1000000000ll * r.in(10, 1000);
  ros::NodeHandle nh; W w;
  TopicWithTransform<Scan> top{nh, "/scan", odom, 1e6};
  std::vector<std::shared_ptr<void>> pins;
  auto sub = [&] {
    std::string k = r.pick(std::vector<std::string>{"corr", "rp", "srp"});
    if (k == "corr") pins.push_back(create_pose_correction_tf_publisher<Scan, GridMap>(&w, &top, props));
    else if (k == "rp") pins.push_back(create_robot_pose_tf_publisher<GridMap>(&w));
    else pins.push_back(make_pose_correction_observation_stamped_publisher<Scan, GridMap>(&w, &top, props));
    T().add(Ev("sub").s("kind", k));
  };
  // all subscribe before the first scan, as the nodes do
  for (long k = r.in(1, 3); k > 0; --k) sub();
  bool any = false;
  for (long k = 0, n = r.in(2, 14); k < n; ++k) {
    ros::Time::clock() += 1000000ll * r.in(1, 3000);
    if (!any || r.chance(40)) {
      long p[3] = {r.in(-3000, 3000), r.in(-3000, 3000), r.in(0, 3)};
      long t = ms() - r.in(0, 500);
      auto a = at(p); if (r.chance(50)) a.o = tf::Vector3{a.o.x(), a.o.y(), 1.25};
      auto st = ros::Time::ofNs(t * 1000000ll);
      tf::TransformListener::hear(tf::StampedTransform{a, st, odom, "laser"});
      auto m = boost::make_shared<Scan>(); m->header.frame_id = "laser"; m->header.stamp = st;
      T().about("a scan arrives");
      ros::stub::deliver<Scan>("scan", m);
      T().add(Ev("scan").a("p", {p[0], p[1], p[2]}).i("t", t).raw("sent", sent()));
      any = true;
    } else if (r.chance(10) && !pins.empty()) {
      long i = r.in(0, long(pins.size()) - 1);
      pins.erase(pins.begin() + i);
      T().add(Ev("die").i("i", i + 1));
    } else {
      long p[3] = {r.in(-3000, 3000), r.in(-3000, 3000), r.in(-3, 4) * 1800};
      T().about("the pose changes");
      w.pose(RobotPose{p[0] / 64.0, p[1] / 64.0, p[2] * DEG20});
      T().add(Ev("pose").a("p", {p[0], p[1], p[2]}).i("now", ms()).raw("sent", sent()));
    }
  }
  T().end();
}
static void turned(Rng &r) { // any heading
  Obj h; set_params(r, h);
  T().begin(h.s("odom", "odom"));
  ros::Time::clock() = 1000000000ll * r.in(10, 1000);
  tf::TransformBroadcaster::sent().clear();
  W w; auto pin = create_robot_pose_tf_publisher<GridMap>(&w);
  T().add(Ev("sub").s("kind", "rp"));
  for (int k = 0; k < 8; ++k) {
    ros::Time::clock() += 1000000ll * r.in(0, 3000);
    long p[3] = {r.in(-90000, 90000), r.in(-90000, 90000), r.in(-3599, 3599)};
    w.pose(RobotPose{p[0] / 64.0, p[1] / 64.0, p[2] * DEG20});
    T().add(Ev("pose").a("p", {p[0], p[1], p[2]}).i("now", ms()).raw("sent", sent()));
  }
  T().end();
}
static void maps(Rng &r) {
  Obj h; set_params(r, h);
  long interval = r.pick(std::vector<long>{0, 500, 1000, 5000}), dflt = r.pick(std::vector<long>{-64, 32, 10});
  int kind = r.pick(std::vector<int>{PLAIN, UPLAIN, LAZY, ULAZY, R_UPLAIN, R_ULAZY, M3_UPLAIN, M3_ULAZY});
  T().begin(h.i("interval", interval).i("dflt", dflt).i("kind", kind));
  ros::stub::published().clear();
  ros::Time::clock() = 1000000000ll * r.in(10, 1000);
  long res = r.pick(std::vector<long>{10000, 5000, 1250, 1000, 500});
  auto m = make_map(kind, std::make_shared<ValCell>(double(dflt) / 64), int(r.in(1, 12)), int(r.in(1, 12)), double(res) / 1e4);
  ros::NodeHandle nh; W w;
  std::vector<std::shared_ptr<void>> pins{create_occupancy_grid_publisher<GridMap>(&w, nh, double(interval) / 1000)};
  std::map<std::pair<long, long>, long> known;
  for (long k = 0, n = r.in(2, 10); k < n; ++k) {
    for (long i = r.in(0, 6); i > 0; --i) {
      auto e = map_ext(*m);
      long out = unbounded(kind) && k < 3 && r.chance(20) ? 3 : 0;
      long x = r.in(e[0] - out, e[0] + e[2] - 1 + out), y = r.in(e[1] - out, e[1] + e[3] - 1 + out), v = r.chance(15) ? -64 : r.chance(30) ? r.pick(std::vector<long>{0, 64, 63, 1}) : r.in(0, 64);
      m->update({int(x), int(y)}, AreaOccupancyObservation{true, Occupancy{double(v) / 64, 1}, Point2D{0, 0}, 1});
      known[{x, y}] = v;
    }
    ros::Time::clock() += 1000000ll * r.pick(std::vector<long>{0, 1, 499, 500, 501, 1000, 2500, 5000});
    if (m->width() * m->height() > 2500) break;
    ros::stub::published().clear();
    T().about("the map is published");
    w.map(*m);
    std::vector<std::string> msgs, kn;
    for (auto &g : ros::stub::sent<nav_msgs::OccupancyGrid>("map")) {
      std::vector<long> d(g->data.begin(), g->data.end());
      msgs.push_back(Obj().s("f", g->header.frame_id).i("s", ms(g->info.map_load_time)).i("w", long(g->info.width)).i("h", long(g->info.height)).i("res", I(g->info.resolution, 1e4))
        .a("at", {I(g->info.origin.position.x, 1e4), I(g->info.origin.position.y, 1e4)}).a("data", d).str());
    }
    for (auto &c : known) kn.push_back(arr(std::vector<long>{c.first.first, c.first.second, c.second}));
    T().add(Ev("map").i("now", ms()).a("ext", map_ext(*m)).i("res", res).raw("known", arrs(kn)).raw("msgs", arrs(msgs)));
  }
  T().end();
}
static std::string read(const std::string &f) { std::ifstream s{f}; std::stringstream o; o << s.rdbuf(); return o.str(); }
static void trajectory(Rng &r) {
  T().begin(Obj());
  std::string f = "trajectory.txt";
  bool flush = r.chance(50);
  auto d = std::make_shared<RobotPoseTumTrajectoryDumper>(f, flush);
  std::vector<std::string> poses;
  for (long k = 0, n = r.in(0, 12); k < n; ++k) {
    long sec = r.in(1, 1700000000), ns = r.chance(50) ? r.in(0, 999999999) : r.pick(std::vector<long>{0, 1, 5000000, 50000000, 99999999, 100000000, 999999999, 120});
    long p[3] = {r.in(-3200, 3200), r.in(-3200, 3200), r.in(-3600, 3600) * 2};
    RobotPose pose{p[0] / 64.0, p[1] / 64.0, p[2] * DEG20};
    ros::Time::clock() = ros::Time{uint32_t(sec), uint32_t(ns)}.ns();
    if (r.chance(50)) d->on_pose_update(pose); else d->log_robot_pose(ros::Time::now(), pose);
    poses.push_back(arr(std::vector<long>{sec, ns, p[0], p[1], p[2]}));
    if (flush && r.chance(20)) { // every entry is there at once
      auto t = read(f);
      if (std::count(t.begin(), t.end(), '\n') != long(poses.size())) poses.push_back("[0,0,0,0,0]");
    }
  }
  d.reset();
  std::vector<std::string> lines; std::string ln;
  std::istringstream in{read(f)};
  while (std::getline(in, ln)) {
    std::istringstream is{ln};
    std::string t; std::vector<long> v; double x;
    is >> t;
    while (is >> x) v.push_back(I(x, 1e4));
    while (v.size() < 7) v.push_back(INEXACT);
    auto dot = t.find('.');
    auto frac = dot == std::string::npos ? "0" : t.substr(dot + 1);
    bool num = !frac.empty() && frac.size() < 10 && frac.find_first_not_of("0123456789") == std::string::npos && v.size() == 7;
    lines.push_back(Obj().i("sec", std::strtol(t.c_str(), nullptr, 10)).i("frac", num ? std::strtol(frac.c_str(), nullptr, 10) : 0).i("digits", num ? long(frac.size()) : 0).a("v", v).str());
  }
  T().add(Ev("traj").raw("lines", arrs(lines)).raw("poses", arrs(poses)));
  ::remove(f.c_str());
  T().end();
}
static void ignores(Rng &r) {
  T().begin(Obj());
  for (int k = 0; k < 5; ++k) {
    std::vector<std::string> ents; std::string text;
    for (long i = 0, n = r.in(0, 5); i < n; ++i) {
      auto a = r.pick(std::vector<std::string>{"map", "odom", "base_link", "laser"}), b = r.pick(std::vector<std::string>{"odom_combined", "odom", "a-b", "laser", "x"});
      if (i) text += ":";
      if (r.chance(12)) { text += a; ents.push_back(arrs(std::vector<std::string>{q(a)})); }
      else { text += a + "-" + b; ents.push_back(arrs(std::vector<std::string>{q(a), q(b)})); }
    }
    if (!text.empty() && r.chance(15)) text += ":";
    Props p; if (!text.empty() || r.chance(50)) p.m["in/odometry/ros/tf/ignore"] = text;
    std::vector<std::string> got;
    for (auto &f : tf_ignored_transforms(p)) for (auto &t : f.second) got.push_back(arrs(std::vector<std::string>{q(f.first), q(t)}));
    T().add(Ev("ignore").raw("entries", arrs(ents)).raw("got", arrs(got)));
  }
  T().end();
}
static size_t count() { std::lock_guard<std::mutex> l{tf::TransformBroadcaster::guard()}; return tf::TransformBroadcaster::sent().size(); }
static void async(Rng &r) {
  Obj h; set_params(r, h);
  ros::param::set("~ros/tf/async_correction", true);
  T().begin(h.s("odom", "odom"));
  Props props; props.m["in/odometry/ros/tf/odom_frame_id"] = "odom";
  ros::stub::subscribers().clear();
  { std::lock_guard<std::mutex> l{tf::TransformBroadcaster::guard()}; tf::TransformBroadcaster::sent().clear(); }
  ros::NodeHandle nh; W w;
  TopicWithTransform<Scan> top{nh, "/scan", "odom", 1e6};
  auto pub = create_pose_correction_tf_publisher<Scan, GridMap>(&w, &top, props);
  T().about("an asynchronous publisher");
  for (int k = 0; k < 4; ++k) {
    long o[3] = {r.in(-3000, 3000), r.in(-3000, 3000), r.in(0, 3)}, p[3] = {r.in(-3000, 3000), r.in(-3000, 3000), r.in(0, 3)};
    bool upd = k > 0;
    if (!upd) {
      tf::TransformListener::hear(tf::StampedTransform{at(o), stamp(k), "odom", "laser"});
      auto m = boost::make_shared<Scan>(); m->header.frame_id = "laser"; m->header.stamp = stamp(k);
      ros::stub::deliver<Scan>("scan", m);
    } else w.pose(RobotPose{p[0] / 64.0, p[1] / 64.0, p[2] * M_PI / 2});
    auto base = count();
    static int patience = 4000;
    for (int i = 0; i < patience && count() < base + 3; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); // generous: up to 4 s, once
    if (count() < base + 3) patience = 50;
    std::vector<std::string> v;
    long more = long(count() - base);
    {
      std::lock_guard<std::mutex> l{tf::TransformBroadcaster::guard()};
      auto &b = tf::TransformBroadcaster::sent();
      for (auto &t : b) { auto x = pl(t); v.push_back(arr(std::vector<long>{x[0], x[1], x[2] / 1800})); }
      b.clear();
    }
    if (upd) T().add(Ev("async").t("upd", true).a("p", {p[0], p[1], p[2]}).raw("sent", arrs(v)).i("more", more));
    else T().add(Ev("async").t("upd", false).a("p", {o[0], o[1], o[2]}).raw("sent", arrs(v)).i("more", more));
  }
  T().about("an asynchronous publisher is gone");
  pub.reset();
  auto base = count();
  std::this_thread::sleep_for(std::chrono::milliseconds(30));
  T().add(Ev("gone").i("n", long(count() - base)));
  T().end();
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 41 + 9);
  char tmp[] = "publish-XXXXXX";
  if (!mkdtemp(tmp) || chdir(tmp)) return 77;
  auto out = std::cout.rdbuf(nullptr);
  if (a.mode == "poses") for (long n = a.n(500, 10000), i = 0; i < n; ++i) { poses(r); if (i % 4 == 0) turned(r); if (i % 4 == 1) trajectory(r); if (i % 8 == 0) ignores(r); }
  if (a.mode == "maps") for (long n = a.n(250, 3000), i = 0; i < n; ++i) maps(r);
  if (a.mode == "async") for (long n = a.n(8, 60), i = 0; i < n; ++i) async(r);
  std::cout.rdbuf(out);
  T().close();
  sweep();
  return chdir("..") || rmdir(tmp) ? 77 : 0;
}
