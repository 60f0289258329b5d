// Whole drives through the bag runner and through the nodes (with stand-ins for ROS).
#include "drive.h"
#include <sys/wait.h>
#define main runner_main
#include <ros/lslam2D_bag_runner.cpp>
#undef main
#define main node_main
#include <ros/single_hypoth_slam_node.cpp>
#undef main
#define main gmapping_main
#include <slams/gmapping/gmapping.cpp>
#undef main
#define main credibilist_main
#include <slams/credibilist/slam.cpp>
#undef main
using namespace vh;
using namespace drive;
using Scan = sensor_msgs::LaserScan;

struct DriveRec : Rec {
  std::vector<long> rays; long q0 = 0;
  std::string json() const { return scan ? Obj().s("k", "s").i("t", t).a("rays", rays).i("q0", q0).str() : str(); }
};
struct Story {
  std::vector<std::string> chain; std::vector<DriveRec> recs; std::vector<std::pair<std::string, std::string>> ign;
  long rmin, rmax, far, S, wm, hm, pf, po, q; bool skip, cache;
  std::string odom, topic, tfn, slash;
  std::vector<std::pair<std::string, std::string>> props;
};
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
static Story story(Rng &r, bool live) {
  Story s;
  s.S = r.pick(std::vector<long>{8, 16, 4}); // cell size
  long ox = r.in(1, s.S - 1), oy = r.in(1, s.S - 1), ticks = r.in(4, 18);
  s.odom = r.chance(50) ? "odom_combined" : "odom";
  s.chain = r.chance(60) ? std::vector<std::string>{s.odom, "laser"} : std::vector<std::string>{s.odom, "base", "laser"};
  // places off the cells' edges: the first link has the offset, the rest moves by whole cells
  auto make = [&](size_t i) {
    auto v = link(r, s.chain[i], s.chain[i + 1], ticks, i > 0 && r.chance(70));
    long prev[2] = {0, 0}, t0 = v[0].t;
    for (auto &c : v) {
      long g = c.t - t0;
      for (int k = 0; k < 2; ++k) {
        if (g) prev[k] += g * s.S * r.in(-1, 1); else prev[k] = s.S * r.in(-6, 6);
        c.p[k] = prev[k] + (i ? 0 : k ? oy : ox);
      }
      t0 = c.t;
      if (i) { c.p[2] = v[0].p[2]; }
    }
    return v;
  };
  std::vector<std::vector<Rec>> st{scans(r, ticks)};
  for (size_t i = 0; i + 1 < s.chain.size(); ++i) st.push_back(make(i));
  if (!live && r.chance(40)) {
    st.push_back(link(r, "map", s.odom, ticks, false)); s.ign.push_back({"map", s.odom});
    if (r.chance(50)) { st.push_back(link(r, "truth", "laser", ticks, false)); s.ign.push_back({"truth", "laser"}); }
    if (r.chance(50)) { st.push_back(link(r, "map", "laser", ticks, false)); s.ign.insert(s.ign.begin() + r.in(0, long(s.ign.size())), {"map", "laser"}); }
  }
  auto off = [&](long v) { // neither along nor across on an edge
    for (;; ++v) {
      auto e = [&](long o) { return ((o + v) % s.S + s.S) % s.S != 0 && ((o - v) % s.S + s.S) % s.S != 0; };
      if (e(ox) && e(oy)) return v;
    }
  };
  s.rmin = r.pick(std::vector<long>{0, 8, 20}); s.rmax = off(r.in(60, 160));
  s.far = r.chance(40) ? off(r.in(30, 170)) : 0;
  s.skip = r.chance(50); s.cache = r.chance(50);
  for (auto &c : merge(r, st)) {
    DriveRec d; static_cast<Rec &>(d) = c;
    if (c.scan) {
      d.q0 = r.in(-2, 0);
      for (long i = 0, n = r.in(1, 4); i < n; ++i) d.rays.push_back(r.chance(15) ? s.rmin - 1 : r.chance(20) ? r.in(s.rmax, s.rmax + 5) : off(r.in(1, s.rmax - 1)));
    }
    s.recs.push_back(d);
  }
  s.wm = r.in(30, 36); s.hm = r.in(30, 36);
  s.pf = r.pick(std::vector<long>{0, 1, 4}); s.po = r.pick(std::vector<long>{15, 16, 12}); s.q = r.pick(std::vector<long>{4, 2, 1});
  s.topic = r.chance(50) ? "/base_scan" : "scan"; s.tfn = r.chance(60) ? "/tf" : "tf_old"; s.slash = r.chance(50) ? "/" : "";
  auto &p = s.props;
  auto b = [&](bool v) { return r.chance(60) ? v ? "true" : "false" : v ? "1" : "0"; };
  p = {{"in/lscan2D/ros/topic/enabled", "true"}, {"in/lscan2D/ros/topic/name", s.topic}, {"in/odometry/ros/tf/enabled", "1"},
       {"in/odometry/ros/tf/name", s.tfn}, {"in/odometry/ros/tf/odom_frame_id", s.odom},
       {"in/lscan2D/skip_exceeding_vals", b(s.skip)}, {"slam/performance/use_trig_cache", b(s.cache)},
       {"slam/occupancy_estimator/type", "const"}, {"slam/occupancy_estimator/base_occupied/prob", num(double(s.po) / 16)},
       {"slam/occupancy_estimator/base_empty/prob", num(double(s.pf) / 16)}, {"slam/mapping/grid/area/type", "mean_probability"},
       {"slam/mapping/grid/type", r.pick(std::vector<std::string>{"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"})},
       {"slam/mapping/raw_pose_quality", num(double(s.q) / 4)}, {"slam/mapping/corrected_pose_quality", "0.875"},
       {"slam/map/width_in_meters", std::to_string(s.wm)}, {"slam/map/height_in_meters", std::to_string(s.hm)},
       {"slam/map/meters_per_cell", num(double(s.S) / 64)}, {"slam/scmtch/type", "idle"}, {"slam/scmtch/spe/type", "wmpp"},
       {"slam/scmtch/spe/wmpp/weighting/type", "even"}};
  if (s.far) p.push_back({"slam/mapping/max_range", num((double(s.far) + 0.5) / 64)});
  if (!s.ign.empty()) {
    std::string t;
    for (auto &x : s.ign) { // (what is no pair of frames is passed over)
      if (r.chance(15)) t += r.chance(50) ? "nothing:" : ":";
      t += x.first + "-" + x.second + ":";
    }
    if (r.chance(70)) t.pop_back(); else if (r.chance(50)) t += "more";
    p.push_back({"in/odometry/ros/tf/ignore", t});
    s.slash = "/";
  }
  for (size_t i = p.size() - 1; i > 0; --i) std::swap(p[i], p[size_t(r.in(0, long(i)))]);
  return s;
}
static Obj header(const Story &s) {
  std::vector<std::string> ch, ign, recs;
  for (auto &c : s.chain) ch.push_back(q(c));
  for (auto &p : s.ign) ign.push_back(arrs(std::vector<std::string>{q(p.first), q(p.second)}));
  for (auto &c : s.recs) recs.push_back(c.json());
  return Obj().raw("chain", arrs(ch)).raw("ign", arrs(ign)).raw("recs", arrs(recs)).i("rmin", s.rmin).i("rmax", s.rmax).i("far", s.far).i("S", s.S)
    .t("skip", s.skip).i("pf", s.pf).i("po", s.po).i("q", s.q).i("w", s.wm * 64 / s.S).i("h", s.hm * 64 / s.S);
}
static Scan scan_msg(const Story &s, const DriveRec &c) {
  Scan m; m.header.frame_id = "laser"; m.header.stamp = stamp(c.t);
  m.angle_min = float(double(c.q0) * M_PI / 2); m.angle_increment = float(M_PI / 2);
  m.angle_max = float(double(c.q0 + long(c.rays.size()) - 1) * M_PI / 2);
  m.range_min = float(s.rmin / 64.0); m.range_max = float(s.rmax / 64.0);
  for (long v : c.rays) m.ranges.push_back(float(v / 64.0));
  return m;
}
static std::string read(const std::string &f) { std::ifstream s{f, std::ios::binary}; std::stringstream o; o << s.rdbuf(); return o.str(); }
static void write_file(const std::string &f, const std::string &t) { std::ofstream{f} << t; }

static void run(Rng &r) {
  auto s = story(r, false);
  // (gmapping, where nothing but odometry moves its particles)
  bool gmapping = r.chance(20);
  if (gmapping) {
    for (auto &p : s.props) if (p.first == "slam/mapping/grid/type") p.second = "unbounded_lazy_tiled"; 
    std::string P = "slam/particles/";
    for (auto &kv : std::vector<std::pair<std::string, std::string>>{{P + "number", std::to_string(r.in(1, 3))}, {P + "sample/xy/mean", "0"}, {P + "sample/theta/mean", "0"},
        {P + "sample/xy/sigma", "0.00000001"}, {P + "sample/theta/sigma", "0.00000001"}, {P + "sm_delta_lim/xy/min", r.chance(50) ? "0" : "1000"}, {P + "sm_delta_lim/xy/max", "2000"},
        {P + "sm_delta_lim/theta/min", r.chance(50) ? "0" : "1000"}, {P + "sm_delta_lim/theta/max", "2000"}, {"slam/scmtch/oope/type", "custom"},
        {"slam/scmtch/oope/custom/fullness_threshold", "0.1"}, {"slam/scmtch/oope/custom/window_size", "1"}, {"slam/scmtch/oope/oie/type", "discrepancy"}}) s.props.push_back(kv);
  }
  auto &f = rosbag::files()["drive.bag"];
  f.clear();
  for (auto &c : s.recs) {
    if (c.scan) write(f, s.topic, scan_msg(s, c));
    else { tf::tfMessage m; m.transforms.push_back(tf_msg(c, s.slash)); write(f, s.tfn, m); }
  }
  // the properties, some of them in an included file
  std::string a, b;
  for (auto &p : s.props) (r.chance(70) ? a : b) += p.first + "=" + p.second + "\n";
  write_file("b.properties", b);
  write_file("a.properties", a + "<./b.properties>\n");
  bool traj = gmapping || r.chance(70), pic = !gmapping && (!traj || r.chance(70)), verbose = r.chance(30);
  std::vector<std::vector<std::string>> parts{{"-p", "a.properties"}};
  if (traj) parts.push_back({"-t", "traj.txt"});
  if (pic) parts.push_back({"-m", "map.pgm"});
  if (verbose) parts.push_back({"-v"});
  if (r.chance(15)) parts.push_back({"-z", "what"});
  parts.push_back({"viny#"}); parts.push_back({"drive.bag"});
  for (size_t i = parts.size() - 1; i > 0; --i) std::swap(parts[i], parts[size_t(r.in(0, long(i)))]);
  std::vector<std::string> argv{"runner"}; bool first = true;
  for (auto &p : parts)
    for (auto &w : p) { if (p.size() == 1 && w[0] != '-') { argv.push_back(first ? (gmapping ? "gmapping" : r.chance(50) ? "viny" : "tiny") : "drive.bag"); first = false; } else argv.push_back(w); }
  std::vector<char *> av;
  for (auto &w : argv) av.push_back(&w[0]);
  av.push_back(nullptr);
  ::remove("traj.txt"); ::remove("map.pgm");
  T().begin(header(s));
  if (r.chance(15)) { // first with a word too many or too few
    auto odd = argv;
    if (r.chance(50)) odd.push_back("drive.bag"); else odd.erase(std::find(odd.begin(), odd.end(), "drive.bag"));
    std::vector<char *> ov; for (auto &w : odd) ov.push_back(&w[0]); ov.push_back(nullptr);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      static std::stringstream said; std::cout.rdbuf(said.rdbuf()); std::cerr.rdbuf(said.rdbuf());
      auto rate = [](int rc, void *) { _exit(rc == 0 ? 13 : said.str().find("Args:") != std::string::npos ? 11 : 12); };
      on_exit(rate, nullptr);
      rate(runner_main(int(odd.size()), ov.data()), nullptr);
    }
    int st = 0; waitpid(pid, &st, 0);
    // how the program ended: 11 with its usage, 12 without, 13 as if all was well
    T().add(Ev("odd").i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 128).t("wrote", !read("traj.txt").empty() || !read("map.pgm").empty()));
    ::remove("traj.txt"); ::remove("map.pgm");
  }
  T().about("the bag runner");
  runner_main(int(argv.size()), av.data());
  if (traj) {
    std::istringstream in{read("traj.txt")};
    std::string ln;
    while (std::getline(in, ln)) {
      std::istringstream is{ln};
      std::string t; double x, y, z, qx, qy, qz, qw;
      is >> t >> x >> y >> z >> qx >> qy >> qz >> qw;
      auto dot = t.find('.');
      auto st = ros::Time{uint32_t(std::strtoul(t.c_str(), nullptr, 10)), uint32_t(dot == std::string::npos ? 0 : std::llround(std::strtod(("0." + t.substr(dot + 1)).c_str(), nullptr) * 1e9))};
      tf::Transform p{tf::Quaternion{qx, qy, qz, qw}, tf::Vector3{x, y, z}};
      T().add(Ev("line").i("t", tick(st)).a("p", {A(x, 64, 0.02), A(y, 64, 0.02), place(p)[2]}));
    }
  } else T().add(Ev("quiet"));
  Ev end("end"); end.t("traj", traj).t("pic", pic);
  if (pic) {
    auto t = read("map.pgm");
    int w = 0, h = 0, mx = 0, used = 0;
    sscanf(t.c_str(), "P5 %d %d %d%n", &w, &h, &mx, &used);
    ++used;
    std::vector<std::string> px;
    if (long(t.size()) != long(used) + long(w) * h || mx != 255) w = -1;
    else for (long i = 0; i < long(w) * h; ++i) { unsigned char c = (unsigned char)t[size_t(used + i)]; if (c != 127 && c != 128) px.push_back(arr(std::vector<long>{i, c})); }
    end.i("w", w).i("h", h).raw("px", arrs(px));
  }
  std::vector<std::string> known{"a.properties", "b.properties"}, others;
  if (traj) known.push_back("traj.txt");
  if (pic) known.push_back("map.pgm");
  for (auto &n : sweep(known)) others.push_back(q(n));
  end.raw("others", arrs(others));
  T().add(end);
  T().end();
}
// a node: what arrives while it spins
static void node(Rng &r) {
  auto s = story(r, true);
  auto &pm = ros::stub::params(); pm.clear();
  ros::stub::subscribers().clear(); ros::stub::published().clear(); tf::TransformBroadcaster::sent().clear();
  ros::stub::running() = true;
  long interval = r.pick(std::vector<long>{0, 500, 1000, 5000});
  bool file = r.chance(50);
  std::string text;
  for (auto &p : s.props) {
    if (file && r.chance(60)) { text += p.first + "=" + p.second + "\n"; if (r.chance(20)) ros::param::set("~" + p.first, std::string("overridden")); continue; }
    auto n = "~" + p.first;
    // launch files give typed parameters
    char *end; double d = std::strtod(p.second.c_str(), &end);
    if (p.second == "true" || p.second == "false") r.chance(70) ? ros::param::set(n, p.second == "true") : ros::param::set(n, p.second);
    else if (!*end && end != p.second.c_str()) {
      if (d == std::floor(d) && p.second.find('.') == std::string::npos && p.first.find("enabled") == std::string::npos && p.first.find("skip_") == std::string::npos && p.first.find("use_") == std::string::npos) r.chance(70) ? ros::param::set(n, int(d)) : r.chance(50) ? ros::param::set(n, d) : ros::param::set(n, p.second);
      else r.chance(70) && p.first.find("enabled") == std::string::npos && p.first.find("skip_") == std::string::npos && p.first.find("use_") == std::string::npos ? ros::param::set(n, d) : ros::param::set(n, p.second);
    } else ros::param::set(n, p.second);
  }
  if (file) { write_file("node.properties", text); ros::param::set("~slam/config", std::string("node.properties")); }
  ros::param::set("~ros/tf/buffer_duration", 1000.0);
  ros::param::set("~ros/rviz/map_publishing_rate", double(interval) / 1000);
  ros::Time::clock() = 1000000000ll * r.in(100, 1000);
  auto h = header(s);
  T().begin(h.i("interval", interval));
  ros::stub::spin_body() = [&] {
    for (auto &c : s.recs) {
      ros::Time::clock() += 1000000ll * r.in(1, 700);
      tf::TransformBroadcaster::sent().clear(); ros::stub::published().clear();
      if (c.scan) ros::stub::deliver<Scan>(ros::stub::norm(s.topic), boost::make_shared<Scan>(scan_msg(s, c)));
      else {
        tf::StampedTransform st; tf::transformStampedMsgToTF(tf_msg(c, s.slash), st);
        tf::TransformListener::hear(st);
        for (auto m : tf::MessageFilterBase::all()) m->poke();
      }
      std::vector<std::string> sent, maps;
      for (auto &t : tf::TransformBroadcaster::sent()) {
        auto p = place(t);
        bool corr = t.frame_id_ == "map" && t.child_frame_id_ == s.odom, rp = t.frame_id_ == "map" && t.child_frame_id_ == "robot_pose";
        sent.push_back("[" + q(corr ? "corr" : rp ? "rp" : "?") + "," + std::to_string(p[0]) + "," + std::to_string(p[1]) + "," + std::to_string(p[2]) + "]");
      }
      for (auto &g : ros::stub::sent<nav_msgs::OccupancyGrid>("map")) {
        std::vector<std::string> px;
        for (size_t i = 0; i < g->data.size(); ++i) if (g->data[i] != 50) px.push_back(arr(std::vector<long>{long(i), long(g->data[i])}));
        maps.push_back(Obj().i("w", long(g->info.width)).i("h", long(g->info.height)).i("n", long(g->data.size())).i("res", A(g->info.resolution, 64))
          .a("at", {A(g->info.origin.position.x, 64), A(g->info.origin.position.y, 64)}).raw("px", arrs(px)).str());
      }
      T().add(Ev("arr").i("now", long(ros::Time::clock() / 1000000)).raw("sent", arrs(sent)).raw("maps", arrs(maps)));
    }
  };
  T().about("the node");
  std::string n = "node"; char *av[] = {&n[0], nullptr};
  node_main(1, av);
  ros::stub::spin_body() = nullptr;
  T().end();
  sweep();
}
// nodes that correct the pose: what they publish fits together
static void correcting(Rng &r) {
  auto s = story(r, true);
  int which = int(r.in(0, 2)); // 0: gmapping, 1: credibilist, 2: single hypothesis
  auto &pm = ros::stub::params(); pm.clear();
  ros::stub::subscribers().clear(); ros::stub::published().clear(); tf::TransformBroadcaster::sent().clear();
  ros::stub::running() = true;
  std::map<std::string, std::string> ps;
  for (auto &p : s.props) ps[p.first] = p.second;
  ps["slam/map/meters_per_cell"] = "0.25"; ps["slam/map/width_in_meters"] = ps["slam/map/height_in_meters"] = "10";
  ps["slam/mapping/grid/type"] = which == 1 ? r.pick(std::vector<std::string>{"unbounded_plain", "unbounded_lazy_tiled"}) : "unbounded_lazy_tiled";
  ps["slam/scmtch/type"] = r.pick(std::vector<std::string>{"MC", "HC"});
  ps["slam/scmtch/MC/seed"] = std::to_string(r.in(1, 100000)); ps["slam/scmtch/MC/dispersion/translation"] = "0.2"; ps["slam/scmtch/MC/dispersion/rotation"] = "0.1";
  ps["slam/scmtch/MC/dispersion/failed_attempts_limit"] = "20"; ps["slam/scmtch/MC/attempts_limit"] = "60";
  ps["slam/scmtch/oope/type"] = "obstacle"; ps["slam/scmtch/oope/oie/type"] = "discrepancy";
  if (which == 0) {
    ps["slam/particles/number"] = std::to_string(r.in(1, 4)); ps["slam/particles/sample/xy/mean"] = ps["slam/particles/sample/theta/mean"] = "0";
    ps["slam/particles/sample/xy/sigma"] = "0.1"; ps["slam/particles/sample/theta/sigma"] = "0.03";
    ps["slam/particles/sm_delta_lim/xy/min"] = "0.1"; ps["slam/particles/sm_delta_lim/xy/max"] = "0.2"; ps["slam/particles/sm_delta_lim/theta/min"] = "0.1"; ps["slam/particles/sm_delta_lim/theta/max"] = "0.2";
    ps["slam/scmtch/oope/type"] = "custom"; ps["slam/scmtch/oope/custom/fullness_threshold"] = "0.1"; ps["slam/scmtch/oope/custom/window_size"] = "1";
  }
  for (auto &p : ps) ros::param::set("~" + p.first, p.second);
  ros::param::set("~ros/tf/buffer_duration", 1000.0);
  ros::param::set("~ros/rviz/map_publishing_rate", 0.0);
  ros::Time::clock() = 1000000000ll * r.in(100, 1000);
  T().begin(header(s).i("node", which).i("interval", 0));
  ros::stub::spin_body() = [&] {
    for (auto &c : s.recs) {
      ros::Time::clock() += 125000000ll * r.in(1, 7);
      tf::TransformBroadcaster::sent().clear(); ros::stub::published().clear();
      if (c.scan) ros::stub::deliver<Scan>(ros::stub::norm(s.topic), boost::make_shared<Scan>(scan_msg(s, c)));
      else {
        tf::StampedTransform st; tf::transformStampedMsgToTF(tf_msg(c, s.slash), st);
        tf::TransformListener::hear(st);
        for (auto m : tf::MessageFilterBase::all()) m->poke();
      }
      std::vector<std::string> sent;
      for (auto &t : tf::TransformBroadcaster::sent()) {
        bool corr = t.frame_id_ == "map" && t.child_frame_id_ == s.odom, rp = t.frame_id_ == "map" && t.child_frame_id_ == "robot_pose";
        long h = I(tf::getYaw(t.r), 3600 / M_PI);
        sent.push_back(Obj().s("k", corr ? "corr" : rp ? "rp" : "?").a("p", {I(t.o.x(), 1e4), I(t.o.y(), 1e4), ((h % 7200) + 7200) % 7200})
          .t("now", t.stamp_ == ros::Time::now()).i("t", t.stamp_ == ros::Time::now() ? 0 : tick(t.stamp_)).str());
      }
      T().add(Ev("fit").raw("sent", arrs(sent)).i("maps", long(ros::stub::sent<nav_msgs::OccupancyGrid>("map").size())));
    }
  };
  T().about("node " + std::to_string(which));
  std::string n = "node"; char *av[] = {&n[0], nullptr};
  (which == 0 ? gmapping_main : which == 1 ? credibilist_main : node_main)(1, av);
  ros::stub::spin_body() = nullptr;
  T().end();
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 53 + 21);
  char tmp[] = "drives-XXXXXX";
  if (!mkdtemp(tmp) || chdir(tmp)) return 77;
  auto out = std::cout.rdbuf(nullptr);
  for (long n = a.n(150, 3000), i = 0; i < n; ++i) a.mode == "run" ? run(r) : a.mode == "fit" ? correcting(r) : node(r);
  std::cout.rdbuf(out);
  T().close();
  sweep();
  return chdir("..") || rmdir(tmp) ? 77 : 0;
}
