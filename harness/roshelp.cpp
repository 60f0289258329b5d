// The helper nodes (with stand-ins for ROS): the path publisher and the adapter of recorded drives.
#include "vh.h"
#include <sys/wait.h>
#define main path_main
#include <ros/path_publisher.cpp>
#undef main
#define main adapter_main
#include <ros/wg_pr2_bag_adapter.cpp>
#undef main
using namespace vh;

static tf::StampedTransform made(const std::string &p, const std::string &c, long t, long x, long y, long q) {
  tf::Transform f{tf::createQuaternionFromYaw(double(q) * M_PI / 2), tf::Vector3{double(x), double(y), 0}};
  return tf::StampedTransform{f, ros::Time::ofNs(t * 250000000ll), p, c};
}
static long ticks(const ros::Time &t) { return t.ns() % 250000000ll ? INEXACT : t.ns() / 250000000ll; }
static long quarter(const geometry_msgs::Quaternion &o) {
  long n = A(2 * std::atan2(o.z, o.w) / (M_PI / 2), 1, 1e-6);
  return n == INEXACT ? n : ((n % 4) + 4) % 4;
}

// the path: transforms come while the node waits
static void path(Rng &r, long id) {
  ros::stub::params().clear(); ros::stub::published().clear(); ros::stub::running() = true;
  std::string mapf = "map", base = "base_link", topic = "path";
  if (r.chance(50)) { mapf = "world"; ros::param::set("~ros/tf/map_frame_id", mapf); }
  if (r.chance(50)) { base = "robot"; ros::param::set("base_link_frame_id", base); }
  if (r.chance(50)) { topic = "way"; ros::param::set("path_topic_name", topic); }
  T().begin(Obj().i("id", id).s("map", mapf));
  T().about("a path publisher at work");
  bool two = r.chance(60);
  long now = r.in(4, 9), left = r.in(6, 40), P[2][3];
  for (auto &p : P) for (long k = 0; k < 3; ++k) p[k] = r.in(-5, 5);
  size_t seen = 0;
  auto look = [&] {
    auto all = ros::stub::sent<nav_msgs::Path>(topic);
    for (; seen < all.size(); ++seen) {
      auto &m = *all[seen];
      std::vector<std::string> ps;
      bool frames = m.header.frame_id == mapf;
      for (auto &p : m.poses) {
        ps.push_back(arr(std::vector<long>{A(p.pose.position.x), A(p.pose.position.y), ticks(p.header.stamp)}));
        frames = frames && p.header.frame_id == mapf;
      }
      T().add(Ev("path").raw("poses", arrs(ps)).i("stamp", ticks(m.header.stamp)).t("frames", frames));
    }
  };
  ros::stub::waiting() = [&] {
    if (!ros::stub::running()) return; // (what is sent when it is over does not count)
    look();
    if (left-- <= 0) { ros::stub::running() = false; return; }
    now += r.in(0, 2);
    for (int i = 0; i < (two ? 2 : 1); ++i) {
      if (r.chance(25)) continue;
      for (long k = 0; k < 2; ++k) P[i][k] += r.in(-2, 2);
      if (r.chance(30)) P[i][2] = r.in(-1, 2);
      auto t = made(i ? "odom" : mapf, i || !two ? base : "odom", now, P[i][0], P[i][1], P[i][2]);
      tf::TransformListener::hear(t);
      T().add(Ev("tf").i("link", i + 1).i("t", now).a("p", {P[i][0], P[i][1], ((P[i][2] % 4) + 4) % 4}));
      if (r.chance(15)) { // of no concern
        tf::TransformListener::hear(made(r.chance(50) ? mapf : base, "lamp", now + r.in(-2, 2), 7, 7, 0));
      }
    }
  };
  T().add(Ev("links").i("n", two ? 2 : 1));
  char name[] = "path_publisher"; char *av[] = {name, nullptr};
  path_main(1, av);
  ros::stub::waiting() = nullptr;
  T().end();
}

// the adapter: runs in a process of its own
static void adapter(Rng &r, long id) {
  int fds[2];
  if (pipe(fds)) exit(77);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(fds[0]);
    std::string out;
    auto add = [&](const Obj &e) { out += e.str() + "\n"; };
    std::string mapf = "map", odom = "odom_combined";
    if (r.chance(40)) { mapf = "world"; ros::param::set("~ros/tf/map_frame_id", mapf); }
    if (r.chance(40)) { odom = "odom"; ros::param::set("~in/odometry/ros/tf/odom_frame_id", odom); }
    long left = r.in(3, 12), grids = 0; size_t seen = 0, sent = 0;
    auto look = [&] {
      auto all = ros::stub::sent<nav_msgs::OccupancyGrid>("provided_grid");
      for (; seen < all.size(); ++seen) {
        auto &g = *all[seen]; bool body = g.data.size() == g.info.width && g.info.width > 0;
        for (auto c : g.data) body = body && c == int8_t(g.info.width);
        add(Ev("grid").i("what", g.info.width).t("body", body).s("frame", g.header.frame_id).i("t", ticks(g.header.stamp)));
      }
      auto &s = tf::TransformBroadcaster::sent();
      for (; sent < s.size(); ++sent) {
        geometry_msgs::TransformStamped m; tf::transformStampedTFToMsg(s[sent], m);
        add(Ev("sent").s("from", m.header.frame_id).s("to", m.child_frame_id).i("t", ticks(m.header.stamp))
          .a("p", {X(m.transform.translation.x), X(m.transform.translation.y), quarter(m.transform.rotation)}));
      }
    };
    ros::stub::spin_once_body() = [&] {
      look();
      add(Ev("turn"));
      if (left-- <= 0) return false;
      for (long k = r.in(0, 3); k > 0; --k) {
        if (r.chance(35)) {
          auto g = boost::make_shared<nav_msgs::OccupancyGrid>();
          g->info.width = uint32_t(++grids); g->data.assign(size_t(grids), int8_t(grids));
          g->header.frame_id = r.chance(50) ? "map" : "gt"; long t = r.in(1, 50); g->header.stamp = ros::Time::ofNs(t * 250000000ll);
          add(Ev("newgrid").i("what", grids).i("t", t));
          ros::stub::deliver("provided_grid_orig", g);
        } else {
          auto m = boost::make_shared<tf::tfMessage>();
          std::vector<std::string> in;
          for (long n = r.in(1, 4); n > 0; --n) {
            std::string from = r.pick(std::vector<std::string>{"/" + mapf, "/" + mapf, "/" + odom, "/base", mapf}), to = r.pick(std::vector<std::string>{"/" + odom, "/" + odom, "/base", "/laser", "/" + mapf, odom});
            long t = r.in(1, 50), x = r.in(-9, 9), y = r.in(-9, 9), qq = r.in(0, 3);
            geometry_msgs::TransformStamped s; tf::transformStampedTFToMsg(made(from, to, t, x, y, qq), s);
            m->transforms.push_back(s);
            in.push_back(Obj().s("from", from).s("to", to).i("t", t).a("p", {x, y, qq}).t("corr", from == "/" + mapf && to == "/" + odom).str());
          }
          add(Ev("tf").raw("in", arrs(in)));
          ros::stub::deliver("tf_in", m);
        }
        look();
      }
      return true;
    };
    ros::stub::waiting() = [] {};
    char name[] = "adapter"; char *av[] = {name, nullptr};
    adapter_main(1, av);
    add(Ev("end"));
    ssize_t w = ::write(fds[1], out.data(), out.size()); (void)w;
    _exit(0);
  }
  ::close(fds[1]);
  std::string said; char b[4096]; ssize_t got;
  while ((got = ::read(fds[0], b, sizeof b)) > 0) said.append(b, size_t(got));
  ::close(fds[0]);
  int st = 0; waitpid(pid, &st, 0);
  T().begin(Obj().i("id", id));
  T().about("an adapter at work");
  std::istringstream is{said}; std::string l;
  while (std::getline(is, l)) { Obj o; o.b = l.substr(1, l.size() - 2); T().add(o); }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "the adapter ended with status %d\n", st); abort(); }
  T().end();
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 37 + 9);
  for (long id = 1, n = a.n(400, 4000); id <= n; ++id) {
    Rng own(r.next());
    if (a.mode == "path") path(own, id); else adapter(own, id);
  }
  T().close();
  return 0;
}
