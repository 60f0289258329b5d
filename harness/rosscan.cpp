// Laser scan messages turned into scans (with stand-ins for ROS).
#include "vh.h"
#include "rosstub/rosstub.h"
#include <ros/laser_scan_observer.h>
using namespace vh;

static const double DEG20 = M_PI / 3600; // 1/20 degree
struct Sink : SensorDataObserver<TransformedLaserScan> {
  std::vector<TransformedLaserScan> got;
  void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); }
};
static std::string pts_json(const LaserScan2D &s, double lo, double inc) {
  std::vector<std::string> v;
  for (auto &p : s.points()) {
    double k = (p.angle() - lo) / inc;
    long i = std::lround(k);
    v.push_back(arr(std::vector<long>{X(p.range(), 64), std::abs(k - double(i)) < 1e-3 ? i : INEXACT, p.is_occupied()}));
  }
  return arrs(v);
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 31 + 5);
  std::clog.rdbuf(nullptr);
  for (long ep = 0, n = a.n(600, 12000); ep < n; ++ep) {
    bool skip = r.chance(50), cached = r.chance(50);
    long rmin = r.pick(std::vector<long>{0, 1, 6, 32}), rmax = r.pick(std::vector<long>{64, 640, 1920, 33});
    auto sink = std::make_shared<Sink>();
    LaserScanObserver obs{sink, skip, cached};
    T().begin(Obj().i("id", ep).t("skip", skip).t("cached", cached).i("rmin", rmin).i("rmax", rmax));
    if (r.chance(20)) {
      std::vector<long> o{r.in(-3000, 3000), r.in(-3000, 3000), r.in(-3600, 3600)};
      obs.set_odometry_pose(RobotPose{o[0] / 64.0, o[1] / 64.0, o[2] * DEG20});
      T().add(Ev("set").a("odo", o));
    }
    long rays = r.in(1, r.chance(70) ? 12 : 60), inc = r.pick(std::vector<long>{1, 5, 10, 20, 37, 100}), lo = r.in(-2700, 0);
    for (int k = 0, m = int(r.in(1, 6)); k < m; ++k) {
      auto msg = boost::make_shared<sensor_msgs::LaserScan>();
      if (r.chance(25)) { rays = r.in(1, 12); inc = r.in(1, 200); lo = r.in(-3600, 1800); }
      msg->angle_min = float(lo * DEG20); msg->angle_increment = float(inc * DEG20);
      msg->angle_max = float((lo + (rays - 1) * inc) * DEG20);
      msg->range_min = float(rmin / 64.0); msg->range_max = float(rmax / 64.0);
      msg->header.frame_id = "laser"; msg->header.stamp = ros::Time(10 + k, 0);
      std::vector<long> vals;
      for (long i = 0; i < rays; ++i) {
        long v; double d;
        int c = int(r.in(0, 99));
        if (c < 8) { v = NOT_A_NUMBER; d = r.chance(50) ? std::nan("") : -std::nan(""); }
        else if (c < 14) { v = TOO_BIG; d = INFINITY; }
        else if (c < 18) { v = -TOO_BIG; d = -INFINITY; }
        else {
          v = c < 26 ? rmin : c < 34 ? rmax : c < 38 ? rmin - 1 : c < 42 ? rmax + r.in(-1, 1) : c < 46 ? 0 : r.in(-1, rmax + 10);
          d = v / 64.0;
        }
        vals.push_back(v); msg->ranges.push_back(float(d));
      }
      std::vector<long> at{r.in(-600, 600), r.in(-600, 600), r.in(-3600, 3600)};
      auto places = [&](TransformedLaserScan &s) {
        std::vector<std::string> w;
        s.scan.trig_provider->set_base_angle(at[2] * DEG20);
        for (auto &p : s.scan.points()) {
          auto c = p.move_origin(at[0] / 64.0, at[1] / 64.0, s.scan.trig_provider);
          w.push_back(arr(std::vector<long>{I(c.x, 1e4), I(c.y, 1e4)}));
        }
        return arrs(w);
      };
      bool conv = r.chance(20);
      T().about(conv ? "msg2scan" : "handle_transformed_msg");
      if (conv) {
        const LaserScanObserver &co = obs;
        auto s = co.msg2scan(msg);
        T().add(Ev("conv").a("rays", vals).i("lo", lo).i("inc", inc).raw("pts", pts_json(s.scan, lo * DEG20, inc * DEG20))
          .i("q", I(s.quality, 1000)).i("n", 1).a("at", at).raw("w", places(s)));
        continue;
      }
      std::vector<long> o{r.in(-3000, 3000), r.in(-3000, 3000), r.in(-3600, 3600)};
      if (r.chance(20)) o = {0, 0, 0};
      tf::StampedTransform t{tf::Transform{tf::createQuaternionFromRPY(0, 0, o[2] * DEG20), tf::Vector3{o[0] / 64.0, o[1] / 64.0, r.chance(50) ? 0.0 : 1.5}},
                             msg->header.stamp, "odom", "laser"};
      sink->got.clear();
      obs.handle_transformed_msg(msg, t);
      Ev e("msg");
      TransformedLaserScan s;
      if (!sink->got.empty()) s = sink->got.back();
      auto op = obs.odometry_pose();
      e.a("rays", vals).i("lo", lo).i("inc", inc).raw("pts", pts_json(s.scan, lo * DEG20, inc * DEG20)).i("q", I(s.quality, 1000))
        .i("n", long(sink->got.size())).a("at", at).raw("w", sink->got.empty() ? "[]" : places(s)).a("odo", o)
        .a("d", {A(s.pose_delta.x, 64), A(s.pose_delta.y, 64), A(s.pose_delta.theta, 1 / DEG20, 1e-4)})
        .a("now", {A(op.x, 64), A(op.y, 64), A(op.theta, 1 / DEG20, 1e-4)});
      T().add(e);
    }
    T().end();
  }
  T().close();
  return 0;
}
