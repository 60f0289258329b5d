// Random recorded drives: scans and coordinate transforms on a grid of times (ticks of 1/8 s) and
// places (1/64 m, quarter turns), in an order a recorder could have written them.
#ifndef DRIVE_H
#define DRIVE_H
#include "vh.h"
#include "rosstub/rosstub.h"
namespace drive {
using namespace vh;
inline ros::Time stamp(long tick) { return ros::Time::ofNs(1700000000000000000ll + tick * 125000000ll); }
inline long tick(const ros::Time &t) {
  long d = long(t.ns() - 1700000000000000000ll);
  return d % 125000000 ? INEXACT : d / 125000000;
}
struct Rec { // one scan or one transform
  bool scan = false; std::string from, to; long t = 0; long p[3] = {0, 0, 0};
  std::string str() const {
    return scan ? Obj().s("k", "s").i("t", t).str()
                : Obj().s("k", "t").s("from", from).s("to", to).i("t", t).a("p", {p[0], p[1], p[2]}).str();
  }
};
inline tf::Transform at(const long *p) {
  return tf::Transform{tf::createQuaternionFromRPY(0, 0, p[2] * M_PI / 2), tf::Vector3{p[0] / 64.0, p[1] / 64.0, 0}};
}
inline std::vector<long> place(const tf::Transform &t) {
  return {A(t.o.x(), 64, 1e-4), A(t.o.y(), 64, 1e-4), [&] { long h = A(tf::getYaw(t.r), 2 / M_PI, 1e-4); return h == INEXACT ? h : ((h % 4) + 4) % 4; }()};
}
// the transforms of a link in the order of their times
inline std::vector<Rec> link(Rng &r, const std::string &from, const std::string &to, long ticks, bool still) {
  std::vector<Rec> v;
  Rec c; c.from = from; c.to = to; c.t = r.in(-2, 4);
  for (int i = 0; i < 2; ++i) c.p[i] = r.in(-200, 200);
  c.p[2] = r.in(0, 3);
  v.push_back(c);
  long end = ticks - r.in(-2, 4);
  do {
    long g = r.in(1, 3);
    if (!still) {
      if (r.chance(30)) { g = 1; c.p[2] = r.in(0, 3); }
      for (int i = 0; i < 2; ++i) c.p[i] += g * r.in(-20, 20);
    }
    c.t += g;
    v.push_back(c);
  } while (c.t < end);
  return v;
}
// several streams written down one after another, roughly by time
inline std::vector<Rec> merge(Rng &r, const std::vector<std::vector<Rec>> &streams) {
  std::vector<Rec> out;
  std::vector<size_t> i(streams.size(), 0);
  std::vector<long> late;
  for (size_t k = 0; k < streams.size(); ++k) late.push_back(r.chance(20) ? r.in(0, 30) : r.in(0, 4));
  for (;;) {
    long best = -1; double w = 0;
    for (size_t k = 0; k < streams.size(); ++k)
      if (i[k] < streams[k].size()) {
        double x = double(streams[k][i[k]].t + late[k]) + double(r.in(0, 300)) / 100.0;
        if (best < 0 || x < w) { best = long(k); w = x; }
      }
    if (best < 0) return out;
    out.push_back(streams[size_t(best)][i[size_t(best)]++]);
  }
}
inline std::vector<Rec> scans(Rng &r, long ticks) {
  std::vector<Rec> v;
  long t = r.in(-4, 4);
  for (long k = 0, n = r.in(1, 14); k < n; ++k) {
    Rec s; s.scan = true; s.t = t; v.push_back(s);
    t += r.chance(15) ? 0 : r.in(1, 3);
    if (t > ticks + 3) break;
  }
  return v;
}
inline geometry_msgs::TransformStamped tf_msg(const Rec &c, const std::string &slash) {
  geometry_msgs::TransformStamped m;
  m.header.frame_id = slash + c.from; m.child_frame_id = slash + c.to; m.header.stamp = stamp(c.t);
  auto a = at(c.p);
  m.transform.translation.x = a.o.x(); m.transform.translation.y = a.o.y(); m.transform.translation.z = 0;
  m.transform.rotation.x = a.r.x(); m.transform.rotation.y = a.r.y(); m.transform.rotation.z = a.r.z(); m.transform.rotation.w = a.r.w();
  return m;
}
template <typename M> void write(std::vector<rosbag::Item> &f, const std::string &topic, const M &m) {
  f.push_back({topic, ros::Time::ofNs(1700000000000000000ll + long(f.size())), std::type_index(typeid(M)), std::make_shared<M>(m)});
}
} // namespace drive
#endif
