// A small stand-in for the parts of ROS 1 (roscpp, tf, message_filters, rosbag) the adapters of
// slam-constructor use. Semantics follow roscpp / tf (tf2 buffer core) as documented: parameters
// with types, a transform buffer with interpolation and the usual exceptions, publishers and
// broadcasters that record what they are given, an in-memory bag.
#ifndef ROSSTUB_H
#define ROSSTUB_H
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeindex>
#include <vector>
#include <array>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

namespace ros {
namespace stub { inline std::function<void()> &waiting() { static std::function<void()> f; return f; } } // what happens while someone waits
struct Duration {
  int64_t ns = 0; int32_t sec = 0, nsec = 0;
  Duration() {}
  explicit Duration(double s) { set(int64_t(std::llround(s * 1e9))); }
  Duration(int32_t s, int32_t n) { set(int64_t(s) * 1000000000ll + n); }
  static Duration ofNs(int64_t n) { Duration d; d.set(n); return d; }
  void set(int64_t n) { ns = n; sec = int32_t(n >= 0 ? n / 1000000000ll : -((-n + 999999999ll) / 1000000000ll)); nsec = int32_t(n - int64_t(sec) * 1000000000ll); }
  double toSec() const { return ns / 1e9; }
  int64_t toNSec() const { return ns; }
  bool isZero() const { return ns == 0; }
  bool sleep() const { if (stub::waiting()) stub::waiting()(); return true; }
  bool operator<(const Duration &o) const { return ns < o.ns; }
  bool operator>(const Duration &o) const { return ns > o.ns; }
  bool operator<=(const Duration &o) const { return ns <= o.ns; }
  bool operator>=(const Duration &o) const { return ns >= o.ns; }
  bool operator==(const Duration &o) const { return ns == o.ns; }
  bool operator!=(const Duration &o) const { return ns != o.ns; }
  Duration operator+(const Duration &o) const { return ofNs(ns + o.ns); }
  Duration operator-(const Duration &o) const { return ofNs(ns - o.ns); }
  Duration operator*(double k) const { return Duration{toSec() * k}; }
  Duration operator-() const { return ofNs(-ns); }
  Duration &operator+=(const Duration &o) { set(ns + o.ns); return *this; }
  Duration &operator-=(const Duration &o) { set(ns - o.ns); return *this; }
  Duration &operator*=(double k) { return *this = *this * k; }
  Duration &fromSec(double s) { return *this = Duration{s}; }
  Duration &fromNSec(int64_t n) { set(n); return *this; }
};
using WallDuration = Duration;
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) { uint64_t t = uint64_t(s) * 1000000000ull + n; sec = uint32_t(t / 1000000000ull); nsec = uint32_t(t % 1000000000ull); }
  explicit Time(double s) { uint64_t t = uint64_t(std::llround(s * 1e9)); sec = uint32_t(t / 1000000000ull); nsec = uint32_t(t % 1000000000ull); }
  static Time ofNs(int64_t n) { Time t; t.sec = uint32_t(n / 1000000000ll); t.nsec = uint32_t(n % 1000000000ll); return t; }
  int64_t ns() const { return int64_t(sec) * 1000000000ll + nsec; }
  uint64_t toNSec() const { return uint64_t(ns()); }
  double toSec() const { return sec + 1e-9 * nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static int64_t &clock() { static int64_t c = 1000000000ll; return c; } // set by the harness
  static Time now() { return ofNs(clock()); }
  static void init() {}
  static void shutdown() {}
  static bool isValid() { return true; }
  bool operator<(const Time &o) const { return ns() < o.ns(); }
  bool operator>(const Time &o) const { return ns() > o.ns(); }
  bool operator<=(const Time &o) const { return ns() <= o.ns(); }
  bool operator>=(const Time &o) const { return ns() >= o.ns(); }
  bool operator==(const Time &o) const { return ns() == o.ns(); }
  bool operator!=(const Time &o) const { return ns() != o.ns(); }
  Duration operator-(const Time &o) const { return Duration::ofNs(ns() - o.ns()); }
  Time operator+(const Duration &d) const { return ofNs(ns() + d.ns); }
  Time operator-(const Duration &d) const { return ofNs(ns() - d.ns); }
  Time &operator+=(const Duration &d) { return *this = *this + d; }
  Time &operator-=(const Duration &d) { return *this = *this - d; }
  Time &fromSec(double s) { return *this = Time{s}; }
  Time &fromNSec(uint64_t n) { return *this = ofNs(int64_t(n)); }
};
using WallTime = Time;
inline std::ostream &operator<<(std::ostream &o, const Time &t) { char b[40]; snprintf(b, 40, "%u.%09u", t.sec, t.nsec); return o << b; }
inline std::ostream &operator<<(std::ostream &o, const Duration &t) { return o << t.toSec(); }
static const Time TIME_MIN{0, 1}, TIME_MAX = Time::ofNs(int64_t(4294967295ll) * 1000000000ll + 999999999ll);

namespace stub {
inline std::atomic<bool> &running() { static std::atomic<bool> r{true}; return r; }
inline std::function<void()> &spin_body() { static std::function<void()> f; return f; }
inline std::function<bool()> &spin_once_body() { static std::function<bool()> f; return f; }
struct Param { char t = 's'; std::string s; long i = 0; double d = 0; bool b = false; };
inline std::map<std::string, Param> &params() { static std::map<std::string, Param> p; return p; }
inline std::string resolve(const std::string &n) { return n; }
// topic -> receivers of what is published there
using Any = std::shared_ptr<void>;
inline std::map<std::string, std::vector<std::pair<std::type_index, Any>>> &published() {
  static std::map<std::string, std::vector<std::pair<std::type_index, Any>>> p; return p;
}
inline std::map<std::string, std::vector<std::pair<std::type_index, Any>>> &subscribers() {
  static std::map<std::string, std::vector<std::pair<std::type_index, Any>>> p; return p;
}
template <typename M> using Cb = std::function<void(const boost::shared_ptr<M> &)>;
// hands a message to the subscribers of a topic
template <typename M> int deliver(const std::string &topic, const boost::shared_ptr<M> &m) {
  int n = 0;
  auto list = subscribers()[topic];
  for (auto &s : list)
    if (s.first == std::type_index(typeid(M))) { (*std::static_pointer_cast<Cb<M>>(s.second))(m); ++n; }
  return n;
}
template <typename M> std::vector<std::shared_ptr<M>> sent(const std::string &topic) {
  std::vector<std::shared_ptr<M>> v;
  for (auto &s : published()[topic])
    if (s.first == std::type_index(typeid(M))) v.push_back(std::static_pointer_cast<M>(s.second));
  return v;
}
inline std::string norm(std::string t) { while (!t.empty() && t[0] == '/') t = t.substr(1); return t; }
} // namespace stub

namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int &, char **, const std::string &, uint32_t = 0) {}
inline bool ok() { return stub::running(); }
inline void shutdown() { stub::running() = false; }
inline bool isShuttingDown() { return !ok(); }
inline void spin() { if (stub::spin_body()) stub::spin_body()(); stub::running() = false; }
inline void spinOnce() { if (!stub::spin_once_body() || !stub::spin_once_body()()) stub::running() = false; }
struct Rate {
  double hz;
  explicit Rate(double h) : hz{h} {}
  explicit Rate(const Duration &d) : hz{1 / d.toSec()} {}
  bool sleep() { if (stub::waiting()) { stub::waiting()(); return true; } std::this_thread::sleep_for(std::chrono::milliseconds(2)); return true; }
  void reset() {}
};
using WallRate = Rate;

namespace param {
using P = stub::Param;
inline P mk(const std::string &s) { P p; p.t = 's'; p.s = s; return p; }
inline void set(const std::string &n, const std::string &v) { stub::params()[n] = mk(v); }
inline void set(const std::string &n, const char *v) { stub::params()[n] = mk(v); }
inline void set(const std::string &n, int v) { P p; p.t = 'i'; p.i = v; stub::params()[n] = p; }
inline void set(const std::string &n, double v) { P p; p.t = 'd'; p.d = v; stub::params()[n] = p; }
inline void set(const std::string &n, bool v) { P p; p.t = 'b'; p.b = v; stub::params()[n] = p; }
inline bool has(const std::string &n) { return stub::params().count(n); }
inline bool del(const std::string &n) { return stub::params().erase(n); }
inline bool get(const std::string &n, std::string &v) {
  auto i = stub::params().find(n);
  if (i == stub::params().end() || i->second.t != 's') return false;
  v = i->second.s; return true;
}
inline bool get(const std::string &n, double &v) {
  auto i = stub::params().find(n);
  if (i == stub::params().end()) return false;
  if (i->second.t == 'i') { v = double(i->second.i); return true; }
  if (i->second.t != 'd') return false;
  v = i->second.d; return true;
}
inline bool get(const std::string &n, float &v) { double d; if (!get(n, d)) return false; v = float(d); return true; }
inline bool get(const std::string &n, int &v) {
  auto i = stub::params().find(n);
  if (i == stub::params().end()) return false;
  if (i->second.t == 'd') { // roscpp rounds a double
    double d = i->second.d;
    if (std::fmod(d, 1.0) < 0.5) d = std::floor(d); else d = std::ceil(d);
    v = int(d); return true;
  }
  if (i->second.t != 'i') return false;
  v = int(i->second.i); return true;
}
inline bool get(const std::string &n, bool &v) {
  auto i = stub::params().find(n);
  if (i == stub::params().end() || i->second.t != 'b') return false;
  v = i->second.b; return true;
}
template <typename T> bool getCached(const std::string &n, T &v) { return get(n, v); }
template <typename T> bool param(const std::string &n, T &v, const T &dflt) {
  if (has(n) && get(n, v)) return true;
  v = dflt; return false;
}
template <typename T> T param(const std::string &n, const T &dflt) { T v; param(n, v, dflt); return v; }
} // namespace param

struct Publisher {
  std::string topic;
  template <typename M> void publish(const M &m) const { stub::published()[topic].push_back({std::type_index(typeid(M)), std::make_shared<M>(m)}); }
  template <typename M> void publish(const boost::shared_ptr<M> &m) const { publish(*m); }
  std::string getTopic() const { return topic; }
  uint32_t getNumSubscribers() const { return 1; }
  operator void *() const { return topic.empty() ? nullptr : (void *)1; }
};
struct Subscriber { std::string topic; };
struct NodeHandle {
  NodeHandle(const std::string & = "") {}
  template <typename M> Publisher advertise(const std::string &t, uint32_t, bool = false) { return Publisher{stub::norm(t)}; }
  template <typename M> Subscriber subscribe(const std::string &t, uint32_t, void (*cb)(boost::shared_ptr<M>)) {
    add<M>(t, [cb](const boost::shared_ptr<M> &m) { cb(m); }); return {t};
  }
  template <typename M> Subscriber subscribe(const std::string &t, uint32_t, void (*cb)(const boost::shared_ptr<M> &)) {
    add<M>(t, [cb](const boost::shared_ptr<M> &m) { cb(m); }); return {t};
  }
  template <typename M> void add(const std::string &t, stub::Cb<M> cb) {
    stub::subscribers()[stub::norm(t)].push_back({std::type_index(typeid(M)), std::make_shared<stub::Cb<M>>(cb)});
  }
  // deduced message type of a plain function
  template <typename M> Subscriber subscribe(const char *t, uint32_t q, void (*cb)(boost::shared_ptr<M>)) { return subscribe<M>(std::string(t), q, cb); }
  template <typename T> bool param(const std::string &n, T &v, const T &d) const { return ros::param::param(n, v, d); }
  template <typename T> T param(const std::string &n, const T &d) const { return ros::param::param(n, d); }
  template <typename T> bool getParam(const std::string &n, T &v) const { return ros::param::get(n, v); }
  template <typename T> void setParam(const std::string &n, const T &v) const { ros::param::set(n, v); }
  bool hasParam(const std::string &n) const { return ros::param::has(n); }
  template <typename M, typename F> Subscriber subscribe(const std::string &t, uint32_t, F cb) {
    add<M>(t, [cb](const boost::shared_ptr<M> &m) mutable { cb(m); }); return {t};
  }
  template <typename M, typename T> Subscriber subscribe(const std::string &t, uint32_t, void (T::*cb)(boost::shared_ptr<M>), T *o) {
    add<M>(t, [=](const boost::shared_ptr<M> &m) { (o->*cb)(m); }); return {t};
  }
  template <typename M, typename T> Subscriber subscribe(const std::string &t, uint32_t, void (T::*cb)(const boost::shared_ptr<M> &), T *o) {
    add<M>(t, [=](const boost::shared_ptr<M> &m) { (o->*cb)(m); }); return {t};
  }
  bool ok() const { return ros::ok(); }
};

namespace message_traits {
template <typename M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
template <typename M> struct TimeStamp { static ros::Time value(const M &m) { return m.header.stamp; } };
}
} // namespace ros
#define ROS_DEBUG(...) do { } while (0)
#define ROS_DEBUG_STREAM(x) do { } while (0)
#define ROS_DEBUG_ONCE(...) do { } while (0)
#define ROS_DEBUG_STREAM_ONCE(...) do { } while (0)
#define ROS_DEBUG_THROTTLE(...) do { } while (0)
#define ROS_DEBUG_STREAM_THROTTLE(...) do { } while (0)
#define ROS_DEBUG_COND(...) do { } while (0)
#define ROS_DEBUG_STREAM_COND(...) do { } while (0)
#define ROS_DEBUG_NAMED(...) do { } while (0)
#define ROS_DEBUG_STREAM_NAMED(...) do { } while (0)
#define ROS_INFO(...) do { } while (0)
#define ROS_INFO_STREAM(x) do { } while (0)
#define ROS_INFO_ONCE(...) do { } while (0)
#define ROS_INFO_STREAM_ONCE(...) do { } while (0)
#define ROS_INFO_THROTTLE(...) do { } while (0)
#define ROS_INFO_STREAM_THROTTLE(...) do { } while (0)
#define ROS_INFO_COND(...) do { } while (0)
#define ROS_INFO_STREAM_COND(...) do { } while (0)
#define ROS_INFO_NAMED(...) do { } while (0)
#define ROS_INFO_STREAM_NAMED(...) do { } while (0)
#define ROS_WARN(...) do { } while (0)
#define ROS_WARN_STREAM(x) do { } while (0)
#define ROS_WARN_ONCE(...) do { } while (0)
#define ROS_WARN_STREAM_ONCE(...) do { } while (0)
#define ROS_WARN_THROTTLE(...) do { } while (0)
#define ROS_WARN_STREAM_THROTTLE(...) do { } while (0)
#define ROS_WARN_COND(...) do { } while (0)
#define ROS_WARN_STREAM_COND(...) do { } while (0)
#define ROS_WARN_NAMED(...) do { } while (0)
#define ROS_WARN_STREAM_NAMED(...) do { } while (0)
#define ROS_ERROR(...) do { } while (0)
#define ROS_ERROR_STREAM(x) do { } while (0)
#define ROS_ERROR_ONCE(...) do { } while (0)
#define ROS_ERROR_STREAM_ONCE(...) do { } while (0)
#define ROS_ERROR_THROTTLE(...) do { } while (0)
#define ROS_ERROR_STREAM_THROTTLE(...) do { } while (0)
#define ROS_ERROR_COND(...) do { } while (0)
#define ROS_ERROR_STREAM_COND(...) do { } while (0)
#define ROS_ERROR_NAMED(...) do { } while (0)
#define ROS_ERROR_STREAM_NAMED(...) do { } while (0)
#define ROS_FATAL(...) do { } while (0)
#define ROS_FATAL_STREAM(x) do { } while (0)
#define ROS_FATAL_ONCE(...) do { } while (0)
#define ROS_FATAL_STREAM_ONCE(...) do { } while (0)
#define ROS_FATAL_THROTTLE(...) do { } while (0)
#define ROS_FATAL_STREAM_THROTTLE(...) do { } while (0)
#define ROS_FATAL_COND(...) do { } while (0)
#define ROS_FATAL_STREAM_COND(...) do { } while (0)
#define ROS_FATAL_NAMED(...) do { } while (0)
#define ROS_FATAL_STREAM_NAMED(...) do { } while (0)
#define ROS_ASSERT(x) do { if (!(x)) std::abort(); } while (0)
#define ROS_ASSERT_MSG(x, ...) ROS_ASSERT(x)

namespace std_msgs {
struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; };
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
}
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}
namespace sensor_msgs {
struct LaserScan {
  using Ptr = boost::shared_ptr<LaserScan>; using ConstPtr = boost::shared_ptr<const LaserScan>;
  std_msgs::Header header;
  float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
};
using LaserScanPtr = LaserScan::Ptr; using LaserScanConstPtr = LaserScan::ConstPtr;
}
namespace nav_msgs {
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid {
  using Ptr = boost::shared_ptr<OccupancyGrid>;
  std_msgs::Header header; MapMetaData info; std::vector<int8_t> data;
};
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
}

namespace tf {
using tfScalar = double;
struct tfMessage {
  using Ptr = boost::shared_ptr<tfMessage>; using ConstPtr = boost::shared_ptr<const tfMessage>;
  std::vector<geometry_msgs::TransformStamped> transforms;
};
struct Vector3 {
  double v[3];
  Vector3() : v{0, 0, 0} {}
  Vector3(double x, double y, double z) : v{x, y, z} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  void setValue(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; }
  double &operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; }
  Vector3 operator+(const Vector3 &o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-(const Vector3 &o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
  Vector3 operator*(double k) const { return {v[0] * k, v[1] * k, v[2] * k}; }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
  double dot(const Vector3 &o) const { return v[0] * o.v[0] + v[1] * o.v[1] + v[2] * o.v[2]; }
  double length() const { return std::sqrt(dot(*this)); }
  double length2() const { return dot(*this); }
  double distance(const Vector3 &o) const { return (*this - o).length(); }
  double distance2(const Vector3 &o) const { return (*this - o).length2(); }
  Vector3 operator/(double k) const { return {v[0] / k, v[1] / k, v[2] / k}; }
  Vector3 &operator+=(const Vector3 &o) { return *this = *this + o; }
  Vector3 &operator-=(const Vector3 &o) { return *this = *this - o; }
  Vector3 &operator*=(double k) { return *this = *this * k; }
  Vector3 &normalize() { return *this = *this / length(); }
  Vector3 normalized() const { return *this / length(); }
  void setZero() { *this = Vector3{}; }
  bool operator==(const Vector3 &o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
  bool operator!=(const Vector3 &o) const { return !(*this == o); }
};
using Point = Vector3;
struct Quaternion {
  double q[4];
  Quaternion() : q{0, 0, 0, 1} {}
  Quaternion(double x, double y, double z, double w) : q{x, y, z, w} {}
  Quaternion(const Vector3 &axis, double a) { setRotation(axis, a); }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setRotation(const Vector3 &ax, double a) { double s = std::sin(a / 2) / ax.length(); q[0] = ax.x() * s; q[1] = ax.y() * s; q[2] = ax.z() * s; q[3] = std::cos(a / 2); }
  void setRPY(double r, double p, double y) {
    double hy = y / 2, hp = p / 2, hr = r / 2;
    double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    q[0] = sr * cp * cy - cr * sp * sy; q[1] = cr * sp * cy + sr * cp * sy; q[2] = cr * cp * sy - sr * sp * cy; q[3] = cr * cp * cy + sr * sp * sy;
  }
  Quaternion operator*(const Quaternion &o) const {
    return {q[3] * o.q[0] + q[0] * o.q[3] + q[1] * o.q[2] - q[2] * o.q[1], q[3] * o.q[1] + q[1] * o.q[3] + q[2] * o.q[0] - q[0] * o.q[2],
            q[3] * o.q[2] + q[2] * o.q[3] + q[0] * o.q[1] - q[1] * o.q[0], q[3] * o.q[3] - q[0] * o.q[0] - q[1] * o.q[1] - q[2] * o.q[2]};
  }
  double dot(const Quaternion &o) const { return q[0] * o.q[0] + q[1] * o.q[1] + q[2] * o.q[2] + q[3] * o.q[3]; }
  double length() const { return std::sqrt(dot(*this)); }
  Quaternion &normalize() { double l = length(); for (double &v : q) v /= l; return *this; }
  Quaternion normalized() const { Quaternion n = *this; return n.normalize(); }
  double length2() const { return dot(*this); }
  double operator[](int i) const { return q[i]; }
  void setX(double a) { q[0] = a; } void setY(double a) { q[1] = a; } void setZ(double a) { q[2] = a; } void setW(double a) { q[3] = a; }
  void setValue(double x, double y, double z, double w) { *this = Quaternion{x, y, z, w}; }
  void setEuler(double y, double p, double r) { setRPY(p, y, r); } // bullet's yaw, pitch, roll are about Y, X, Z
  bool operator==(const Quaternion &o) const { return q[0] == o.q[0] && q[1] == o.q[1] && q[2] == o.q[2] && q[3] == o.q[3]; }
  bool operator!=(const Quaternion &o) const { return !(*this == o); }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  double getAngle() const { return 2 * std::acos(std::max(-1.0, std::min(1.0, q[3]))); }
  Vector3 getAxis() const { double s = std::sqrt(std::max(0.0, 1 - q[3] * q[3])); return s < 1e-12 ? Vector3{1, 0, 0} : Vector3{q[0] / s, q[1] / s, q[2] / s}; }
  Quaternion slerp(const Quaternion &o, double t) const {
    double d = dot(o), sg = d < 0 ? -1 : 1; d = std::min(1.0, std::abs(d));
    double th = std::acos(d);
    if (th < 1e-9) return *this;
    double s0 = std::sin((1 - t) * th) / std::sin(th), s1 = std::sin(t * th) / std::sin(th) * sg;
    return {q[0] * s0 + o.q[0] * s1, q[1] * s0 + o.q[1] * s1, q[2] * s0 + o.q[2] * s1, q[3] * s0 + o.q[3] * s1};
  }
  static Quaternion getIdentity() { return {}; }
};
inline Vector3 quatRotate(const Quaternion &r, const Vector3 &v) {
  Quaternion p = r * Quaternion{v.x(), v.y(), v.z(), 0} * r.inverse();
  return {p.x(), p.y(), p.z()};
}
struct Matrix3x3 {
  Quaternion q;
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion &a) : q{a} {}
  void setRotation(const Quaternion &a) { q = a; }
  void setRPY(double r, double p, double y) { q.setRPY(r, p, y); }
  void setEulerYPR(double y, double p, double r) { q.setRPY(r, p, y); }
  void setIdentity() { q = Quaternion{}; }
  Matrix3x3 transpose() const { return Matrix3x3{q.inverse()}; }
  Matrix3x3 inverse() const { return transpose(); }
  Matrix3x3 operator*(const Matrix3x3 &m) const { return Matrix3x3{q * m.q}; }
  void getRPY(double &r, double &p, double &y, unsigned = 1) const {
    double x = q.x(), yy = q.y(), z = q.z(), w = q.w();
    r = std::atan2(2 * (w * x + yy * z), 1 - 2 * (x * x + yy * yy));
    p = std::asin(std::max(-1.0, std::min(1.0, 2 * (w * yy - z * x))));
    y = std::atan2(2 * (w * z + x * yy), 1 - 2 * (yy * yy + z * z));
  }
  void getEulerYPR(double &y, double &p, double &r, unsigned = 1) const { getRPY(r, p, y); }
  void getRotation(Quaternion &o) const { o = q; }
  Vector3 operator*(const Vector3 &v) const { return quatRotate(q, v); }
};
inline double getYaw(const Quaternion &q) { double r, p, y; Matrix3x3{q}.getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion &q) { return getYaw(Quaternion{q.x, q.y, q.z, q.w}); }
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline Quaternion createIdentityQuaternion() { return {}; }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) { auto q = createQuaternionFromYaw(y); geometry_msgs::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline geometry_msgs::Quaternion createQuaternionMsgFromRollPitchYaw(double r, double p, double y) { auto q = createQuaternionFromRPY(r, p, y); geometry_msgs::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline void quaternionTFToMsg(const Quaternion &q, geometry_msgs::Quaternion &m) { m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); }
inline void quaternionMsgToTF(const geometry_msgs::Quaternion &m, Quaternion &q) { q = Quaternion{m.x, m.y, m.z, m.w}; }
inline void vector3TFToMsg(const Vector3 &v, geometry_msgs::Vector3 &m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void vector3MsgToTF(const geometry_msgs::Vector3 &m, Vector3 &v) { v = Vector3{m.x, m.y, m.z}; }
inline void pointTFToMsg(const Vector3 &v, geometry_msgs::Point &m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void pointMsgToTF(const geometry_msgs::Point &m, Vector3 &v) { v = Vector3{m.x, m.y, m.z}; }
struct Transform {
  Quaternion r; Vector3 o;
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &v = Vector3{0, 0, 0}) : r{q}, o{v} {}
  explicit Transform(const Matrix3x3 &m, const Vector3 &v = Vector3{0, 0, 0}) : r{m.q}, o{v} {}
  Vector3 &getOrigin() { return o; } const Vector3 &getOrigin() const { return o; }
  void setOrigin(const Vector3 &v) { o = v; }
  Quaternion getRotation() const { return r; } void setRotation(const Quaternion &q) { r = q; }
  Matrix3x3 getBasis() const { return Matrix3x3{r}; } void setBasis(const Matrix3x3 &m) { r = m.q; }
  Transform operator*(const Transform &t) const { return Transform{r * t.r, quatRotate(r, t.o) + o}; }
  Transform &operator*=(const Transform &t) { return *this = *this * t; }
  Vector3 operator*(const Vector3 &v) const { return quatRotate(r, v) + o; }
  Vector3 operator()(const Vector3 &v) const { return *this * v; }
  Transform inverse() const { auto i = r.inverse(); return Transform{i, -quatRotate(i, o)}; }
  Transform inverseTimes(const Transform &t) const { return inverse() * t; }
  void setIdentity() { *this = Transform{}; }
  static Transform getIdentity() { return {}; }
  bool operator==(const Transform &t) const { return r == t.r && o == t.o; }
};
using Pose = Transform;
inline Transform createIdentityTransform() { return {}; }
inline void transformTFToMsg(const Transform &t, geometry_msgs::Transform &m) { vector3TFToMsg(t.o, m.translation); quaternionTFToMsg(t.r, m.rotation); }
inline void transformMsgToTF(const geometry_msgs::Transform &m, Transform &t) { vector3MsgToTF(m.translation, t.o); quaternionMsgToTF(m.rotation, t.r); }
inline void poseTFToMsg(const Pose &t, geometry_msgs::Pose &m) { pointTFToMsg(t.o, m.position); quaternionTFToMsg(t.r, m.orientation); }
inline void poseMsgToTF(const geometry_msgs::Pose &m, Pose &t) { pointMsgToTF(m.position, t.o); quaternionMsgToTF(m.orientation, t.r); }
struct StampedTransform : Transform {
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform{t}, stamp_{s}, frame_id_{f}, child_frame_id_{c} {}
  void setData(const Transform &t) { static_cast<Transform &>(*this) = t; }
};
inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) {
  t.r = Quaternion{m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z, m.transform.rotation.w};
  t.o = Vector3{m.transform.translation.x, m.transform.translation.y, m.transform.translation.z};
  t.stamp_ = m.header.stamp; t.frame_id_ = m.header.frame_id; t.child_frame_id_ = m.child_frame_id;
}
inline void transformStampedTFToMsg(const StampedTransform &t, geometry_msgs::TransformStamped &m) {
  m.transform.rotation.x = t.r.x(); m.transform.rotation.y = t.r.y(); m.transform.rotation.z = t.r.z(); m.transform.rotation.w = t.r.w();
  m.transform.translation.x = t.o.x(); m.transform.translation.y = t.o.y(); m.transform.translation.z = t.o.z();
  m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_;
}
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct InvalidArgument : TransformException { using TransformException::TransformException; };
struct TimeoutException : TransformException { using TransformException::TransformException; };
inline std::string strip_slash(const std::string &f) { return !f.empty() && f[0] == '/' ? f.substr(1) : f; }
inline std::string resolve(const std::string &prefix, const std::string &f) { return prefix.empty() ? strip_slash(f) : prefix + "/" + strip_slash(f); }

// a buffer of transforms that walks from both frames up to their common parent, like tf2::BufferCore
class Transformer {
  struct Frame { std::string parent; std::map<int64_t, Transform> at; std::map<int64_t, std::string> par; };
  std::set<std::string> _frames; std::map<std::string, Frame> _edges; ros::Duration _keep;
  // the transform of a frame into its parent at a time; false and a reason if there is none
  bool gather(const std::string &f, int64_t t, std::string &parent, Transform &out, std::string &why) const {
    auto &e = _edges.at(f); auto &m = e.at;
    parent = e.parent;
    auto say = [](int64_t n) { char b[40]; snprintf(b, 40, "%.9f", n / 1e9); return std::string(b); };
    if (t == 0) { out = m.rbegin()->second; return true; }
    auto i = m.find(t);
    if (i != m.end()) { out = i->second; return true; }
    if (m.size() == 1) { why = "Lookup would require extrapolation at time " + say(t) + ", but only time " + say(m.begin()->first) + " is in the buffer"; return false; }
    if (t > m.rbegin()->first) { why = "Lookup would require extrapolation into the future.  Requested time " + say(t) + " but the latest data is at time " + say(m.rbegin()->first); return false; }
    if (t < m.begin()->first) { why = "Lookup would require extrapolation into the past.  Requested time " + say(t) + " but the earliest data is at time " + say(m.begin()->first); return false; }
    auto hi = m.upper_bound(t), lo = std::prev(hi);
    double k = double(t - lo->first) / double(hi->first - lo->first);
    out = Transform{lo->second.r.slerp(hi->second.r, k), lo->second.o * (1 - k) + hi->second.o * k};
    return true;
  }
public:
  Transformer(bool = true, ros::Duration keep = ros::Duration(10.0)) : _keep{keep} {}
  virtual ~Transformer() {}
  void clear() { _edges.clear(); }
  bool setTransform(const StampedTransform &t, const std::string & = "") {
    auto p = strip_slash(t.frame_id_), c = strip_slash(t.child_frame_id_);
    if (p == c || p.empty() || c.empty()) return false;
    auto &e = _edges[c];
    if (!e.at.empty() && e.at.rbegin()->first > t.stamp_.ns() + _keep.ns) return false; // too old
    _frames.insert(p); _frames.insert(c);
    e.parent = p; e.at[t.stamp_.ns()] = t;
    while (e.at.begin()->first + _keep.ns < e.at.rbegin()->first) e.at.erase(e.at.begin());
    return true;
  }
  void lookupTransform(const std::string &target_, const std::string &source_, const ros::Time &time, StampedTransform &out) const {
    auto target = strip_slash(target_), source = strip_slash(source_);
    out.stamp_ = time; out.frame_id_ = target; out.child_frame_id_ = source;
    if (target == source) {
      if (!_frames.count(target)) throw LookupException("\"" + target + "\" passed to lookupTransform argument target_frame does not exist. ");
      out.setData(Transform{}); return;
    }
    if (!_frames.count(target)) throw LookupException("\"" + target + "\" passed to lookupTransform argument target_frame does not exist. ");
    if (!_frames.count(source)) throw LookupException("\"" + source + "\" passed to lookupTransform argument source_frame does not exist. ");
    int64_t t = time.ns();
    if (t == 0) { // the latest time common to the way from the source up to the target
      t = std::numeric_limits<int64_t>::max();
      for (auto f = source; _edges.count(f) && f != target; f = _edges.at(f).parent) t = std::min(t, _edges.at(f).at.rbegin()->first);
      for (auto f = target; _edges.count(f) && f != source; f = _edges.at(f).parent) t = std::min(t, _edges.at(f).at.rbegin()->first);
      if (t == std::numeric_limits<int64_t>::max()) t = 0;
      out.stamp_ = ros::Time::ofNs(t);
    }
    auto tail = ", when looking up transform from frame [" + source + "] to frame [" + target + "]";
    Transform up, down; std::string why, top = source; bool extrapolation = false; int depth = 0;
    std::vector<std::string> seen;
    for (auto f = source;;) {
      top = f;
      if (!_edges.count(f)) break;
      std::string par; Transform tr;
      if (!gather(f, t, par, tr, why)) { extrapolation = true; break; }
      up = tr * up;
      if (par == target) { out.setData(up); return; }
      f = par;
      if (++depth > 1000) throw LookupException("The tf tree is invalid because it contains a loop.");
    }
    for (auto f = target; f != top;) {
      if (!_edges.count(f)) { top = ""; break; }
      std::string par, w; Transform tr;
      if (!gather(f, t, par, tr, w)) throw ExtrapolationException(w + tail);
      down = tr * down;
      if (par == source) { out.setData(down.inverse()); return; }
      f = par;
      if (++depth > 1000) throw LookupException("The tf tree is invalid because it contains a loop.");
      if (f == top) { out.setData(down.inverse() * up); return; }
    }
    if (top == target) { out.setData(up); return; }
    if (extrapolation) throw ExtrapolationException(why + tail);
    throw ConnectivityException("Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree.Tf has two or more unconnected trees.");
  }
  StampedTransform lookup(const std::string &a, const std::string &b, const ros::Time &t) const { StampedTransform s; lookupTransform(a, b, t, s); return s; }
  bool canTransform(const std::string &a, const std::string &b, const ros::Time &t, std::string *err = nullptr) const {
    try { StampedTransform s; lookupTransform(a, b, t, s); return true; } catch (const TransformException &e) { if (err) *err = e.what(); return false; }
  }
  bool waitForTransform(const std::string &a, const std::string &b, const ros::Time &t, const ros::Duration &, const ros::Duration & = ros::Duration(0.01), std::string *err = nullptr) const {
    for (int i = 0; i < 3 && ros::stub::waiting() && !canTransform(a, b, t); ++i) ros::stub::waiting()();
    return canTransform(a, b, t, err);
  }
  bool frameExists(const std::string &f) const { return _frames.count(strip_slash(f)); }
  int getLatestCommonTime(const std::string &, const std::string &, ros::Time &, std::string *) const { return 1; }
};
// all listeners hear the same transforms
class TransformListener : public Transformer {
public:
  static std::vector<TransformListener *> &all() { static std::vector<TransformListener *> v; return v; }
  TransformListener(ros::Duration keep = ros::Duration(10.0), bool = true) : Transformer{true, keep} { all().push_back(this); }
  TransformListener(const ros::NodeHandle &, ros::Duration keep = ros::Duration(10.0), bool = true) : TransformListener{keep} {}
  ~TransformListener() { auto &v = all(); v.erase(std::remove(v.begin(), v.end(), this), v.end()); }
  static void hear(const StampedTransform &t) { for (auto l : all()) l->setTransform(t); }
};
class TransformBroadcaster {
public:
  static std::vector<StampedTransform> &sent() { static std::vector<StampedTransform> v; return v; }
  static std::mutex &guard() { static std::mutex m; return m; }
  void sendTransform(const StampedTransform &t) { std::lock_guard<std::mutex> l{guard()}; sent().push_back(t); }
  void sendTransform(const geometry_msgs::TransformStamped &m) { StampedTransform t; transformStampedMsgToTF(m, t); sendTransform(t); }
  void sendTransform(const std::vector<StampedTransform> &v) { for (auto &t : v) sendTransform(t); }
};
} // namespace tf

namespace message_filters {
template <typename M> class Subscriber {
  std::vector<ros::stub::Cb<M>> _cbs;
public:
  std::string topic;
  Subscriber(ros::NodeHandle &nh, const std::string &t, uint32_t) : topic{t} { nh.add<M>(t, [this](const boost::shared_ptr<M> &m) { for (auto &c : _cbs) c(m); }); }
  void connect(ros::stub::Cb<M> c) { _cbs.push_back(c); }
  Subscriber(const Subscriber &) = delete;
};
}
namespace tf {
// holds messages back until the transform they need is there
class MessageFilterBase { public: virtual ~MessageFilterBase() {} virtual void poke() = 0;
  static std::vector<MessageFilterBase *> &all() { static std::vector<MessageFilterBase *> v; return v; } };
template <typename M> class MessageFilter : public MessageFilterBase {
  Transformer &_tf; std::string _target; uint32_t _limit; std::vector<boost::shared_ptr<M>> _held; std::vector<ros::stub::Cb<M>> _cbs;
public:
  template <typename F> MessageFilter(F &f, Transformer &t, const std::string &target, uint32_t limit, ros::Duration = ros::Duration(0.01))
    : _tf{t}, _target{target}, _limit{limit} { all().push_back(this); f.connect([this](const boost::shared_ptr<M> &m) { _held.push_back(m); if (_held.size() > _limit) _held.erase(_held.begin()); poke(); }); }
  ~MessageFilter() { auto &v = all(); v.erase(std::remove(v.begin(), v.end(), (MessageFilterBase *)this), v.end()); }
  template <typename T> void registerCallback(void (T::*cb)(boost::shared_ptr<M>), T *o) { _cbs.push_back([=](const boost::shared_ptr<M> &m) { (o->*cb)(m); }); }
  template <typename T> void registerCallback(void (T::*cb)(const boost::shared_ptr<M> &), T *o) { _cbs.push_back([=](const boost::shared_ptr<M> &m) { (o->*cb)(m); }); }
  template <typename T> void registerCallback(void (T::*cb)(const boost::shared_ptr<M>) const, T *o) { _cbs.push_back([=](const boost::shared_ptr<M> &m) { (o->*cb)(m); }); }
  void registerCallback(ros::stub::Cb<M> c) { _cbs.push_back(c); }
  void poke() override {
    for (size_t i = 0; i < _held.size();) {
      auto m = _held[i];
      if (_tf.canTransform(_target, m->header.frame_id, m->header.stamp)) {
        _held.erase(_held.begin() + long(i));
        for (auto &c : _cbs) c(m);
        i = 0;
      } else ++i;
    }
  }
};
}

namespace rosbag {
struct Item { std::string topic; ros::Time time; std::type_index type; std::shared_ptr<void> msg; };
// the contents of the bags there are, by file name
inline std::map<std::string, std::vector<Item>> &files() { static std::map<std::string, std::vector<Item>> f; return f; }
struct BagException : std::runtime_error { using std::runtime_error::runtime_error; };
namespace bagmode { enum BagMode { Write = 1, Read = 2, Append = 4 }; }
class Bag {
public:
  std::string name; bool is_open = false;
  Bag() {}
  explicit Bag(const std::string &n, uint32_t = bagmode::Read) { open(n); }
  void open(const std::string &n, uint32_t = bagmode::Read) { if (!files().count(n)) throw BagException("Error opening file: " + n); name = n; is_open = true; }
  void close() { is_open = false; }
  std::string getFileName() const { return name; }
};
struct TopicQuery {
  std::vector<std::string> topics;
  TopicQuery(const std::string &t) : topics{t} {}
  TopicQuery(const std::vector<std::string> &t) : topics(t) {}
};
class MessageInstance {
  const Item *_i;
public:
  MessageInstance(const Item *i = nullptr) : _i{i} {}
  const std::string &getTopic() const { return _i->topic; }
  ros::Time getTime() const { return _i->time; }
  template <typename M> bool isType() const { return _i->type == std::type_index(typeid(M)); }
  template <typename M> boost::shared_ptr<M> instantiate() const {
    if (!isType<M>()) return boost::shared_ptr<M>();
    return boost::make_shared<M>(*std::static_pointer_cast<M>(_i->msg));
  }
};
class View {
  std::vector<MessageInstance> _v;
public:
  using iterator = std::vector<MessageInstance>::const_iterator; using const_iterator = iterator;
  View(const Bag &b, const TopicQuery &q) { for (auto &i : files()[b.name]) if (std::find(q.topics.begin(), q.topics.end(), i.topic) != q.topics.end()) _v.push_back(MessageInstance{&i}); }
  explicit View(const Bag &b) { for (auto &i : files()[b.name]) _v.push_back(MessageInstance{&i}); }
  iterator begin() const { return _v.begin(); }
  iterator end() const { return _v.end(); }
  uint32_t size() const { return uint32_t(_v.size()); }
};
} // namespace rosbag
#endif
