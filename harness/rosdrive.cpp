// Recorded drives replayed from a bag, and the same drives arriving live (with stand-ins for ROS).
#include "drive.h"
#include <ros/bag_topic_with_transform.h>
#include <ros/topic_with_transform.h>
using namespace vh;
using namespace drive;
using Scan = sensor_msgs::LaserScan;

static std::string recs_json(const std::vector<Rec> &v) {
  std::vector<std::string> s;
  for (auto &c : v) s.push_back(c.str());
  return arrs(s);
}
static std::string names(const std::vector<std::string> &v) {
  std::vector<std::string> s;
  for (auto &c : v) s.push_back(q(c));
  return arrs(s);
}
struct Story { std::vector<std::string> chain; std::vector<Rec> recs; std::vector<std::pair<std::string, std::string>> ign; };
static Story story(Rng &r, bool ignores) {
  Story s;
  long ticks = r.in(6, 24);
  s.chain = r.chance(50) ? std::vector<std::string>{"odom", "laser"} : std::vector<std::string>{"odom", "base", "laser"};
  if (r.chance(15)) s.chain = {"odom", "foot", "base", "laser"};
  std::vector<std::vector<Rec>> st{scans(r, ticks)};
  for (size_t i = 0; i + 1 < s.chain.size(); ++i)
    if (!r.chance(4)) st.push_back(link(r, s.chain[i], s.chain[i + 1], ticks, i > 0 && r.chance(60)));
  if (r.chance(40)) st.push_back(link(r, s.chain.back(), "camera", ticks, true));
  if (ignores && r.chance(60)) { // transforms that contradict the chain
    auto child = r.pick(s.chain);
    st.push_back(link(r, "wrong", child, ticks, false));
    s.ign.push_back({"wrong", child});
    if (r.chance(50)) { st.push_back(link(r, "wrong", "camera", ticks, false)); s.ign.push_back({"wrong", "camera"}); }
    if (r.chance(30)) s.ign.push_back({"odom", "nowhere"});
    if (r.chance(4)) s.ign.push_back({s.chain[0], s.chain[1]});
    if (r.chance(50)) std::reverse(s.ign.begin(), s.ign.end());
  }
  s.recs = merge(r, st);
  return s;
}
static Scan scan_msg(long id, long t) {
  Scan m; m.header.frame_id = "laser"; m.header.stamp = stamp(t); m.header.seq = uint32_t(id);
  m.ranges = {float(id)};
  return m;
}
static Obj header(const Story &s, const char *mode, long limit) {
  std::vector<std::string> ign;
  for (auto &p : s.ign) ign.push_back(names({p.first, p.second}));
  return Obj().s("mode", mode).raw("chain", names(s.chain)).raw("ign", arrs(ign)).raw("recs", recs_json(s.recs)).i("limit", limit);
}
static void bag(Rng &r) {
  auto s = story(r, true);
  std::string slash = r.chance(50) ? "/" : "", tfn = r.chance(30) ? "/tf_old" : "/tf", topic = r.chance(30) ? "/scan" : "/base_scan";
  auto &f = rosbag::files()["drive.bag"];
  f.clear();
  tf::tfMessage pack;
  auto flush = [&] { if (!pack.transforms.empty()) write(f, tfn, pack); pack.transforms.clear(); };
  std::vector<Rec> order; // as written: the transforms of one message stay together
  long id = 0;
  for (auto &c : s.recs) {
    ++id;
    if (c.scan) { flush(); write(f, topic, scan_msg(id, c.t)); }
    else { pack.transforms.push_back(tf_msg(c, slash)); if (!r.chance(30)) flush(); }
    if (r.chance(10)) { flush(); write(f, std::string("/other"), scan_msg(99, c.t)); }
    if (r.chance(5)) { flush(); write(f, tfn + "_static", tf::tfMessage{}); }
  }
  flush();
  T().begin(header(s, "bag", 0));
  T().about("BagTopicWithTransform");
  BagTopicWithTransform<Scan> b{"drive.bag", topic, tfn, (r.chance(30) ? "/" : "") + s.chain[0]};
  std::unordered_map<std::string, std::vector<std::string>> ign;
  for (auto &p : s.ign) ign[slash + p.first].push_back(slash + p.second);
  b.set_tf_ignores(ign);
  while (b.extract_next_msg()) {
    auto m = b.msg();
    T().add(Ev("out").i("id", m ? long(m->ranges[0]) : -1).i("t", tick(b.timestamp())).a("p", place(b.transform())));
  }
  if (b.extract_next_msg()) T().add(Ev("out").i("id", long(b.msg()->ranges[0])).i("t", tick(b.timestamp())).a("p", place(b.transform())));
  T().add(Ev("end"));
  T().end();
}
static std::vector<std::string> got;
struct Obs : TopicObserver<Scan> {
  long id;
  explicit Obs(long i) : id{i} {}
  void handle_transformed_msg(const boost::shared_ptr<Scan> m, const tf::StampedTransform &t) override {
    auto p = place(t);
    got.push_back(arr(std::vector<long>{id, long(m->ranges[0]), p[0], p[1], p[2]}));
  }
};
static void live(Rng &r) {
  auto s = story(r, false);
  long limit = r.chance(50) ? 1000 : r.in(1, 5);
  ros::stub::subscribers().clear();
  ros::NodeHandle nh;
  std::string slash = r.chance(50) ? "/" : "", topic = r.chance(30) ? "/scan" : "/base_scan";
  T().begin(header(s, "live", limit));
  TopicWithTransform<Scan> t{nh, topic, (r.chance(30) ? "/" : "") + s.chain[0], 100.0, uint32_t(limit), 7};
  std::vector<std::shared_ptr<Obs>> obs;
  long next = 1, id = 0;
  for (auto &c : s.recs) {
    ++id;
    while (r.chance(id == 1 ? 60 : 8)) {
      auto o = std::make_shared<Obs>(next++);
      obs.push_back(o); t.subscribe(o);
      T().add(Ev("sub").i("o", o->id));
    }
    if (!obs.empty() && r.chance(6)) {
      auto k = size_t(r.in(0, long(obs.size()) - 1));
      T().add(Ev("die").i("o", obs[k]->id));
      obs.erase(obs.begin() + long(k));
    }
    T().about("a record arrives");
    got.clear();
    if (r.chance(10)) ros::stub::deliver<Scan>("other", boost::make_shared<Scan>(scan_msg(99, c.t)));
    if (c.scan) ros::stub::deliver<Scan>(ros::stub::norm(topic), boost::make_shared<Scan>(scan_msg(id, c.t)));
    else {
      tf::StampedTransform st; tf::transformStampedMsgToTF(tf_msg(c, slash), st);
      tf::TransformListener::hear(st);
      for (auto f : tf::MessageFilterBase::all()) f->poke();
    }
    T().add(Ev("arr").raw("got", arrs(got)));
  }
  T().end();
}
int main(int argc, char **argv) {
  Args a(argc, argv);
  Rng r(a.seed * 77 + 3);
  auto out = std::cout.rdbuf(nullptr);
  for (long n = a.n(700, 20000), i = 0; i < n; ++i) a.mode == "bag" ? bag(r) : live(r);
  std::cout.rdbuf(out);
  T().close();
  return 0;
}
