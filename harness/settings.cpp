#include "vh.h"
#include <ftw.h>
#include <sys/stat.h>
#include <utils/properties_providers.h>
#include <ros/launch_properties_provider.h>
using namespace vh;
// what a value means; ns/nb/ni/nu/nd: it is meaningful as a text/flag/integer/unsigned/real
struct Val { std::string s; bool b; bool ni, nu, nd; long i, u; std::string d; bool ns = true, nb = true; };
static std::string bits(double v) { char b[40]; snprintf(b, 40, "%a", v); return b; }
static Val num(long n, const std::string &text) {
  Val v{text, text != "0", true, n >= 0, true, n, n, bits(double(n))};
  return v;
}
static Val txt(const std::string &s, bool b = true) { return Val{s, b, false, false, false, 0, 0, ""}; }
static Val make_val(Rng &r) {
  switch (r.in(0, 9)) {
  case 0: return txt("false", false);
  case 1: return txt("true");
  case 2: return num(0, "0");
  case 3: { long n = r.chance(30) ? r.in(-2000000000, 2000000000) : r.in(-200, 200); return num(n, std::to_string(n)); }
  case 4: { // a decimal fraction: the nearest number to it
    long n = r.in(-99999, 99999), k = r.in(0, 5), den = 1;
    for (int i = 0; i < k; ++i) den *= 10;
    char b[40]; snprintf(b, 40, "%.*f", int(k), double(n) / double(den));
    Val v = num(n / den, b);
    v.d = bits(double(n) / double(den)); v.nu = n >= 0; v.i = n / den; v.b = v.s != "0"; return v; }
  case 5: { // with an exponent
    long n = r.in(1, 99), k = r.in(0, 6); long den = 1;
    for (int i = 0; i < k; ++i) den *= 10;
    Val v = txt(std::to_string(n) + "e-" + std::to_string(k));
    v.nd = true; v.d = bits(double(n) / double(den)); return v; }
  case 6: return txt(r.pick(std::vector<std::string>{"/base_scan", "unbounded_plain", "a=b", "x==", "=", "map-odom_combined", "a b c", "#x", "<y>", "tf:/x", "0x", "f", "falsehood", "truefalse", "no"}));
  case 7: { char b[40]; snprintf(b, 40, "%.17g", double(r.next() >> 11) / 9007199254740992.0 * std::pow(10.0, double(r.in(-8, 8)))); Val v = txt(b); v.nd = true; v.d = bits(strtod(b, nullptr)); return v; }
  case 8: { long n = r.in(0, 2000000000); 
    if (r.chance(60)) { n += 2147483648; Val v = txt(std::to_string(n)); v.nu = v.nd = true; v.u = n; v.d = bits(double(n)); return v; }
    Val v = num(n, "+" + std::to_string(n)); return v; }
  default: return txt("");
  }
}
static std::string vj(const Val &v) {
  return Obj().s("s", v.s).t("b", v.b).t("ns", v.ns).t("nb", v.nb).t("ni", v.ni).t("nu", v.nu).t("nd", v.nd).i("i", v.i).s("u", std::to_string(v.u)).s("d", v.d).str();
}
// a launch file gives a parameter a type: sets it and tells what it means
static Val set_typed(Rng &r, const std::string &key) {
  switch (r.in(0, 2)) {
  case 0: { bool b = r.chance(50); ros::param::set("~" + key, b); Val v = txt("", b); v.ns = false; return v; }
  case 1: { int n = int(r.chance(30) ? r.in(-2000000000, 2000000000) : r.in(-9, 200)); ros::param::set("~" + key, n);
    Val v = num(n, ""); v.ns = v.nb = false; return v; }
  default: { double d = double(r.in(-99999, 99999)) / std::pow(10.0, double(r.in(0, 5))); ros::param::set("~" + key, d);
    Val v = txt(""); v.ns = v.nb = false; v.nd = true; v.d = bits(d); return v; }
  }
}
static std::string strs(const std::vector<std::string> &v) { std::vector<std::string> r; for (auto &x : v) r.push_back(q(x)); return arrs(r); }
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : "/") + x; return r; }
static int rm1(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }

struct File { std::vector<std::string> path; std::string text; std::vector<std::string> lines; };
int main(int argc, char **argv) {
  Args args(argc, argv);
  Rng r(args.seed * 23 + 11);
  std::cout.rdbuf(nullptr);
  char tmp[] = "settings-XXXXXX", dir[4096]; // below the check's own output directory
  if (!mkdtemp(tmp) || chdir(tmp) || !getcwd(dir, sizeof dir)) return 77;
  static const std::vector<std::vector<std::string>> Paths = {
    {"a.properties"}, {"cfg", "b.properties"}, {"cfg", "slams", "c"}, {"cfg", "common", "d.properties"}, {"cfg", "common", "deep", "e"}, {"z.z"}};
  static const std::vector<std::string> Keys = {"slam/map/width", "slam/map/height", "x", "slam/map", "a b", "use_it", "slam.x", "k<1>", "Y", "y"};
  for (long ep = 0, n = args.n(400, 6000); ep < n; ++ep) {
    // a tree of files; a file includes only later ones
    std::vector<File> fs;
    std::vector<Val> pool;
    for (int i = 0; i < 6; ++i) if (r.chance(75)) { File f; f.path = Paths[i]; fs.push_back(f); }
    for (int i = int(fs.size()) - 1; i > 0; --i) std::swap(fs[i], fs[r.in(0, i)]);
    for (std::size_t i = 0; i < fs.size(); ++i) {
      auto &f = fs[i];
      for (long k = 0, m = r.in(0, 8); k < m; ++k) {
        std::string line;
        int what = int(r.in(0, 9));
        if (what <= 5) {
          auto key = r.pick(Keys); auto v = make_val(r);
          line = key + "=" + v.s;
          f.lines.push_back(Obj().s("t", "set").s("k", key).raw("v", vj(v)).str());
        } else if (what <= 7) {
          std::vector<std::string> rel, target = {"missing", "file"};
          if (i + 1 < fs.size() && r.chance(90)) target = fs[r.in(long(i) + 1, long(fs.size()) - 1)].path;
          std::size_t common = 0;
          if (!r.chance(25)) while (common + 1 < f.path.size() && common + 1 < target.size() && f.path[common] == target[common]) ++common;
          for (std::size_t u = common; u + 1 < f.path.size(); ++u) rel.push_back("..");
          if (rel.empty() && r.chance(40)) rel.push_back(".");
          rel.insert(rel.end(), target.begin() + common, target.end());
          bool broken = r.chance(8);
          line = "<" + join(rel) + (broken ? "" : ">");
          if (broken) f.lines.push_back("{\"t\":\"noise\"}");
          else f.lines.push_back(Obj().s("t", "inc").raw("p", strs(rel)).str());
        } else {
          line = r.pick(std::vector<std::string>{"", "", "# comment", "#x=5", "#<a.properties>", "# slam/map/width=7", "no delimiter here", "# +----+", "#"});
          f.lines.push_back("{\"t\":\"noise\"}");
        }
        f.text += line;
        if (k + 1 < m || r.chance(60) || line.empty()) f.text += "\n";
      }
      std::string d;
      for (std::size_t u = 0; u + 1 < f.path.size(); ++u) { d += (d.empty() ? "" : "/") + f.path[u]; mkdir(d.c_str(), 0755); }
    }
    // every directory an inclusion may go through exists
    for (auto p : {"cfg", "cfg/slams", "cfg/common", "cfg/common/deep"}) mkdir(p, 0755);
    for (auto &p : Paths) unlink(join(p).c_str());
    std::vector<std::string> fj;
    for (auto &f : fs) {
      std::ofstream(join(f.path)) << f.text;
      fj.push_back(Obj().raw("path", strs(f.path)).raw("lines", arrs(f.lines)).str());
    }
    T().begin(Obj().raw("files", arrs(fj)));
    auto fp = std::make_shared<FilePropertiesProvider>();
    auto mp = std::make_shared<MapPropertiesProvider>();
    LaunchPropertiesProvider lp;
    ros::stub::params().clear();
    auto on = [&](int w) -> PropertiesProvider & { if (w == 2) return lp; if (w) return *mp; return *fp; };
    for (long k = 0, m = r.in(2, 8); k < m; ++k) {
      int what = k == 0 ? 0 : int(r.in(0, 6)), w = int(r.in(0, 2));
      auto key = r.pick(Keys);
      if (what <= 1) {
        std::vector<std::string> path = {"nowhere"};
        if (!fs.empty() && r.chance(92)) path = r.pick(fs).path;
        T().about("append " + join(path));
        std::string p = join(path);
        if (r.chance(30)) p = std::string(dir) + "/" + p;
        if (r.chance(20)) *fp = fp->append_file_content(p); else fp->append_file_content(p);
        T().add(Ev("append").raw("path", strs(path)));
      } else if (what == 2) {
        auto v = make_val(r);
        bool typed = w == 2 && r.chance(40);
        if (typed) v = set_typed(r, key); else on(w).set_property(key, v.s);
        if (w == 2 && v.nu && v.u > 2147483647L) v.nu = false; // launch parameters are ints
        T().add(Ev("set").i("on", w).s("k", key).raw("v", vj(v)));
      } else if (what == 3) {
        MapPropertiesProvider add;
        std::vector<std::string> aj;
        for (long t = 0, c = r.in(0, 4); t < c; ++t) { auto kk = r.pick(Keys); auto v = make_val(r); add.set_property(kk, v.s); aj.push_back(Obj().s("k", kk).raw("v", vj(v)).str()); }
        *mp += add;
        T().add(Ev("merge").raw("add", arrs(aj)));
      } else if (what == 4 && r.chance(20)) {
        if (w == 2) ros::stub::params().clear(); else if (w) mp = std::make_shared<MapPropertiesProvider>(); else fp = std::make_shared<FilePropertiesProvider>();
        T().add(Ev("fresh").i("on", w));
      } else if (what == 5) {
        T().add(Ev("has").i("on", 1).s("k", key).t("res", mp->has_property(key)));
      }
      for (int w2 = 0; w2 < 3; ++w2) {
        if (r.chance(30)) continue;
        auto &p = on(w2);
        if (w2 < 2) T().add(Ev("keys").i("on", w2).raw("keys", strs(w2 ? mp->available_properties() : fp->available_properties())));
        for (auto &kk : Keys) {
          if (r.chance(40)) continue;
          long di = r.in(-1000, 1000), du = r.in(0, 1000);
          double dd = double(r.next() >> 11) / 9007199254740992.0;
          std::string ds = "dflt" + std::to_string(r.in(0, 9)), d;
          long i = 0, u = 0;
          // texts that are no numbers have no number
          auto tryl = [](std::function<long()> f) { try { return f(); } catch (const std::exception &) { return 2000000004L; } };
          i = tryl([&] { return long(p.get_int(kk, int(di))); });
          // a launch parameter below zero is no unsigned number
          if (w2 == 2 && (i < 0 || i == 2000000004L) && ros::param::has("~" + kk)) u = -1;
          else u = tryl([&] { return long(p.get_uint(kk, unsigned(du))); });
          try { d = bits(p.get_dbl(kk, dd)); } catch (const std::exception &) { d = "none"; }
          if (i > 2000000004L) i = 2000000004L;
          if (i < -2000000004L) i = -2000000004L;
          T().add(Ev("get").i("on", w2).s("k", kk).s("ds", ds).i("di", di).s("du", std::to_string(du)).s("dd", bits(dd)).s("s", p.get_str(kk, ds))
                  .i("i", i).s("u", std::to_string(u)).s("d", d).t("bt", p.get_bool(kk, true)).t("bf", p.get_bool(kk, false)));
        }
      }
    }
    T().end();
  }
  if (chdir("/")) {}
  nftw(dir, rm1, 16, FTW_DEPTH | FTW_PHYS);
  T().close();
}
