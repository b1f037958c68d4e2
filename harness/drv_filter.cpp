// Script interpreter over the public API of the IMU filter.
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include <thread>
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "vp_out.hpp"
using namespace vp;
using Eigen::Vector3d;
using std::string; using std::shared_ptr; using std::make_shared; using std::vector; using std::map;
typedef measurement::ImuMeasurement<double> ImuM;
typedef measurement::AngularVelocityMeasurement<double> AngM;
template <class M> struct Q { shared_ptr<std::queue<shared_ptr<M>>> q = make_shared<std::queue<shared_ptr<M>>>(); shared_ptr<std::mutex> m = make_shared<std::mutex>(); };
struct Fil { shared_ptr<imu_filter::ImuAngVelEKF> f; vector<shared_ptr<ImuM>> held; size_t seen = 0; IMUQueuePtr out; };
struct World { map<string, Q<ImuM>> iq; map<string, Q<AngM>> aq; map<const void*, int> id; vector<shared_ptr<void>> keep; map<string, Fil> f; };
static World* W;
static bool brief = false;      // long buffers are reported as length, first and last entry only
template <class M> string idof(const shared_ptr<M>& p) { auto it = W->id.find(p.get()); return std::to_string(it == W->id.end() ? -1 : it->second); }
template <class M> string qids(Q<M>& q) {
  if (brief) { if (q.q->empty()) return "[0]"; return "[" + std::to_string(q.q->size()) + "," + idof(q.q->front()) + "," + idof(q.q->back()) + "]"; }
  auto c = *q.q; vector<string> v;
  while (!c.empty()) { auto it = W->id.find(c.front().get()); v.push_back(std::to_string(it == W->id.end() ? -1 : it->second)); c.pop(); }
  return arr(v);
}
string queues() {
  string s = "{"; bool first = true;
  auto add = [&](const string& k, const string& v) { if (!first) s += ","; first = false; s += "\"" + k + "\":" + v; };
  for (auto& x : W->iq) add(x.first, qids(x.second));
  for (auto& x : W->aq) add(x.first, qids(x.second));
  return s + "}";
}
string rec(ImuM& m) {
  auto q = m.get_quaternion(); Eigen::Vector4d v(q.w(), q.x(), q.y(), q.z());
  return "{\"t\":" + num(m.get_time()) + ",\"w\":" + mat(m.get_angular_velocity()) + ",\"a\":" + mat(m.get_lin_acc()) + ",\"qt\":" + mat(v) + "}";
}
void event(const string& op, const string& F) {
  auto& x = W->f[F]; auto c = *x.out; vector<string> d, nw, h; size_t n = c.size(), k = 0;
  if (op != "frun" && op != "fthread") x.seen = n;
  if (x.seen > n) x.seen = n;
  if (brief) {
    auto dg = [](const shared_ptr<ImuM>& p) { return str(digest(rec(*p))); }; vector<string> nd;
    while (!c.empty()) { if (k++ >= x.seen) { nw.push_back(rec(*c.front())); nd.push_back(dg(c.front())); } c.pop(); }
    x.seen = n; Ev e(op); e.f("F", F).f("br", true).raw("q", queues()).raw("new", arr(nw)).raw("nd", arr(nd))
      .raw("od", n ? "[" + std::to_string(n) + "," + dg(x.out->front()) + "," + dg(x.out->back()) + "]" : string("[0]"))
      .raw("held", x.held.empty() ? string("[0]") : "[" + std::to_string(x.held.size()) + "," + dg(x.held.front()) + "," + dg(x.held.back()) + "]").emit();
    return;
  }
  while (!c.empty()) { string r = rec(*c.front()); d.push_back(str(digest(r))); if (k++ >= x.seen) nw.push_back(r); c.pop(); }
  for (auto& p : x.held) h.push_back(str(digest(rec(*p))));
  x.seen = n;
  Ev e(op); e.f("F", F).raw("q", queues()).raw("new", arr(nw)).raw("od", arr(d)).raw("held", arr(h)).emit();
}
int main(int argc, char** argv) {
  int fd = dup(1); vp::out() = fdopen(fd, "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  string line; std::ifstream in(argv[1]);
  W = new World;
  while (std::getline(in, line)) {
    std::istringstream is(line); string op; if (!(is >> op)) continue;
    auto S = [&]() { string x; is >> x; return x; };
    auto D = [&]() { string x; is >> x; return std::strtod(x.c_str(), nullptr); };
    auto I = [&]() { long x = 0; is >> x; return x; };
    auto V = [&]() { double a = D(), b = D(), c = D(); return Vector3d(a, b, c); };
    try {
    if (op == "trace") { delete W; W = new World; brief = false; Ev("begin").f("name", S()).emit(); }
    else if (op == "note") { string rest = line.substr(5); rest += "\n"; std::fwrite(rest.data(), 1, rest.size(), vp::out()); std::fflush(vp::out()); }
    else if (op == "brief") brief = I();
    else if (op == "mkq") { string k = S(), n = S(); if (k == "i") W->iq[n]; else W->aq[n]; }
    else if (op == "imu") {
      string q = S(); int id = I(); double t = D(); Vector3d w = V(), a = V(); double qw = D(); Vector3d u = V(); auto m = make_shared<ImuM>();
      m->set_header(id, t, "imu"); m->set_angular_velocity(w(0), w(1), w(2)); m->set_lin_acc(a(0), a(1), a(2)); m->set_quaternion(qw, u(0), u(1), u(2));
      auto g = m->get_quaternion(); Eigen::Vector4d qt(g.w(), g.x(), g.y(), g.z());
      W->iq[q].q->push(m); W->id[m.get()] = id; W->keep.push_back(m);
      Ev("push").f("q", q).raw("m", "{\"id\":" + std::to_string(id) + ",\"t\":" + num(t) + ",\"w\":" + mat(w) + ",\"a\":" + mat(a) + ",\"qt\":" + mat(qt) + "}").emit();
    } else if (op == "ang") {
      string q = S(); int id = I(); double t = D(); Vector3d w = V(); auto m = make_shared<AngM>();
      m->set_header(id, t, "ang"); m->set_angular_velocity(w(0), w(1), w(2));
      W->aq[q].q->push(m); W->id[m.get()] = id; W->keep.push_back(m);
      Ev("push").f("q", q).raw("m", "{\"id\":" + std::to_string(id) + ",\"t\":" + num(t) + ",\"w\":" + mat(w) + "}").emit();
    }
    else if (op == "fnew1") { string F = S(), y = S(); auto& x = W->f[F]; x.f = make_shared<imu_filter::ImuAngVelEKF>(y); x.out = x.f->get_filtered_imu_data_buffer_ptr(); }
    else if (op == "fnew5") { string F = S(), q = S(), a = S(), y = S(); auto& x = W->f[F]; x.f = make_shared<imu_filter::ImuAngVelEKF>(W->iq[q].q, W->iq[q].m, W->aq[a].q, W->aq[a].m, y); x.out = x.f->get_filtered_imu_data_buffer_ptr(); }
    else if (op == "fgyro") { string F = S(), q = S(); W->f[F].f->add_gyro_propagate(W->iq[q].q, W->iq[q].m); }
    else if (op == "fimu") { string F = S(), q = S(); W->f[F].f->add_imu_correction(W->iq[q].q, W->iq[q].m); }
    else if (op == "fang") { string F = S(), q = S(); W->f[F].f->add_ang_vel_correction(W->aq[q].q, W->aq[q].m); }
    else if (op == "frun") { string F = S(); W->f[F].f->RunOnce(); event("frun", F); }
    else if (op == "fclear") { string F = S(); W->f[F].f->clear(); event("fclear", F); }
    else if (op == "ftake") { string F = S(); int k = I(); auto& x = W->f[F]; auto q = x.f->get_filtered_imu_data_buffer_ptr(); while (k-- > 0 && !q->empty()) { x.held.push_back(q->front()); q->pop(); } event("ftake", F); }
    else if (op == "fthread") {   // run in the filter's own thread until nothing moves, then destroy it
      string F = S(); auto& x = W->f[F]; auto om = x.f->get_filtered_imu_data_buffer_mutex_ptr(); x.f->StartImuFilterThread();
      size_t last = ~0ul; int still = 0;
      while (still < 4) {
        size_t n = 0; { std::lock_guard<std::mutex> l(*om); n = x.out->size(); }
        for (auto& q : W->iq) { std::lock_guard<std::mutex> l(*q.second.m); n = n * 31 + q.second.q->size(); }
        for (auto& q : W->aq) { std::lock_guard<std::mutex> l(*q.second.m); n = n * 31 + q.second.q->size(); }
        if (n == last) ++still; else { still = 0; last = n; }
        std::this_thread::sleep_for(std::chrono::milliseconds(3));
      }
      x.f.reset(); event("fthread", F);
    }
    else if (op == "fdel") { string F = S(); W->f[F].f.reset(); event("fdel", F); }
    else { Ev("badop").f("op", op).emit(); return 4; }
    } catch (const std::exception& ex) { Ev("except").f("op", op).f("what", ex.what()).emit(); }
  }
  delete W;
  Ev("end").emit();
  return 0;
}
