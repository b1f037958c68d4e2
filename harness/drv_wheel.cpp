// Drives the wheel odometry baseline: script of measurements and steps; what it leaves in its buffers and writes to its log.
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include "wheel_odometry/wheel_odometry.h"
#include "vp_out.hpp"
using namespace vp; using std::string; using std::vector;
typedef measurement::VelocityMeasurement<double> VelM; typedef measurement::AngularVelocityMeasurement<double> AngM;
struct W { VelocityQueuePtr v = VelocityQueuePtr(new VelocityQueue); AngularVelocityQueuePtr a = AngularVelocityQueuePtr(new AngularVelocityQueue); std::shared_ptr<std::mutex> vm{new std::mutex}, am{new std::mutex}; std::shared_ptr<baseline::WheelOdometry> o; };
static std::map<const void*, int> ids; static vector<std::shared_ptr<void>> keep;
static bool brief = false;                                                           // long buffers: [length, first, last]
template <class Q> string left(const Q& q0) {
  if (brief) return q0.empty() ? "[0]" : "[" + std::to_string(q0.size()) + "," + std::to_string(ids[q0.front().get()]) + "," + std::to_string(ids[q0.back().get()]) + "]";
  auto q = q0; vector<string> s; while (!q.empty()) { s.push_back(std::to_string(ids[q.front().get()])); q.pop(); } return arr(s); }
int main(int, char** av) {
  std::streambuf* silent = nullptr; (void)silent; std::cout.setstate(std::ios_base::failbit);
  std::ifstream in(av[1]); string l; std::map<string, W> w;
  while (std::getline(in, l)) {
    std::istringstream s(l); string f, o; s >> f; auto num1 = [&] { string t; s >> t; return strtod(t.c_str(), nullptr); };
    if (f == "trace") { string n; s >> n; w.clear(); ids.clear(); keep.clear(); brief = false; Ev e("begin"); e.f("name", n); e.emit(); continue; }
    if (f == "brief") { brief = true; continue; }
    if (f == "note") { string r; std::getline(s, r); std::fputs((r.substr(1) + "\n").c_str(), out()); std::fflush(out()); continue; }
    s >> o; W& x = w[o]; Ev e("w"); e.f("f", f).f("o", o); if (brief) e.f("br", true);
    if (f == "new") { string c; s >> c; x.o = std::make_shared<baseline::WheelOdometry>(x.v, x.vm, x.a, x.am, c); }
    else if (f == "vel") { int id; s >> id; double t = num1(); Eigen::Vector3d v; for (int i = 0; i < 3; ++i) v(i) = num1(); auto m = std::make_shared<VelM>(); m->set_time(t); m->set_velocity(v(0), v(1), v(2)); ids[m.get()] = id; keep.push_back(m); x.v->push(m); e.f("id", id).f("st", t).f("v", v); }
    else if (f == "ang") { int id; s >> id; double t = num1(); Eigen::Vector3d v; for (int i = 0; i < 3; ++i) v(i) = num1(); auto m = std::make_shared<AngM>(); m->set_time(t); m->set_angular_velocity(v(0), v(1), v(2)); ids[m.get()] = id; keep.push_back(m); x.a->push(m); e.f("id", id).f("st", t).f("v", v); }
    else if (f == "run") x.o->RunOnce();
    else if (f == "end") x.o.reset();
    else if (f == "log") {
      string p; s >> p; std::ifstream g(p); string row, rows; int r = 0; bool bad = false; e.f("there", g.good());
      while (std::getline(g, row)) { std::istringstream t(row); vector<double> v; string y; while (t >> y) v.push_back(strtod(y.c_str(), nullptr)); if (v.size() != 8) { bad = true; continue; } for (double d : v) hexd(rows, d); ++r; }
      e.f("bad", bad).raw("rows", "\"~" + std::to_string(r) + "x8:" + rows + "\""); }
    else return 4;
    e.raw("vq", left(*x.v)).raw("aq", left(*x.a)); 
    bool fr = x.vm->try_lock(); if (fr) x.vm->unlock(); bool fr2 = x.am->try_lock(); if (fr2) x.am->unlock(); e.f("free", fr && fr2); e.emit();
  }
  Ev e("end"); e.emit(); return 0;
}
