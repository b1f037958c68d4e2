// Runs the threaded parts of the library under the recording scheduler: producers, consumers and the library's own threads.
#include <unistd.h>
#include <csignal>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "drift/estimator/inekf_estimator.h"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#ifdef VP_WHEEL
#include "wheel_odometry/wheel_odometry.h"
#endif
#ifdef VP_ROS
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
#endif
#include "vp_out.hpp"
using namespace vp;
using std::string; using std::vector; using std::map; using std::shared_ptr;
typedef std::istringstream In;
static map<const void*, int> ids; static vector<shared_ptr<void>> keep; static int lib_ids = 1000000; static bool scale = false;
static string q_text(Ev& e) { return e.s.substr(1); }
static void say(Ev& e) { vps_quiet(1); vps_text(q_text(e).c_str()); vps_quiet(-1); }

struct Watch { string name; vector<int> last; virtual vector<int> now() = 0; virtual bool diff() = 0; virtual void forget(const vector<int>&) = 0; virtual ~Watch() {} };
static vector<Watch*> watches;
#ifdef VP_ROS
struct Legs : measurement::LeggedKinematicsMeasurement { static Eigen::VectorXd at(measurement::LeggedKinematicsMeasurement* m, bool v) { return v ? m->*(&Legs::d_encoders_) : m->*(&Legs::encoders_); } static Eigen::VectorXd con(measurement::LeggedKinematicsMeasurement* m) { return (m->*(&Legs::contacts_)).cast<double>(); } };
static Ev& base(Ev& e, const string& q, int id, measurement::Measurement* m) { return e.f("q", q).f("id", id).f("st", m->get_time()).f("sq", (double)m->header.seq).f("fr", m->header.frame_id); }
static void item(const string& q, int id, measurement::ImuMeasurement<double>* m) { Ev e("item"); Eigen::Quaterniond u = m->get_quaternion(); base(e, q, id, m).f("w", m->get_angular_velocity()).f("a", m->get_lin_acc()).f("qt", Eigen::Vector4d(u.w(), u.x(), u.y(), u.z())); say(e); }
static void item(const string& q, int id, measurement::VelocityMeasurement<double>* m) { Ev e("item"); base(e, q, id, m).f("v", m->get_velocity()); say(e); }
static void item(const string& q, int id, measurement::AngularVelocityMeasurement<double>* m) { Ev e("item"); base(e, q, id, m).f("w", m->get_angular_velocity()); say(e); }
static void item(const string& q, int id, measurement::LeggedKinematicsMeasurement* m) { Ev e("item"); base(e, q, id, m).f("c", Legs::con(m)).f("p", Legs::at(m, false)).f("v", Legs::at(m, true)); say(e); }
static void item(const string& q, int id, state::RobotState* m) { Ev e("item"); e.f("q", q).f("id", id).f("st", m->get_time()).f("X", m->get_X()).f("P", m->get_P()).f("wv", m->get_world_velocity()).f("bv", m->get_body_velocity()).f("wp", m->get_world_position()).f("wR", m->get_world_rotation()); say(e); }
#else
static void item(const string& q, int id, measurement::Measurement* m) { Ev e("item"); e.f("q", q).f("id", id).f("st", m->get_time()); say(e); }
static void item(const string& q, int id, state::RobotState* m) { Ev e("item"); e.f("q", q).f("id", id).f("st", m->get_time()).f("X", m->get_X()).f("wv", m->get_world_velocity()).f("bv", m->get_body_velocity()); say(e); }
#endif
template <class M> struct Q : Watch {
  shared_ptr<std::queue<shared_ptr<M>>> q; shared_ptr<std::mutex> m;
  Q(const string& n, shared_ptr<std::queue<shared_ptr<M>>> a, shared_ptr<std::mutex> b) : q(a), m(b) { name = n; vps_name_mutex(m.get(), n.c_str()); watches.push_back(this); }
  struct Und : std::queue<shared_ptr<M>> { static const std::deque<shared_ptr<M>>& of(const std::queue<shared_ptr<M>>& x) { return x.*(&Und::c); } };
  int id(const shared_ptr<M>& p) { int& i = ids[p.get()]; if (!i) { i = ++lib_ids; keep.push_back(p); item(name, i, p.get()); } return i; }
  vector<int> now() override { vector<int> v; auto& c = Und::of(*q); if (c.size() > 100000) abort(); for (auto& p : c) v.push_back(id(p)); return v; }
  // long buffers: what changed since the last look (k left the front, these came at the back)
  std::deque<int> was; bool diff() override {
    auto& c = Und::of(*q); if (c.size() > 100000) abort();
    if (c.size() == was.size() && (c.empty() || (id(c.front()) == was.front() && id(c.back()) == was.back()))) return true;
    size_t k = 0; if (c.empty()) k = was.size(); else { int f = id(c.front()); while (k < was.size() && was[k] != f) ++k; }
    if (was.size() - k > c.size()) return false;
    size_t m = was.size() - k; for (size_t i = 0; i < m; ++i) if (id(c[i]) != was[k + i]) return false;
    vector<string> s; for (size_t i = m; i < c.size(); ++i) s.push_back(std::to_string(id(c[i])));
    was.erase(was.begin(), was.begin() + k); for (size_t i = m; i < c.size(); ++i) was.push_back(id(c[i]));
    Ev e("qd"); e.f("q", name).f("k", (int)k).raw("n", arr(s)).f("len", (int)c.size()); say(e); return true; }
  void forget(const vector<int>& v) override { was.assign(v.begin(), v.end()); }
};
static void hook(int) {
  for (auto* w : watches) {
    if (scale && w->diff()) continue;
    vector<int> v = w->now(); if (!scale && v == w->last) continue; w->last = v; w->forget(v);
    vector<string> s; for (int i : v) s.push_back(std::to_string(i)); Ev e("q"); e.f("q", w->name).raw("ids", arr(s)); say(e); }
}
typedef measurement::ImuMeasurement<double> ImuM; typedef measurement::VelocityMeasurement<double> VelM;
typedef measurement::AngularVelocityMeasurement<double> AngM; typedef measurement::LeggedKinematicsMeasurement LegM;
static map<string, Q<ImuM>*> iq; static map<string, Q<VelM>*> vq; static map<string, Q<AngM>*> aq; static map<string, Q<LegM>*> lq; static Q<state::RobotState>* outq = nullptr;
static shared_ptr<estimator::InekfEstimator> est; static shared_ptr<imu_filter::ImuAngVelEKF> fil;
#ifdef VP_WHEEL
static shared_ptr<baseline::WheelOdometry> wheel;
#endif
template <class M> Q<M>* mk(const string& n) { return new Q<M>(n, std::make_shared<std::queue<shared_ptr<M>>>(), std::make_shared<std::mutex>()); }
template <class M> void push(Q<M>* q, shared_ptr<M> m, int id) {
  vps_quiet(1); ids[m.get()] = id; keep.push_back(m); Ev e("push"); e.f("q", q->name).f("id", id).f("st", m->get_time()); vps_quiet(-1); say(e);
  q->m->lock(); q->q->push(m); q->m->unlock();
}
static thread_local volatile double sink;
template <class M> bool take(Q<M>* q, shared_ptr<M>& r) { q->m->lock(); if (q->q->empty()) { q->m->unlock(); return false; } r = q->q->front(); q->q->pop(); q->m->unlock(); return true; }
static vector<double> nums(In& s) { vector<double> v; string w; while (s >> w) v.push_back(strtod(w.c_str(), nullptr)); return v; }
static bool idle(const string& n) {
  if (iq.count(n)) { std::lock_guard<std::mutex> l(*iq[n]->m); return iq[n]->q->empty(); }
  if (vq.count(n)) { std::lock_guard<std::mutex> l(*vq[n]->m); return vq[n]->q->empty(); }
  if (aq.count(n)) { std::lock_guard<std::mutex> l(*aq[n]->m); return aq[n]->q->empty(); }
  if (n == "out") { std::lock_guard<std::mutex> l(*outq->m); return outq->q->empty(); }
  return true;
}
#ifdef VP_ROS
#include "drv_ros_ops.hpp"
#endif
static map<string, int> to_come;                 // measurements the threads of the script still have to put
static void op(const string& line) {
  In s(line); string f; s >> f;
  if (f == "scale") { scale = true; vps_lean(1); return; }
  if (f == "y") { int n; s >> n; while (n-- > 0) vps_point(); return; }
  if (f == "imu" || f == "vel" || f == "ang" || f == "leg") {
    string q; int id; double t; string ts; s >> q >> id >> ts; t = strtod(ts.c_str(), nullptr); vector<double> v = nums(s); { vps_quiet(1); auto n = to_come.find(q); if (n != to_come.end() && n->second > 0) --n->second; vps_quiet(-1); }
    if (f == "imu") { auto m = std::make_shared<ImuM>(); m->set_time(t); m->set_angular_velocity(v[0], v[1], v[2]); m->set_lin_acc(v[3], v[4], v[5]); push(iq.at(q), m, id); }
    else if (f == "vel") { auto m = std::make_shared<VelM>(); m->set_time(t); m->set_velocity(v[0], v[1], v[2]); push(vq.at(q), m, id); }
    else if (f == "ang") { auto m = std::make_shared<AngM>(); m->set_time(t); m->set_angular_velocity(v[0], v[1], v[2]); push(aq.at(q), m, id); }
    else { Eigen::VectorXd e(12), d(12); Eigen::Matrix<bool, Eigen::Dynamic, 1> c(4); for (int i = 0; i < 12; ++i) { e(i) = v[i]; d(i) = 0; } for (int i = 0; i < 4; ++i) c(i) = v[12 + i] != 0;
      auto m = std::make_shared<measurement::kinematics::MiniCheetahKinematics>(e, d, c); m->set_time(t); push<LegM>(lq.at(q), m, id); }
    return;
  }
  if (f == "take") { string q; s >> q; shared_ptr<state::RobotState> r; shared_ptr<ImuM> i; { Ev e("op"); e.f("f", f); say(e); }
    if (q == "out") { if (take(outq, r)) sink = r->get_X().sum() + r->get_P().sum() + r->get_theta().sum() + r->get_time() + r->get_body_velocity().sum(); }
    else if (vq.count(q)) { shared_ptr<VelM> m; if (take(vq[q], m)) sink = m->get_time() + m->get_velocity().sum(); }
    else if (aq.count(q)) { shared_ptr<AngM> m; if (take(aq[q], m)) sink = m->get_time() + m->get_angular_velocity().sum(); }
    else if (lq.count(q)) { shared_ptr<LegM> m; if (take(lq[q], m)) { m->ComputeKinematics(); sink = m->get_time() + m->get_kin_pos(0).sum() + m->get_J(1).sum() + m->get_contact(2); } }
    else if (take(iq.at(q), i)) sink = i->get_time() + i->get_angular_velocity().sum() + i->get_lin_acc().sum();
    { Ev e("ret"); say(e); } return; }
  if (f == "until") { string q; s >> q; for (int k = 0; k < 3000 && !idle(q); ++k) vps_point(); return; }
  if (f == "lograte") { double d; string t; s >> t; d = strtod(t.c_str(), nullptr); Ev e("lograte"); e.f("r", d); say(e); return; }
  if (f == "logged") { Ev e("logged"); say(e); return; }
  if (f == "expect") { string q; s >> q; Ev e("expect"); e.f("q", q); say(e); return; }
#ifdef VP_ROS
  if (ros_op(f, line, s)) return;
#endif
  if (f == "script") { string l, w; s >> w >> l; vps_script(l.c_str(), w.c_str()); return; }
  if (f == "step") { string q; s >> q; vps_quiet(1); bool none = to_come[q] == 0; vps_quiet(-1); if (!est->is_enabled() && none && idle(q)) return; f = "run"; }     // no initialisation that would wait for ever
  if (f == "run") f = est->is_enabled() ? "run" : est->BiasInitialized() ? "init" : "initbias";   // the loop of the example programs
  { Ev e("op"); e.f("f", f); say(e); }
  if (f == "iq") { string n; s >> n; iq[n] = mk<ImuM>(n); }
  else if (f == "vq") { string n; s >> n; vq[n] = mk<VelM>(n); }
  else if (f == "aq") { string n; s >> n; aq[n] = mk<AngM>(n); }
  else if (f == "lq") { string n; s >> n; lq[n] = mk<LegM>(n); }
  else if (f == "est") { string c; int r; s >> r >> c; est = std::make_shared<estimator::InekfEstimator>(r ? filter::inekf::RightInvariant : filter::inekf::LeftInvariant, c); outq = new Q<state::RobotState>("out", est->get_robot_state_queue_ptr(), est->get_robot_state_queue_mutex_ptr()); }
  else if (f == "prop") { string q, c; s >> q >> c; est->add_imu_propagation(iq.at(q)->q, iq.at(q)->m, c); }
  else if (f == "vcor") { string q, c; s >> q >> c; est->add_velocity_correction(vq.at(q)->q, vq.at(q)->m, c); }
  else if (f == "lcor") { string q, c; s >> q >> c; est->add_legged_kinematics_correction(lq.at(q)->q, lq.at(q)->m, c); }
  else if (f == "ekf") { string q, a, n, c; s >> q >> a >> n >> c; auto r = est->add_imu_ang_vel_ekf(iq.at(q)->q, iq.at(q)->m, aq.at(a)->q, aq.at(a)->m, c); iq[n] = new Q<ImuM>(n, r.first, r.second); }
  else if (f == "fil") { string n, c; s >> n >> c; fil = std::make_shared<imu_filter::ImuAngVelEKF>(c); auto r = fil->get_filtered_imu_data_buffer_and_mutex_ptr(); iq[n] = new Q<ImuM>(n, r.first, r.second); }
  else if (f == "fgyro") { string q; s >> q; fil->add_gyro_propagate(iq.at(q)->q, iq.at(q)->m); }
  else if (f == "fimu") { string q; s >> q; fil->add_imu_correction(iq.at(q)->q, iq.at(q)->m); }
  else if (f == "fang") { string q; s >> q; fil->add_ang_vel_correction(aq.at(q)->q, aq.at(q)->m); }
  else if (f == "fstart") fil->StartImuFilterThread();
  else if (f == "fclear") fil->clear();
  else if (f == "fend") fil.reset();
  else if (f == "initbias") est->InitBias();
  else if (f == "init") est->InitState();
  else if (f == "run") est->RunOnce();
  else if (f == "clear") est->clear();
  else if (f == "end") est.reset();
#ifdef VP_WHEEL
  else if (f == "wheel") { string v, a, c; s >> v >> a >> c; wheel = std::make_shared<baseline::WheelOdometry>(vq.at(v)->q, vq.at(v)->m, aq.at(a)->q, aq.at(a)->m, c); }
  else if (f == "wrun") wheel->RunOnce();
  else if (f == "wend") wheel.reset();
#endif
#ifdef VP_ROS
  else if (ros_do(f, s)) {}
#endif
  else if (f == "log") {   // the rows of a log file
    string k, p; int n, c; s >> k >> n >> c >> p; vps_quiet(1); std::ifstream in(p); string l; string rows; int r = 0; bool bad = false, there = in.good();
    while (std::getline(in, l)) { In t(l); vector<double> v = nums(t); if ((int)v.size() != c) { bad = true; continue; } for (double d : v) hexd(rows, d); ++r; }
    Ev e("log"); e.f("k", k).f("n", n).f("there", there).f("bad", bad).raw("rows", "\"~" + std::to_string(r) + "x" + std::to_string(c) + ":" + rows + "\""); vps_quiet(-1); say(e); }
  else _exit(4);
  { Ev e("ret"); e.f("f", f); say(e); }
}
static const char* raw_path;
static void on_signal(int sig) { signal(sig, SIG_DFL); Ev e("crash"); e.f("why", sig == SIGALRM ? "timeout" : sig == SIGSEGV ? "segmentation fault" : "aborted"); vps_text(q_text(e).c_str()); vps_dump(raw_path); _exit(0); }
int main(int argc, char** v) {
  raw_path = v[2]; vps_dump_to(raw_path);
  stack_t ss{}; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
  for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS}) { struct sigaction a{}; a.sa_handler = on_signal; a.sa_flags = SA_ONSTACK; sigaction(sg, &a, nullptr); }
  std::set_terminate([] { abort(); });
  std::ifstream in(v[1]); string l; vector<vector<string>> traces;
  while (std::getline(in, l)) { if (l.empty()) continue; if (l.compare(0, 6, "trace ") == 0) traces.emplace_back(); if (traces.empty()) return 4; traces.back().push_back(l); }
  for (auto& tr : traces) {
    string name = tr[0].substr(6); In s(tr[1]); string w; long seed, limit; int mode; s >> w >> seed >> mode >> limit; if (w != "sched") return 4;
    ids.clear(); lib_ids = 1000000; scale = false; watches.clear(); iq.clear(); vq.clear(); aq.clear(); lq.clear(); outq = nullptr;
    vector<string> mainops; vector<vector<string>> thr; vector<string>* cur = &mainops;
    for (size_t i = 2; i < tr.size(); ++i) { if (tr[i] == "thread") { thr.emplace_back(); cur = nullptr; continue; } if (tr[i] == "main") { cur = &mainops; continue; } if (!cur) thr.back().push_back(tr[i]); else cur->push_back(tr[i]); if (cur == nullptr) {} }
    to_come.clear(); for (auto& t : thr) for (auto& x : t) { In a(x); string k, q; a >> k >> q; if (k == "vel" || k == "leg" || k == "imu") ++to_come[q]; }
#ifdef VP_ROS
    nh = new ros::NodeHandle; vpros::bus().clear();
#endif
    alarm(100); vps_start(seed, mode, limit); vps_hook(hook);
    { Ev e("begin"); e.f("name", name); say(e); }
    vector<std::thread> ts;
    for (auto& o : mainops) {
      if (o == "go") { for (auto& t : thr) ts.emplace_back([&t] { for (auto& x : t) op(x); }); continue; }
      if (o == "wait") { for (auto& t : ts) t.join(); ts.clear(); continue; }
      op(o); }
    for (auto& t : ts) t.join();
    est.reset(); fil.reset();
#ifdef VP_ROS
    ros::shutdown(); rsub.reset(); rpub.reset();
#endif
#ifdef VP_WHEEL
    wheel.reset();
#endif
    { Ev e("done"); say(e); }
    vps_stop(); vps_dump(raw_path);
  }
  std::fflush(nullptr); _exit(0);
}
