// Script interpreter over the public API of the estimator, its propagation and its corrections.
// Reads a script on stdin, writes one event per operation with the observed post-state.
#include <csignal>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <sstream>
#include "drift/estimator/inekf_estimator.h"
#include "drift/filter/inekf/correction/legged_kinematics_correction.h"
#include "drift/filter/inekf/correction/velocity_correction.h"
#include "drift/filter/inekf/propagation/imu_propagation.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "vp_out.hpp"
using namespace vp;
using Eigen::MatrixXd; using Eigen::Vector3d; using Eigen::VectorXd; using Eigen::Matrix3d;
using state::RobotState;
using std::string; using std::shared_ptr; using std::make_shared; using std::vector; using std::map;
namespace fi = filter::inekf;

// A leg-kinematics measurement with prescribed geometry and any number of legs.
class FakeLegs : public measurement::LeggedKinematicsMeasurement {
 public:
  FakeLegs(int n, const vector<bool>& c, const MatrixXd& pos, const MatrixXd& J, const Vector3d& iv) : n_(n), pos0_(pos), J0_(J), iv_(iv) {
    contacts_.resize(n); for (int i = 0; i < n; ++i) contacts_(i) = c[i];
    encoders_ = VectorXd::Zero(3 * n); d_encoders_ = VectorXd::Zero(3 * n);
    positions_ = MatrixXd::Constant(3, n, NAN); jacobians_ = MatrixXd::Constant(3, 3 * n, NAN);   // valid after ComputeKinematics only
  }
  void ComputeKinematics() override { positions_ = pos0_; jacobians_ = J0_; }
  int get_num_legs() override { return n_; }
  const Vector3d get_init_velocity(const Vector3d& w) override { return iv_ + w; }
 private:
  int n_; MatrixXd pos0_, J0_; Vector3d iv_;
};

template <class M> struct Q { shared_ptr<std::queue<shared_ptr<M>>> q = make_shared<std::queue<shared_ptr<M>>>(); shared_ptr<std::mutex> m = make_shared<std::mutex>(); };
typedef measurement::ImuMeasurement<double> ImuM;
typedef measurement::VelocityMeasurement<double> VelM;
typedef measurement::LeggedKinematicsMeasurement LegM;


string state_json(const RobotState& s) {
  Ev e("S"); string b;
  b = "{\"X\":" + mat(s.get_X()) + ",\"th\":" + mat(s.get_theta()) + ",\"P\":" + mat(s.get_P()) + ",\"Qc\":" + mat(s.get_continuous_noise_covariance())
      + ",\"t\":" + num(s.get_time()) + ",\"tp\":" + num(s.get_propagate_time()) + ",\"w\":" + mat(s.get_body_angular_velocity())
      + ",\"ben\":" + (s.get_enable_imu_bias_update() ? "true" : "false") + "}";
  return b;
}
// The component-wise views of a state (P12/P23), for comparison with its matrices.
string views_json(const RobotState& s0) {
  RobotState s = s0;
  string b = "{\"R\":" + mat(s.get_rotation()) + ",\"v\":" + mat(s.get_velocity()) + ",\"p\":" + mat(s.get_position())
      + ",\"bg\":" + mat(s.get_gyroscope_bias()) + ",\"ba\":" + mat(s.get_accelerometer_bias()) + ",\"Xi\":" + mat(s.get_Xinv())
      + ",\"wX\":" + mat(s.get_world_X()) + ",\"wR\":" + mat(s.get_world_rotation()) + ",\"wv\":" + mat(s.get_world_velocity()) + ",\"wp\":" + mat(s.get_world_position())
      + ",\"bX\":" + mat(s.get_body_X()) + ",\"bR\":" + mat(s.get_body_rotation()) + ",\"bv\":" + mat(s.get_body_velocity()) + ",\"bp\":" + mat(s.get_body_position())
      + ",\"PR\":" + mat(s.get_rotation_covariance()) + ",\"Pv\":" + mat(s.get_velocity_covariance()) + ",\"Pp\":" + mat(s.get_position_covariance())
      + ",\"Pg\":" + mat(s.get_gyroscope_bias_covariance()) + ",\"Pa\":" + mat(s.get_accelerometer_bias_covariance());
  vector<string> d, c;
  for (int i = 5; i < s.dimX(); ++i) { d.push_back(mat(s.get_aug_state(i))); c.push_back(mat(s.get_aug_cov(i))); }
  return b + ",\"aug\":" + arr(d) + ",\"augP\":" + arr(c) + ",\"dX\":" + std::to_string(s.dimX()) + ",\"dP\":" + std::to_string(s.dimP())
      + ",\"dQ\":" + std::to_string(s.dimQc()) + ",\"dT\":" + std::to_string(s.dimTheta()) + "}";
}

struct Est {
  string cfg; shared_ptr<estimator::InekfEstimator> e; vector<shared_ptr<RobotState>> held;
};
struct World {
  map<string, Q<ImuM>> iq; map<string, Q<VelM>> vq; map<string, Q<LegM>> lq;
  map<const void*, int> id; vector<shared_ptr<void>> keep;
  map<string, shared_ptr<fi::ImuPropagation>> props; map<string, shared_ptr<filter::Correction>> cors;
  map<string, shared_ptr<RobotState>> states; map<string, string> lastd;
  map<string, vector<shared_ptr<int>>> ext;
  map<string, Est> est;
};
static World* W;
static bool with_views = false;
static bool brief = false;      // long backlogs are reported as length, first and last entry only

template <class M> string idof(const shared_ptr<M>& p) { auto it = W->id.find(p.get()); return std::to_string(it == W->id.end() ? -1 : it->second); }
template <class M> string qids(Q<M>& q) {
  if (brief) { if (q.q->empty()) return "[0]"; return "[" + std::to_string(q.q->size()) + "," + idof(q.q->front()) + "," + idof(q.q->back()) + "]"; }
  auto c = *q.q; vector<string> v;
  while (!c.empty()) { auto it = W->id.find(c.front().get()); v.push_back(std::to_string(it == W->id.end() ? -1 : it->second)); c.pop(); }
  return arr(v);
}
string queues() {
  string s = "{"; bool first = true;
  auto add = [&](const string& k, const string& v) { if (!first) s += ","; first = false; s += "\"" + k + "\":" + v; };
  for (auto& x : W->iq) add(x.first, qids(x.second));
  for (auto& x : W->vq) add(x.first, qids(x.second));
  for (auto& x : W->lq) add(x.first, qids(x.second));
  return s + "}";
}
void put_state(Ev& e, const string& key, const RobotState& s) {
  string j = state_json(s), d = digest(j);
  e.f("d", d);
  if (W->lastd[key] != d) { e.raw("st", j); W->lastd[key] = d; }
  if (with_views) e.raw("view", views_json(s));
}
void est_event(const string& op, const string& E) {
  auto& x = W->est[E];
  Ev e(op); e.f("E", E).f("en", (bool)x.e->is_enabled()).f("bo", (bool)x.e->BiasInitialized());
  put_state(e, "E" + E, x.e->get_state());
  e.raw("q", queues());
  auto dg = [](const shared_ptr<RobotState>& p) { return str(digest(state_json(*p))); };
  if (brief) {
    auto oq = x.e->get_robot_state_queue_ptr();
    e.f("br", true).raw("out", oq->empty() ? "[0]" : "[" + std::to_string(oq->size()) + "," + dg(oq->front()) + "," + dg(oq->back()) + "]")
     .raw("held", x.held.empty() ? "[0]" : "[" + std::to_string(x.held.size()) + "," + dg(x.held.front()) + "," + dg(x.held.back()) + "]").emit();
    return;
  }
  auto c = *x.e->get_robot_state_queue_ptr(); vector<string> o, h;
  while (!c.empty()) { o.push_back(str(digest(state_json(*c.front())))); c.pop(); }
  for (auto& p : x.held) h.push_back(str(digest(state_json(*p))));
  e.raw("out", arr(o)).raw("held", arr(h)).emit();
}
void cmp_event(const string& op, const string& C, const string& S, bool ret) {
  Ev e(op); e.f("C", C).f("S", S).f("ret", ret);
  put_state(e, "S" + S, *W->states[S]);
  if (brief) e.f("br", true);
  e.raw("q", queues()).emit();
}
Matrix3d rotv(const Vector3d& v) { double a = v.norm(); return a == 0 ? Matrix3d::Identity() : Eigen::AngleAxisd(a, v / a).toRotationMatrix(); }
// Random valid contents with the same dimensions: mode bit 0 pose, 1 covariance, 2 biases, 4 diagonal covariance
void randomize(RobotState& s, uint64_t seed, int mode, double ang, double vs, double Ps, double bs) {
  Rng r(seed); auto v3 = [&](double k) { Vector3d v(r.d(), r.d(), r.d()); return Vector3d(v * k); };
  if (mode & 1) {
    MatrixXd X = s.get_X(); X.block<3, 3>(0, 0) = rotv(v3(ang));
    for (int i = 3; i < X.cols(); ++i) X.block<3, 1>(0, i) = v3(vs);
    s.set_X(X);
  }
  if (mode & 2) {
    int n = s.dimP(); MatrixXd A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.d();
    MatrixXd P = (A * A.transpose() / n + 0.2 * MatrixXd::Identity(n, n)) * Ps;
    if (mode & 8) P = MatrixXd(P.diagonal().asDiagonal());
    P = ((P + P.transpose()) / 2).eval();
    s.set_P(P);
  }
  if (mode & 4) { VectorXd t(6); t << v3(bs), v3(bs * 5); s.set_theta(t); }
}

int main(int argc, char** argv) {
  // events go to the original stdout, the library's chatter to /dev/null
  int fd = dup(1); vp::out() = fdopen(fd, "w");
  if (!freopen("/dev/null", "w", stdout)) return 3;
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  string line; std::ifstream in(argv[1]);
  W = new World;
  while (std::getline(in, line)) {
    std::istringstream is(line); string op; if (!(is >> op)) continue;
    auto S = [&]() { string x; is >> x; return x; };
    auto D = [&]() { string x; is >> x; return std::strtod(x.c_str(), nullptr); };
    auto I = [&]() { long x = 0; is >> x; return x; };
    auto V = [&]() { double a = D(), b = D(), c = D(); return Vector3d(a, b, c); };
    auto ET = [&]() { return S() == "L" ? fi::ErrorType::LeftInvariant : fi::ErrorType::RightInvariant; };
    try {
    if (op == "trace") { delete W; W = new World; with_views = brief = false; Ev("begin").f("name", S()).emit(); }
    else if (op == "note") { string rest = line.substr(5); rest += "\n"; std::fwrite(rest.data(), 1, rest.size(), vp::out()); std::fflush(vp::out()); }
    else if (op == "views") with_views = I();
    else if (op == "brief") brief = I();
    else if (op == "mkq") { string k = S(), n = S(); if (k == "i") W->iq[n]; else if (k == "v") W->vq[n]; else W->lq[n]; }
    else if (op == "imu") {
      string q = S(); int id = I(); double t = D(); Vector3d w = V(), a = V(); auto m = make_shared<ImuM>();
      m->set_header(id, t, "imu"); m->set_angular_velocity(w(0), w(1), w(2)); m->set_lin_acc(a(0), a(1), a(2));
      Eigen::Vector4d qt(1, 0, 0, 0); string more;
      if (is >> more) { double qw = std::strtod(more.c_str(), nullptr); Vector3d u = V(); m->set_quaternion(qw, u(0), u(1), u(2)); qt << qw, u; }
      W->iq[q].q->push(m); W->id[m.get()] = id; W->keep.push_back(m);
      Ev("push").f("q", q).raw("m", "{\"id\":" + std::to_string(id) + ",\"t\":" + num(t) + ",\"w\":" + mat(w) + ",\"a\":" + mat(a) + ",\"qt\":" + mat(qt) + "}").emit();
    } else if (op == "vel") {
      string q = S(); int id = I(); double t = D(); Vector3d v = V(); auto m = make_shared<VelM>();
      m->set_header(id, t, "vel"); m->set_velocity(v(0), v(1), v(2));
      W->vq[q].q->push(m); W->id[m.get()] = id; W->keep.push_back(m);
      Ev("push").f("q", q).raw("m", "{\"id\":" + std::to_string(id) + ",\"t\":" + num(t) + ",\"v\":" + mat(v) + "}").emit();
    } else if (op == "leg" || op == "mc") {
      string q = S(); int id = I(); double t = D(); shared_ptr<LegM> m; vector<string> cs, hs, Js; Vector3d iv(0, 0, 0); MatrixXd dd; string kind = op;
      string extra;
      if (op == "leg") {
        int n = I(); vector<bool> c(n); for (int i = 0; i < n; ++i) c[i] = I();
        MatrixXd pos(3, n), J(3, 3 * n);
        for (int i = 0; i < n; ++i) pos.col(i) = V();
        for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) J.col(3 * i + k) = V();
        iv = V(); m = make_shared<FakeLegs>(n, c, pos, J, iv);
        for (int i = 0; i < n; ++i) { cs.push_back(c[i] ? "true" : "false"); hs.push_back(mat(pos.col(i))); Js.push_back(mat(J.block(0, 3 * i, 3, 3))); }
      } else {
        VectorXd en(12), den(12); Eigen::Matrix<bool, Eigen::Dynamic, 1> c(4);
        for (int i = 0; i < 12; ++i) en(i) = D(); for (int i = 0; i < 12; ++i) den(i) = D(); for (int i = 0; i < 4; ++i) c(i) = I();
        auto k = make_shared<measurement::kinematics::MiniCheetahKinematics>(en, den, c); m = k;
        measurement::kinematics::MiniCheetahKinematics cp(en, den, c); cp.ComputeKinematics();
        for (int i = 0; i < 4; ++i) { cs.push_back(c(i) ? "true" : "false"); hs.push_back(mat(cp.get_kin_pos(i))); Js.push_back(mat(cp.get_J(i))); }
        extra = ",\"dq\":" + mat(den);
      }
      m->set_header(id, t, "leg");
      W->lq[q].q->push(m); W->id[m.get()] = id; W->keep.push_back(m);
      Ev("push").f("q", q).raw("m", "{\"id\":" + std::to_string(id) + ",\"t\":" + num(t) + ",\"k\":" + str(kind) + ",\"c\":" + arr(cs) + ",\"h\":" + arr(hs) + ",\"J\":" + arr(Js) + ",\"iv\":" + mat(iv) + extra + "}").emit();
    }
    // ---- components on explicit states
    else if (op == "prop") { string c = S(), q = S(); auto et = ET(); string y = S(); W->props[c] = make_shared<fi::ImuPropagation>(W->iq[q].q, W->iq[q].m, et, y); }
    else if (op == "vcor") { string c = S(), q = S(); auto et = ET(); string y = S(); W->cors[c] = make_shared<fi::VelocityCorrection>(W->vq[q].q, W->vq[q].m, et, y); }
    else if (op == "lcor") { string c = S(), q = S(); auto et = ET(); string y = S(); W->cors[c] = make_shared<fi::LeggedKinematicsCorrection>(W->lq[q].q, W->lq[q].m, et, y); }
    else if (op == "state") { string s = S(); W->states[s] = make_shared<RobotState>(); W->lastd["S" + s] = ""; cmp_event("state", "", s, true); }
    else if (op == "srand") { string s = S(); uint64_t seed = I(); int mode = I(); double a = D(), v = D(), P = D(), b = D(); randomize(*W->states[s], seed, mode, a, v, P, b); cmp_event("sset", "", s, true); }
    else if (op == "stime") { string s = S(); double t = D(), tp = D(); W->states[s]->set_time(t); W->states[s]->set_propagate_time(tp); cmp_event("sset", "", s, true); }
    else if (op == "sben") { string s = S(); W->states[s]->set_enable_imu_bias_update(I()); cmp_event("sset", "", s, true); }
    else if (op == "scopy") { string s = S(), f = S(); W->states[s] = make_shared<RobotState>(*W->states[f]); Ev e("scopy"); e.f("S", s).f("from", f); put_state(e, "S" + s, *W->states[s]); if (brief) e.f("br", true); e.raw("q", queues()).emit(); }
    else if (op == "cprop") { string c = S(), s = S(); bool r = W->props[c]->Propagate(*W->states[s]); cmp_event("cprop", c, s, r); }
    else if (op == "ccor") { string c = S(), s = S(); bool r = W->cors[c]->Correct(*W->states[s]); cmp_event("ccor", c, s, r); }
#ifdef VP_UPD
    else if (op == "upd") {      // a generic observation Z = H x error + noise N, applied to state s
      string side = S(); string ets = S(); auto et = ets == "L" ? fi::ErrorType::LeftInvariant : fi::ErrorType::RightInvariant; string s = S(); uint64_t seed = I(); int r = I(), mode = I(); double zs = D(), ns = D();
      Rng g(seed); RobotState& st = *W->states[s]; int n = st.dimP(); MatrixXd H = MatrixXd::Zero(r, n), A(r, r); VectorXd Z(r);
      for (int i = 0; i < r; ++i) { Z(i) = g.d() * zs; for (int j = 0; j < r; ++j) A(i, j) = g.d(); if (mode == 0) for (int j = 0; j < n; ++j) H(i, j) = g.d(); else if (mode == 1) H(i, (g.u() >> 8) % n) = 1; else H(i, 3 * ((g.u() >> 8) % (n / 3 - 2)) + i % 3) = -1; }
      MatrixXd N = (A * A.transpose() + MatrixXd::Identity(r, r)) * ns; N = ((N + N.transpose()) / 2).eval();
      if (side == "R") fi::CorrectRightInvariant(Z, H, N, st, et); else fi::CorrectLeftInvariant(Z, H, N, st, et);
      Ev e("upd"); e.f("side", side).f("et", ets).f("S", s).f("Z", MatrixXd(Z)).f("H", H).f("N", N); put_state(e, "S" + s, st); if (brief) e.f("br", true); e.raw("q", queues()).emit();
    }
#endif
    else if (op == "cinitp") { string c = S(), s = S(); bool r = W->props[c]->set_initial_state(*W->states[s]); cmp_event("cinitp", c, s, r); }
    else if (op == "cinitc") { string c = S(), s = S(); bool r = W->cors[c]->initialize(*W->states[s]); cmp_event("cinitc", c, s, r); }
    else if (op == "cbias") { string c = S(); auto p = W->props[c]; p->InitImuBias(); Ev e("cbias"); if (brief) e.f("br", true); e.f("C", c).f("bo", (bool)p->get_bias_initialized()).f("bg", p->get_estimate_gyro_bias()).f("ba", p->get_estimate_accel_bias()).raw("q", queues()).emit(); }
    else if (op == "cclr") { string c = S(); if (W->props.count(c)) W->props[c]->clear(); else W->cors[c]->clear(); Ev e("cclr"); if (brief) e.f("br", true); e.f("C", c).raw("q", queues()).emit(); }
    // ---- estimators
    else if (op == "est") { string n = S(); auto et = ET(); string y = S(); W->est[n].e = make_shared<estimator::InekfEstimator>(et, y); }
    else if (op == "eprop") { string n = S(), q = S(), y = S(); W->est[n].e->add_imu_propagation(W->iq[q].q, W->iq[q].m, y); }
    else if (op == "evel") { string n = S(), q = S(), y = S(); W->est[n].e->add_velocity_correction(W->vq[q].q, W->vq[q].m, y); }
    else if (op == "eleg") { string n = S(), q = S(), y = S(); W->est[n].e->add_legged_kinematics_correction(W->lq[q].q, W->lq[q].m, y); }
    else if (op == "enew") { est_event("enew", S()); }
    else if (op == "run") { string n = S(); W->est[n].e->RunOnce(); est_event("run", n); }
    else if (op == "bias") { string n = S(); W->est[n].e->InitBias(); est_event("bias", n); }
    else if (op == "init") { string n = S(); W->est[n].e->InitState(); est_event("init", n); }
    else if (op == "clear") { string n = S(); W->est[n].e->clear(); est_event("clear", n); }
    else if (op == "enable") { string n = S(); W->est[n].e->EnableFilter(); est_event("enable", n); }
    else if (op == "take") { string n = S(); int k = I(); auto q = W->est[n].e->get_robot_state_queue_ptr(); while (k-- > 0 && !q->empty()) { W->est[n].held.push_back(q->front()); q->pop(); } est_event("take", n); }
    else if (op == "erand") { string n = S(); uint64_t seed = I(); int mode = I(); double a = D(), v = D(), P = D(), b = D(); RobotState s = W->est[n].e->get_state(); randomize(s, seed, mode, a, v, P, b); W->est[n].e->set_state(s); est_event("eset", n); }
    else if (op == "edel") { W->est.erase(S()); }
    else { Ev("badop").f("op", op).emit(); return 4; }
    } catch (const std::exception& ex) { Ev("except").f("op", op).f("what", ex.what()).emit(); }
  }
  delete W;
  Ev("end").emit();
  return 0;
}
