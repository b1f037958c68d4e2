// Driver of the classes without threads: Lie functions, leg kinematics, state container, measurements.
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include "vp_out.hpp"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
#include "drift/state/robot_state.h"
#include "drift/measurement/measurement.h"
#include "drift/measurement/imu.h"
#include "drift/measurement/velocity.h"
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/odom.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#ifdef VP_KIN
#include "vp_kin.inc"
#endif
using namespace vp;
using Eigen::MatrixXd; using Eigen::VectorXd; using Eigen::Vector3d; using Eigen::Matrix3d;
typedef std::istringstream In;
struct Off {};   // the object under test is not of the shape the script needs: reported, the rest of the trace is left out
static double D(In& s) { std::string t; if (!(s >> t)) exit(6); return std::strtod(t.c_str(), nullptr); }
static int I(In& s) { int i; if (!(s >> i)) exit(6); return i; }
static MatrixXd M(In& s, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = D(s); return m; }
static MatrixXd MX(In& s) { int r = I(s), c = I(s); return M(s, r, c); }
static Vector3d V3(In& s) { return M(s, 3, 1); }
static std::string W(In& s) { std::string t; s >> t; return t == "_" ? "" : t; }

// ---- Lie -------------------------------------------------------------------------------------
static std::map<int, math::SEK3> G;
static void lie(In& s) {
  using namespace math::lie_group;
  std::string f; s >> f; Ev e("lie"); e.f("f", f);
  if (f == "skew") { Vector3d w = V3(s); e.f("x", w).f("y", skew(w)); }
  else if (f == "gamma") { int m = I(s); Vector3d w = V3(s); e.f("m", m).f("x", w).f("y", Gamma_SO3(w, m)); }
  else if (f == "exp") { Vector3d w = V3(s); e.f("x", w).f("y", Exp_SO3(w)); }
  else if (f == "lj") { Vector3d w = V3(s); e.f("x", w).f("y", LeftJacobian_SO3(w)); }
  else if (f == "rj") { Vector3d w = V3(s); e.f("x", w).f("y", RightJacobian_SO3(w)); }
  else if (f == "expk") { MatrixXd v = MX(s); e.f("x", v).f("y", Exp_SEK3(VectorXd(v))); }
  else if (f == "adj") { MatrixXd X = MX(s); e.f("x", X).f("y", Adjoint_SEK3(X)); }
  else if (f == "conj") {   // v and X; the three exponentials of the adjoint identity and the adjoint of a product
    MatrixXd v = MX(s), u = MX(s);
    MatrixXd X = Exp_SEK3(VectorXd(u)), Y = Exp_SEK3(VectorXd(v));
    MatrixXd A = Adjoint_SEK3(X);
    e.f("x", v).f("X", X).f("Y", Y).f("A", A).f("B", Adjoint_SEK3(Y)).f("AB", Adjoint_SEK3(X * Y)).f("E", Exp_SEK3(VectorXd(A * v)));
  }
  else if (f == "fact") { int n = I(s); e.f("m", n).f("y", (double)factorial(n)); }
  else exit(4);
  e.emit();
}
static void grp(In& s) {
  std::string f; s >> f; int k = I(s); Ev e("grp"); e.f("f", f).f("k", k);
  if (f == "new") { G[k] = math::SEK3(); }
  else if (f == "newX") { MatrixXd X = MX(s); e.f("x", X); G[k] = math::SEK3(X); }
  else if (f == "newRp") { MatrixXd R = M(s, 3, 3), p = M(s, 3, 1); e.f("x", R).f("p", p); G[k] = math::SEK3(R, VectorXd(p)); }
  else if (f == "newRpv") { MatrixXd R = M(s, 3, 3), p = M(s, 3, 1), v = M(s, 3, 1); e.f("x", R).f("p", p).f("v", v); G[k] = math::SEK3(R, VectorXd(p), VectorXd(v)); }
  else if (f == "setX") { MatrixXd X = MX(s); e.f("x", X); G[k].set_X(X); }
  else if (f == "setR") { MatrixXd X = M(s, 3, 3); e.f("x", X); G[k].set_R(X); }
  else if (f == "setp") { MatrixXd X = M(s, 3, 1); e.f("x", X); G[k].set_p(VectorXd(X)); }
  else if (f == "setv") { MatrixXd X = M(s, 3, 1); e.f("x", X); G[k].set_v(X); }
  else if (f == "setK") { int n = I(s); e.f("n", n); G[k].set_K(n); }
  else if (f == "mul") { int a = I(s), b = I(s); e.f("a", a).f("b", b); G[k] = G[a] * G[b]; }
  else if (f == "inv") { int a = I(s); e.f("a", a); G[k] = G[a].inverse(); }
  else exit(4);
  std::vector<std::string> all;   // every object, so that a side effect shows
  for (auto& g : G) { Ev o("o"); o.f("k", g.first).f("X", g.second.get_X()).f("R", g.second.get_R()).f("p", g.second.get_p()).f("v", g.second.get_v()).f("K", g.second.get_K()).f("dim", g.second.get_dim()); all.push_back(o.s + "}"); }
  e.raw("all", arr(all)).emit();
}
// ---- kinematics --------------------------------------------------------------------------------
static std::shared_ptr<measurement::kinematics::MiniCheetahKinematics> K; static bool Kd;
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> BV;
static BV B(In& s, int n) { BV b(n); for (int i = 0; i < n; i++) b(i) = I(s) != 0; return b; }
static void kin(In& s) {
  std::string f; s >> f; Ev e("kin"); e.f("f", f);
  if (f == "new") { K.reset(new measurement::kinematics::MiniCheetahKinematics()); Kd = false; }
  else if (f == "ctor") { MatrixXd q = M(s, 12, 1), d = M(s, 12, 1); BV c = B(s, 4); e.f("q", q).f("dq", d).f("c", c.cast<double>()); K.reset(new measurement::kinematics::MiniCheetahKinematics(q, d, c)); Kd = true; }
  else if (f == "q") { MatrixXd q = M(s, 12, 1); e.f("q", q); K->set_joint_state(q); }
  else if (f == "dq") { MatrixXd q = M(s, 12, 1); e.f("dq", q); K->set_joint_state_velocity(q); Kd = true; }
  else if (f == "c") { BV c = B(s, 4); e.f("c", c.cast<double>()); K->set_contact(c); }
  else if (f == "compute") K->ComputeKinematics();
  else if (f == "look") {}
#ifdef VP_KIN
  else if (f == "raw") { Eigen::Matrix<double, 12, 1> q = M(s, 12, 1); e.f("q", q); vp_raw(e, q); e.emit(); return; }
#endif
  else exit(4);
  Vector3d w = V3(s); e.f("w", w);
  MatrixXd h(3, 4), J(3, 12); VectorXd q(12), c(4);
  for (int i = 0; i < 4; i++) { h.col(i) = K->get_kin_pos(i); J.block(0, 3 * i, 3, 3) = K->get_J(i); c(i) = K->get_contact(i); }
  for (int i = 0; i < 12; i++) q(i) = K->get_joint_state(i);
  e.f("h", h).f("J", J).f("oc", c).f("oq", q).f("n", K->get_num_legs()).f("type", (int)K->get_type());
  if (Kd) e.f("iv", K->get_init_velocity(w));
  e.emit();
}
// ---- state container -----------------------------------------------------------------------------
using state::RobotState;
static std::map<int, std::shared_ptr<RobotState>> S; static std::map<int, std::map<int, std::shared_ptr<int>>> H;   // H: handle -> column
static void look(Ev& e, int k) {
  RobotState& r = *S[k]; const RobotState& cr = r; Ev o("st");
  o.f("X", cr.get_X()).f("th", cr.get_theta()).f("P", cr.get_P()).f("Qc", cr.get_continuous_noise_covariance()).f("t", cr.get_time()).f("tp", cr.get_propagate_time())
   .f("w", cr.get_body_angular_velocity()).f("ben", cr.get_enable_imu_bias_update()).f("slip", cr.get_slip_flag())
   .f("dX", cr.dimX()).f("dT", cr.dimTheta()).f("dP", cr.dimP()).f("dQ", cr.dimQc())
   .f("R", cr.get_rotation()).f("v", cr.get_velocity()).f("p", cr.get_position()).f("bg", cr.get_gyroscope_bias()).f("ba", cr.get_accelerometer_bias())
   .f("cR", cr.get_rotation_covariance()).f("cv", cr.get_velocity_covariance()).f("cp", cr.get_position_covariance())
   .f("type", (int)cr.get_state_type()).f("wX", cr.get_world_X()).f("wR", cr.get_world_rotation()).f("wv", cr.get_world_velocity()).f("wp", cr.get_world_position())
   .f("bX", cr.get_body_X()).f("bR", cr.get_body_rotation()).f("bv", cr.get_body_velocity()).f("bp", cr.get_body_position()).f("Xi", cr.get_Xinv());
  if (cr.dimP() >= cr.dimTheta()) o.f("cg", cr.get_gyroscope_bias_covariance()).f("ca", cr.get_accelerometer_bias_covariance());
  std::vector<std::string> vs, as, cs, ab, hs;
  for (int i = 3; i < cr.dimX(); i++) { vs.push_back(mat(cr.get_vector(i))); as.push_back(mat(r.get_aug_state(i))); if (3 + 3 * (i - 3) + 3 <= cr.dimP()) cs.push_back(mat(r.get_aug_cov(i))); }
  for (int i = 0; 9 + 3 * i <= cr.dimTheta(); i++) ab.push_back(mat(r.get_aug_bias(5 + i)));
  for (auto& h : H[k]) hs.push_back("[" + std::to_string(h.first) + "," + std::to_string(*h.second) + "]");
  o.raw("vs", arr(vs)).raw("as", arr(as)).raw("cs", arr(cs)).raw("ab", arr(ab)).raw("hs", arr(hs));
  e.raw("st", o.s + "}");
}
static void rst(In& s) {
  std::string f; s >> f; int k = I(s); Ev e("rst"); e.f("f", f).f("k", k);
  auto set3 = [&](void (RobotState::*g)(const Vector3d&)) { Vector3d v = V3(s); e.f("x", v); ((*S[k]).*g)(v); };
  auto set9 = [&](void (RobotState::*g)(const Matrix3d&)) { Matrix3d v = M(s, 3, 3); e.f("x", v); ((*S[k]).*g)(v); };
  auto setM = [&](void (RobotState::*g)(const MatrixXd&)) { MatrixXd v = MX(s); e.f("x", v); ((*S[k]).*g)(v); };
  if (f == "new") { S[k].reset(new RobotState()); H[k].clear(); }
  else if (f == "newX") { MatrixXd X = MX(s); e.f("x", X); S[k].reset(new RobotState(X)); H[k].clear(); }
  else if (f == "newXT") { MatrixXd X = MX(s), T = MX(s); e.f("x", X).f("th", T); S[k].reset(new RobotState(X, VectorXd(T))); H[k].clear(); }
  else if (f == "newXTP") { MatrixXd X = MX(s), T = MX(s), P = MX(s); e.f("x", X).f("th", T).f("P", P); S[k].reset(new RobotState(X, VectorXd(T), P)); H[k].clear(); }
  else if (f == "newG") { MatrixXd X = MX(s); e.f("x", X); math::SEK3 g(X); S[k].reset(new RobotState(g)); H[k].clear(); }
  else if (f == "newGT") { MatrixXd X = MX(s), T = MX(s); e.f("x", X).f("th", T); math::SEK3 g(X); S[k].reset(new RobotState(g, VectorXd(T))); H[k].clear(); }
  else if (f == "newGTP") { MatrixXd X = MX(s), T = MX(s), P = MX(s); e.f("x", X).f("th", T).f("P", P); math::SEK3 g(X); S[k].reset(new RobotState(g, VectorXd(T), P)); H[k].clear(); }
  else if (f == "copy") { int a = I(s); e.f("a", a); S[k].reset(new RobotState(*S[a])); H[k].clear(); }
  else if (f == "rotation") set9(&RobotState::set_rotation);
  else if (f == "velocity") set3(&RobotState::set_velocity);
  else if (f == "position") set3(&RobotState::set_position);
  else if (f == "gbias") set3(&RobotState::set_gyroscope_bias);
  else if (f == "abias") set3(&RobotState::set_accelerometer_bias);
  else if (f == "rate") set3(&RobotState::set_body_angular_velocity);
  else if (f == "X") setM(&RobotState::set_X);
  else if (f == "P") setM(&RobotState::set_P);
  else if (f == "Qc") setM(&RobotState::set_continuous_noise_covariance);
  else if (f == "theta") { MatrixXd v = MX(s); e.f("x", v); S[k]->set_theta(VectorXd(v)); }
  else if (f == "Rcov") set9(&RobotState::set_rotation_covariance);
  else if (f == "vcov") set9(&RobotState::set_velocity_covariance);
  else if (f == "pcov") set9(&RobotState::set_position_covariance);
  else if (f == "gcov") set9(&RobotState::set_gyroscope_bias_covariance);
  else if (f == "acov") set9(&RobotState::set_accelerometer_bias_covariance);
  else if (f == "time") { double t = D(s); e.f("x", t); S[k]->set_time(t); }
  else if (f == "ptime") { double t = D(s); e.f("x", t); S[k]->set_propagate_time(t); }
  else if (f == "ben") { bool b = I(s) != 0; e.f("x", b); S[k]->set_enable_imu_bias_update(b); }
  else if (f == "slip") { int b = I(s); e.f("x", b); S[k]->set_slip_flag(b); }
  else if (f == "add") {   // handle (0: none), vector, covariance seed, noise
    int h = I(s); Vector3d a = V3(s); int n = S[k]->dimP() + 3; MatrixXd P = MX(s); if (P.rows() != n) throw Off(); Matrix3d N = M(s, 3, 3);
    std::shared_ptr<int> c; if (h) { c = std::make_shared<int>(-1); }
    int col = S[k]->add_aug_state(a, P, N, c); e.f("h", h).f("x", a).f("P", P).f("N", N).f("col", col);
    if (h) { *c = col; H[k][h] = c; }
  }
  else if (f == "set") { int h = I(s), c = h > 0 ? *H[k].at(h) : -h; Vector3d a = V3(s); e.f("h", h).f("x", a); S[k]->set_aug_state(c, a); }
  else if (f == "del") { int h = I(s), c = h > 0 ? *H[k].at(h) : -h; e.f("h", h); S[k]->del_aug_state(c); if (h > 0) H[k].erase(h); }
  else if (f == "addbias") { Vector3d a = V3(s); e.f("x", a); S[k]->add_aug_bias(a); }
  else if (f == "delbias") { int c = I(s); e.f("c", c); S[k]->del_aug_bias(c); }
  else if (f == "addcov") set9(&RobotState::add_aug_cov);
  else if (f == "delcov") { int c = I(s); e.f("c", c); S[k]->del_aug_cov(c); }
  else if (f == "delnoise") { int c = I(s); e.f("c", c); S[k]->del_aug_noise_cov(c); }
  else if (f == "clear") { S[k]->clear(); H[k].clear(); }
  else if (f == "diag") { bool inv = I(s) != 0; int n = I(s); MatrixXd A = MX(s); e.f("inv", inv).f("n", n).f("x", A); if (inv) S[k]->copy_diag_Xinv(n, A); else S[k]->copy_diag_X(n, A); e.f("y", A); }
  else if (f == "look") {}
  else exit(4);
  look(e, k); e.emit();
}
// ---- measurements ----------------------------------------------------------------------------------
static std::map<int, std::shared_ptr<measurement::Measurement>> Z; static std::map<int, std::string> ZT;
template <class T> T* as(int k) { T* p = dynamic_cast<T*>(Z[k].get()); if (!p) throw Off(); return p; }
static void hdr(Ev& e, int k) {
  auto& h = Z[k]->header; std::ostringstream o; o << *Z[k];
  e.f("stamp", Z[k]->get_time()).f("hstamp", h.stamp).f("seq", std::to_string(h.seq)).f("frame", h.frame_id).f("type", (int)Z[k]->get_type()).f("print", o.str());
}
template <class T> static void imuo(Ev& e, measurement::ImuMeasurement<T>* m) {
  Eigen::Quaternion<T> q = m->get_quaternion(); Eigen::Vector4d v(q.w(), q.x(), q.y(), q.z());
  e.f("q", v).f("R", m->get_rotation_matrix().template cast<double>()).f("w", m->get_angular_velocity().template cast<double>()).f("a", m->get_lin_acc().template cast<double>());
}
template <class T> static bool imu(const std::string& f, In& s, Ev& e, measurement::ImuMeasurement<T>* m) {
  T x[4]; int n = f == "quat" ? 4 : 3; MatrixXd v(n, 1); for (int i = 0; i < n; i++) { x[i] = (T)D(s); v(i, 0) = x[i]; } e.f("x", v);
  if (f == "quat") { bool thrown = false; try { m->set_quaternion(x[0], x[1], x[2], x[3]); } catch (const std::exception&) { thrown = true; } e.f("thrown", thrown); }
  else if (f == "angvel") m->set_angular_velocity(x[0], x[1], x[2]);
  else if (f == "acc") m->set_lin_acc(x[0], x[1], x[2]);
  else return false;
  return true;
}
static void obsZ(Ev& e, int k) {
  const std::string& t = ZT[k]; e.f("kind", t);
  if (t == "imu") imuo(e, as<measurement::ImuMeasurement<double>>(k));
  else if (t == "imuf") imuo(e, as<measurement::ImuMeasurement<float>>(k));
  else if (t == "vel") { auto m = as<measurement::VelocityMeasurement<double>>(k); e.f("v", m->get_velocity()).f("mag", m->get_vel_mag()).f("unit", m->get_vel_unit_vec()); }
  else if (t == "velf") { auto m = as<measurement::VelocityMeasurement<float>>(k); e.f("v", m->get_velocity().cast<double>()).f("mag", m->get_vel_mag()).f("unit", m->get_vel_unit_vec().cast<double>()); }
  else if (t == "ang") { auto m = as<measurement::AngularVelocityMeasurement<double>>(k); e.f("v", m->get_angular_velocity()).f("mag", m->get_angular_velocity_magnitude()).f("unit", m->get_ang_vel_unit_vec()); }
  else if (t == "angf") { auto m = as<measurement::AngularVelocityMeasurement<float>>(k); e.f("v", m->get_angular_velocity().cast<double>()).f("mag", m->get_angular_velocity_magnitude()).f("unit", m->get_ang_vel_unit_vec().cast<double>()); }
  else if (t == "joint") { auto m = as<measurement::JointStateMeasurement<double>>(k); e.f("pos", m->get_joint_pos()).f("vel", m->get_joint_vel()).f("eff", m->get_joint_effort()); }
  else if (t == "contact") { auto m = as<measurement::ContactMeasurement>(k); e.f("c", m->get_contact().cast<double>()); }
  else if (t == "odom") { auto m = as<measurement::OdomMeasurement>(k); e.f("T", m->get_transformation()); }
  else if (t == "leg") { auto m = as<measurement::kinematics::MiniCheetahKinematics>(k); VectorXd q(12), c(4); for (int i = 0; i < 12; i++) q(i) = m->get_joint_state(i); for (int i = 0; i < 4; i++) c(i) = m->get_contact(i); e.f("pos", q).f("c", c); }
}
static void mea(In& s) {
  std::string f; s >> f; int k = I(s); Ev e("mea"); e.f("f", f).f("k", k);
  if (f == "new") {
    std::string t; s >> t; e.f("t", t); ZT[k] = t;
    using namespace measurement;
    if (t == "base") Z[k].reset(new Measurement()); else if (t == "typed") { int n = I(s); e.f("n", n); Z[k].reset(new Measurement((MeasurementType)n)); }
    else if (t == "imu") Z[k].reset(new ImuMeasurement<double>()); else if (t == "imuf") Z[k].reset(new ImuMeasurement<float>());
    else if (t == "vel") Z[k].reset(new VelocityMeasurement<double>()); else if (t == "velf") Z[k].reset(new VelocityMeasurement<float>());
    else if (t == "ang") Z[k].reset(new AngularVelocityMeasurement<double>()); else if (t == "angf") Z[k].reset(new AngularVelocityMeasurement<float>());
    else if (t == "joint") Z[k].reset(new JointStateMeasurement<double>()); else if (t == "contact") Z[k].reset(new ContactMeasurement());
    else if (t == "odom") Z[k].reset(new OdomMeasurement()); else if (t == "leg") Z[k].reset(new measurement::kinematics::MiniCheetahKinematics());
    else exit(4);
  }
  else if (f == "newodom") { MatrixXd p = M(s, 3, 1), q = M(s, 4, 1); std::string sq; s >> sq; double t = D(s); std::string fr = W(s); ZT[k] = "odom";
    e.f("p", p).f("q", q).f("sq", sq).f("st", t).f("fr", fr);
    Z[k].reset(new measurement::OdomMeasurement(Vector3d(p), Eigen::Quaterniond(q(0), q(1), q(2), q(3)), std::stoull(sq), t, fr)); }
  else if (f == "newleg") { MatrixXd q = M(s, 12, 1), d = M(s, 12, 1); BV c = B(s, 4); e.f("q", q).f("c0", c.cast<double>()); ZT[k] = "leg"; Z[k].reset(new measurement::kinematics::MiniCheetahKinematics(q, d, c)); }
  else if (f == "time") { double t = D(s); e.f("x", t); Z[k]->set_time(t); }
  else if (f == "header") { std::string sq; s >> sq; double t = D(s); std::string fr = W(s); e.f("sq", sq).f("st", t).f("fr", fr); Z[k]->set_header(std::stoull(sq), t, fr); }
  else if (f == "header2") { int a = I(s); e.f("src", a); Z[k]->set_header(Z[a]->header); }
  else if (f == "quat" || f == "angvel" || f == "acc") { if (ZT[k] == "imu") imu(f, s, e, as<measurement::ImuMeasurement<double>>(k)); else imu(f, s, e, as<measurement::ImuMeasurement<float>>(k)); }
  else if (f == "vel") { Vector3d v = V3(s); const std::string& t = ZT[k];
    if (t == "velf" || t == "angf") v = v.cast<float>().cast<double>();
    e.f("x", v);
    if (t == "vel") as<measurement::VelocityMeasurement<double>>(k)->set_velocity(v(0), v(1), v(2)); else if (t == "velf") as<measurement::VelocityMeasurement<float>>(k)->set_velocity(v(0), v(1), v(2));
    else if (t == "ang") as<measurement::AngularVelocityMeasurement<double>>(k)->set_angular_velocity(v(0), v(1), v(2)); else as<measurement::AngularVelocityMeasurement<float>>(k)->set_angular_velocity(v(0), v(1), v(2)); }
  else if (f == "joints") { MatrixXd p = MX(s), v = MX(s), u = MX(s); e.f("p", p).f("v0", v).f("u", u); as<measurement::JointStateMeasurement<double>>(k)->set_joint_state(VectorXd(p), VectorXd(v), VectorXd(u)); }
  else if (f == "encoders") { MatrixXd p = MX(s); e.f("p", p); as<measurement::JointStateMeasurement<double>>(k)->set_encoders(VectorXd(p)); }
  else if (f == "contacts") { int n = I(s); BV c = B(s, n); e.f("x", c.cast<double>()); if (ZT[k] == "leg") as<measurement::kinematics::MiniCheetahKinematics>(k)->set_contact(c); else as<measurement::ContactMeasurement>(k)->set_contact(c); }
  else if (f == "legq") { MatrixXd q = M(s, 12, 1); e.f("x", q); as<measurement::kinematics::MiniCheetahKinematics>(k)->set_joint_state(q); }
  else if (f == "trans") { Vector3d v = V3(s); e.f("x", v); as<measurement::OdomMeasurement>(k)->set_translation(v); }
  else if (f == "rot") { MatrixXd q = M(s, 4, 1); e.f("x", q); as<measurement::OdomMeasurement>(k)->set_rotation(Eigen::Quaterniond(q(0), q(1), q(2), q(3))); }
  else if (f == "pose") as<measurement::OdomMeasurement>(k)->set_transformation();
  else exit(4);
  hdr(e, k); obsZ(e, k); e.emit();
}
int main(int, char** v) {
  std::ifstream in(v[1]); std::string l; bool off = false;
  while (std::getline(in, l)) {
    In s(l); std::string c; if (!(s >> c)) continue;
    if (c == "trace") { off = false; std::string n; s >> n; G.clear(); K.reset(); S.clear(); H.clear(); Z.clear(); ZT.clear(); Ev("begin").f("name", n).emit(); }
    else if (off) continue;
    else try {
      if (c == "lie") lie(s); else if (c == "grp") grp(s); else if (c == "kin") kin(s); else if (c == "rst") rst(s); else if (c == "mea") mea(s);
      else return 4;
    } catch (const Off&) { off = true; Ev("crash").f("why", "an object of another shape than the calls before it prescribe").emit(); }
  }
  Ev("end").emit(); return 0;
}
