// Stand-in for the parts of ROS the wrappers use: messages, time, a bus that delivers what a script says, publishers that record.
#pragma once
#include <atomic>
#include <array>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include "vp_sched.hpp"
namespace ros {
struct Time { uint32_t sec = 0, nsec = 0;
  Time() {} Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {} explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) { int64_t s = (int64_t)std::floor(t); if (t < 0 || s > 4294967295LL) throw std::runtime_error("Time is out of dual 32-bit range"); sec = (uint32_t)s; nsec = (uint32_t)std::round((t - sec) * 1e9); sec += nsec / 1000000000ul; nsec %= 1000000000ul; return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now() { return Time(); } };
}
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
#define VP_MSG(T) typedef boost::shared_ptr<T> T##Ptr; typedef boost::shared_ptr<const T> T##ConstPtr;
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; }; struct Point { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Twist { Vector3 linear, angular; }; struct TwistWithCovariance { Twist twist; std::array<double, 36> covariance{}; };
struct TwistStamped { std_msgs::Header header; Twist twist; }; struct TwistWithCovarianceStamped { std_msgs::Header header; TwistWithCovariance twist; };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; };
struct Pose { Point position; Quaternion orientation; }; struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; };
struct PoseStamped { std_msgs::Header header; Pose pose; }; struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; };
VP_MSG(TwistStamped) VP_MSG(TwistWithCovarianceStamped) VP_MSG(Vector3Stamped) VP_MSG(PoseStamped) VP_MSG(PoseWithCovarianceStamped) VP_MSG(Twist)
}
namespace sensor_msgs {
struct Imu { std_msgs::Header header; geometry_msgs::Quaternion orientation; std::array<double, 9> orientation_covariance{}; geometry_msgs::Vector3 angular_velocity; std::array<double, 9> angular_velocity_covariance{}; geometry_msgs::Vector3 linear_acceleration; std::array<double, 9> linear_acceleration_covariance{}; };
struct JointState { std_msgs::Header header; std::vector<std::string> name; std::vector<double> position, velocity, effort; };
VP_MSG(Imu) VP_MSG(JointState)
}
namespace nav_msgs {
struct Odometry { std_msgs::Header header; std::string child_frame_id; geometry_msgs::PoseWithCovariance pose; geometry_msgs::TwistWithCovariance twist; };
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
VP_MSG(Odometry) VP_MSG(Path)
}
namespace custom_sensor_msgs { struct Contact { int32_t id = 0; uint8_t indicator = 0; }; struct ContactArray { std_msgs::Header header; std::vector<Contact> contacts; }; VP_MSG(Contact) VP_MSG(ContactArray) }
namespace vpros {
// one subscription: a topic (two for synchronised pairs), what to call, and whether a call is under way (ROS never overlaps them)
struct Sub { std::string topic, topic2; const std::type_info *type, *type2 = nullptr; std::function<void(const void*, const void*)> call; std::atomic<bool> busy{false}; std::atomic<bool> alive{true}; std::atomic<int> order{0}; uint32_t hold = 0; };
struct Job { std::shared_ptr<Sub> sub; std::shared_ptr<void> a, b; };
// what ROS itself synchronises: a message is handed over with everything its sender and the subscription's maker did before
struct Bus { std::vector<std::shared_ptr<Sub>> subs; std::deque<Job> jobs; std::atomic<bool> ok{true}; std::function<void(const std::string& topic, const std::type_info& t, const void* m)> pub; std::function<void(double)> rate; void clear() { subs.clear(); jobs.clear(); ok = true; } };
inline Bus& bus() { static Bus b; return b; }
// every subscription of this topic and type gets the message: at once, or when a spinner thread takes it
inline void deliver(bool now, const std::string& t, const std::string& t2, const std::type_info* ty, const std::type_info* ty2, std::shared_ptr<void> a, std::shared_ptr<void> b);
// the calls of one subscription are ordered, as the callback queue of ROS orders them
inline void run(Job& j) { j.sub->order.fetch_add(1); if (j.sub->alive) j.sub->call(j.a.get(), j.b.get()); }
inline bool one() {     // take a job whose subscription is not busy and do it
  Bus& b = bus(); Job j; bool got = false;
  vps_quiet(1);
  for (size_t i = 0; i < b.jobs.size(); ++i) { bool before = false; for (size_t k = 0; k < i; ++k) if (b.jobs[k].sub == b.jobs[i].sub) before = true;
    if (before) continue; Job& c = b.jobs[i]; vps_quiet(-1); bool was = c.sub->busy.exchange(true); vps_quiet(1);
    if (!was) { j = c; b.jobs.erase(b.jobs.begin() + i); got = true; break; } }
  vps_quiet(-1);
  if (!got) return false;
  run(j); j.sub->busy.store(false); return true;
}
}
namespace vpros {
// more waiting than the subscription asked ROS to keep: the oldest is lost
inline void full(const std::shared_ptr<Sub>& s) { auto& q = bus().jobs; size_t n = 0, first = q.size(); for (size_t i = q.size(); i-- > 0;) if (q[i].sub == s) { ++n; first = i; } if (n >= s->hold) q.erase(q.begin() + first); }
inline void deliver(bool now, const std::string& t, const std::string& t2, const std::type_info* ty, const std::type_info* ty2, std::shared_ptr<void> a, std::shared_ptr<void> b) {
  vps_quiet(1); std::vector<std::shared_ptr<Sub>> to;
  for (auto& s : bus().subs) if (s->topic == t && s->topic2 == t2 && *s->type == *ty && (!ty2 == !s->type2) && (!ty2 || *s->type2 == *ty2)) to.push_back(s);
  std::vector<Job> js; for (auto& s : to) { Job j; j.sub = s; j.a = a; j.b = b; js.push_back(j); if (!now) { if (s->hold) full(s); bus().jobs.push_back(j); vps_quiet(-1); s->order.fetch_add(1); vps_quiet(1); } }
  vps_quiet(-1);
  if (now) for (auto& j : js) run(j); else vps_point();
}
inline bool busy() { vps_quiet(1); bool r = !bus().jobs.empty(); for (auto& s : bus().subs) if (s->busy.load(std::memory_order_relaxed)) r = true; vps_quiet(-1); return r; }
}
namespace ros {
struct Subscriber { std::shared_ptr<void> h; void shutdown() { h.reset(); } std::string getTopic() const { return ""; } };
struct Publisher { std::string topic; template <class M> void publish(const M& m) const { vps_quiet(1); if (vpros::bus().pub) vpros::bus().pub(topic, typeid(M), &m); vps_quiet(-1); vps_point(); } };
struct NodeHandle {
  NodeHandle(const std::string& = "") {}
  template <class M> Subscriber subscribe(const std::string& topic, uint32_t hold, const boost::function<void(const boost::shared_ptr<const M>&)>& f) {
    auto s = std::make_shared<vpros::Sub>(); s->topic = topic; s->hold = hold; s->type = &typeid(M); s->call = [f](const void* a, const void*) { f(boost::make_shared<const M>(*(const M*)a)); };
    vpros::bus().subs.push_back(s); Subscriber r; r.h = std::shared_ptr<void>(nullptr, [s](void*) { s->alive = false; }); return r; }
  template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false) { Publisher p; p.topic = topic; return p; }
};
inline bool ok() { return vpros::bus().ok; }
inline void shutdown() { vpros::bus().ok = false; }
inline void spinOnce() { vps_point(); }
inline void waitForShutdown() { while (ok()) vps_point(); }
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
struct Duration { double t; explicit Duration(double x = 0) : t(x) {} bool sleep() const { vps_point(); return true; } };
struct Rate { explicit Rate(double hz) { vps_quiet(1); if (vpros::bus().rate) vpros::bus().rate(hz); vps_quiet(-1); } bool sleep() { vps_point(); return true; } };
struct AsyncSpinner { int n; std::vector<std::thread> t; std::atomic<bool> on{true}; explicit AsyncSpinner(int k) : n(k ? k : 4) {}
  void start() { for (int i = 0; i < n; ++i) t.emplace_back([this] { while (on && ok()) if (!vpros::one()) vps_point(); }); }
  void stop() { on = false; for (auto& x : t) x.join(); t.clear(); } ~AsyncSpinner() { stop(); } };
struct MultiThreadedSpinner { explicit MultiThreadedSpinner(int = 0) {} void spin() { AsyncSpinner s(4); s.start(); waitForShutdown(); } };
inline void spin() { while (ok()) if (!vpros::one()) vps_point(); }
}
namespace message_filters {
template <class M> struct Subscriber { std::string topic; typedef M Msg; Subscriber() {} Subscriber(ros::NodeHandle&, const std::string& t, uint32_t) : topic(t) {} void subscribe(ros::NodeHandle&, const std::string& t, uint32_t) { topic = t; } };
namespace sync_policies {
template <class A, class B> struct ApproximateTime { typedef A M1; typedef B M2; explicit ApproximateTime(uint32_t) {} };
template <class A, class B> struct ExactTime { typedef A M1; typedef B M2; explicit ExactTime(uint32_t) {} };
}
template <class P> struct Synchronizer { typedef typename P::M1 A; typedef typename P::M2 B; std::string ta, tb; std::vector<std::shared_ptr<vpros::Sub>> s;
  template <class F1, class F2> Synchronizer(const P&, F1& a, F2& b) : ta(a.topic), tb(b.topic) {}
  template <class F1, class F2> Synchronizer(F1& a, F2& b, uint32_t) : ta(a.topic), tb(b.topic) {}
  ~Synchronizer() { for (auto& x : s) x->alive = false; }
  void registerCallback(const boost::function<void(const boost::shared_ptr<const A>&, const boost::shared_ptr<const B>&)>& f) {
    auto x = std::make_shared<vpros::Sub>(); x->topic = ta; x->topic2 = tb; x->type = &typeid(A); x->type2 = &typeid(B);
    x->call = [f](const void* a, const void* b) { f(boost::make_shared<const A>(*(const A*)a), boost::make_shared<const B>(*(const B*)b)); };
    vpros::bus().subs.push_back(x); s.push_back(x); }
};
}
