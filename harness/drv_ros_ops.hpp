// Operations of the ROS wrappers, for drv_sched.cpp compiled with VP_ROS against the stand-ins of harness/ros.
#pragma once
static shared_ptr<ros_wrapper::ROSSubscriber> rsub; static shared_ptr<ros_wrapper::ROSPublisher> rpub; static ros::NodeHandle* nh;
static RobotStateQueuePtr rq; static shared_ptr<std::mutex> rm; static int npub, npath; static vector<string> path_was;
static void header(In& s, std_msgs::Header& h) { string q, a, b; s >> q >> a >> b >> h.frame_id; if (h.frame_id == "~") h.frame_id = ""; h.seq = strtoul(q.c_str(), nullptr, 10); h.stamp.sec = strtoul(a.c_str(), nullptr, 10); h.stamp.nsec = strtoul(b.c_str(), nullptr, 10); }
static double nx(In& s) { string w; s >> w; return strtod(w.c_str(), nullptr); }
static Eigen::VectorXd nv(In& s, int n) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = nx(s); return v; }
static Ev& head(Ev& e, const std_msgs::Header& h) { return e.f("sq", (double)h.seq).f("sec", (double)h.stamp.sec).f("nsec", (double)h.stamp.nsec).f("fr", h.frame_id); }
static void xyz(geometry_msgs::Vector3& a, const Eigen::VectorXd& v, int k = 0) { a.x = v(k); a.y = v(k + 1); a.z = v(k + 2); }
template <class M> static void send(bool now, const string& t, shared_ptr<M> m) { vpros::deliver(now, t, "", &typeid(M), nullptr, m, nullptr); }
static void message(In& s) {   // kind of message, at once or through the spinner, topic(s), contents
  vps_quiet(1); string how, k, t, t2; s >> k >> how >> t; bool now = how == "d"; Ev e("msg"); e.f("k", k).f("topic", t);
  if (k == "imu" || k == "fimu") {
    if (k == "fimu") s >> t2;
    auto m = std::make_shared<sensor_msgs::Imu>(); header(s, m->header); Eigen::VectorXd w = nv(s, 3), a = nv(s, 3), q = nv(s, 4); xyz(m->angular_velocity, w); xyz(m->linear_acceleration, a);
    m->orientation.w = q(0); m->orientation.x = q(1); m->orientation.y = q(2); m->orientation.z = q(3); head(e, m->header).f("w", w).f("a", a).f("q", q).f("topic2", t2);
    shared_ptr<geometry_msgs::Vector3Stamped> o; if (k == "fimu") { o = std::make_shared<geometry_msgs::Vector3Stamped>(); header(s, o->header); Eigen::VectorXd x = nv(s, 3); xyz(o->vector, x); e.f("o", x); }
    vps_quiet(-1); say(e); if (k == "imu") send(now, t, m); else vpros::deliver(now, t, t2, &typeid(sensor_msgs::Imu), &typeid(geometry_msgs::Vector3Stamped), m, o); return; }
  if (k == "vel") { auto m = std::make_shared<geometry_msgs::TwistStamped>(); header(s, m->header); Eigen::VectorXd v = nv(s, 6); xyz(m->twist.linear, v); xyz(m->twist.angular, v, 3); head(e, m->header).f("v", v.head(3)); vps_quiet(-1); say(e); send(now, t, m); return; }
  if (k == "velc") { auto m = std::make_shared<geometry_msgs::TwistWithCovarianceStamped>(); header(s, m->header); Eigen::VectorXd v = nv(s, 6); xyz(m->twist.twist.linear, v); xyz(m->twist.twist.angular, v, 3); for (int i = 0; i < 36; ++i) m->twist.covariance[i] = i + .5; head(e, m->header).f("v", v.head(3)); vps_quiet(-1); say(e); send(now, t, m); return; }
  if (k == "joint") { auto m = std::make_shared<sensor_msgs::JointState>(); header(s, m->header); int n, p; s >> n >> p; Eigen::VectorXd v = nv(s, n), x = nv(s, p); m->velocity.assign(v.data(), v.data() + n); m->position.assign(x.data(), x.data() + p); head(e, m->header).f("v", v); vps_quiet(-1); say(e); send(now, t, m); return; }
  if (k == "odom") { auto m = std::make_shared<nav_msgs::Odometry>(); header(s, m->header); Eigen::VectorXd p = nv(s, 3), q = nv(s, 4), v = nv(s, 6); auto& P = m->pose.pose; P.position.x = p(0); P.position.y = p(1); P.position.z = p(2); P.orientation.w = q(0); P.orientation.x = q(1); P.orientation.y = q(2); P.orientation.z = q(3);
    xyz(m->twist.twist.linear, v); xyz(m->twist.twist.angular, v, 3); head(e, m->header).f("p", p).f("q", q); vps_quiet(-1); say(e); send(now, t, m); return; }
  if (k == "leg") { s >> t2; auto c = std::make_shared<custom_sensor_msgs::ContactArray>(); header(s, c->header); Eigen::VectorXd x = nv(s, 4); for (int i = 0; i < 4; ++i) { custom_sensor_msgs::Contact y; y.id = i; y.indicator = x(i) != 0; c->contacts.push_back(y); }
    auto m = std::make_shared<sensor_msgs::JointState>(); header(s, m->header); Eigen::VectorXd p = nv(s, 12), v = nv(s, 12); m->velocity.assign(v.data(), v.data() + 12); m->position.assign(p.data(), p.data() + 12);
    head(e, c->header).f("c", x).f("p", p).f("v", v).f("topic2", t2); vps_quiet(-1); say(e); vpros::deliver(now, t, t2, &typeid(custom_sensor_msgs::ContactArray), &typeid(sensor_msgs::JointState), c, m); return; }
  _exit(4);
}
static string qt(const geometry_msgs::Quaternion& q) { return mat(Eigen::Vector4d(q.w, q.x, q.y, q.z)); }
static string pt(const geometry_msgs::Point& p) { return mat(Eigen::Vector3d(p.x, p.y, p.z)); }
static void published(const string& topic, const std::type_info& ty, const void* m) {
  Ev e("pub"); e.f("topic", topic);
  if (ty == typeid(geometry_msgs::PoseWithCovarianceStamped)) { auto& p = *(const geometry_msgs::PoseWithCovarianceStamped*)m; ++npub; Eigen::Matrix<double, 6, 6> C; for (int i = 0; i < 36; ++i) C(i / 6, i % 6) = p.pose.covariance[i]; e.f("k", "pose"); head(e, p.header).raw("p", pt(p.pose.pose.position)).raw("q", qt(p.pose.pose.orientation)).f("C", C); }
  else if (ty == typeid(nav_msgs::Path)) { auto& p = *(const nav_msgs::Path*)m; e.f("k", "path"); npath = (int)p.poses.size(); head(e, p.header); vector<string> l; for (auto& x : p.poses) { Ev y("pose"); head(y, x.header).raw("p", pt(x.pose.position)).raw("q", qt(x.pose.orientation)); l.push_back(y.s + "}"); }
    if (scale) {   // long paths: how many, whether they begin with the last path, and what came after it
      bool pre = l.size() >= path_was.size() && std::equal(path_was.begin(), path_was.end(), l.begin()); e.f("n", (int)l.size()).f("pre", pre); vector<string> tail(pre ? l.begin() + path_was.size() : l.begin(), l.end()); path_was = l; if (!l.empty()) e.raw("end", l.back()); l = tail; }
    e.raw("poses", arr(l)); }
  else e.f("k", "other");
  vps_text(q_text(e).c_str());
}
static bool ros_op(const string& f, const string& line, In& s) {
  if (f == "msg") { message(s); return true; }
  if (f == "rdrain") { int k = 0; while (k < 100000 && vpros::busy()) { vps_point(); ++k; } Ev e("drained"); e.f("ok", k < 100000); say(e); return true; }
  if (f == "rpubd") { int n, m; s >> n >> m; int k = 0; while (k < 20000 + 100 * n && (npub < n || npath < m)) { vps_point(); ++k; } Ev e("pubdone"); e.f("n", n); say(e); return true; }
  if (f == "rok") { ros::shutdown(); Ev e("rok"); say(e); return true; }
  if (f == "state") {   // a state put in the publisher's queue
    vps_quiet(1); double t = nx(s); Eigen::VectorXd q = nv(s, 4), v = nv(s, 3), p = nv(s, 3); long seed; int aug; s >> seed >> aug; auto st = std::make_shared<state::RobotState>(); int d = 15 + 3 * aug; vp::Rng r(seed); Eigen::MatrixXd A(d, d);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) A(i, j) = r.d(); 
    st->set_rotation(Eigen::Quaterniond(q(0), q(1), q(2), q(3)).toRotationMatrix()); st->set_velocity(v); st->set_position(p); Eigen::MatrixXd N = Eigen::MatrixXd::Identity(3, 3); for (int i = 0; i < aug; ++i) { Eigen::MatrixXd Pa = Eigen::MatrixXd::Identity(18 + 3 * i, 18 + 3 * i); st->add_aug_state(Eigen::Vector3d(r.d(), r.d(), r.d()), Pa, Eigen::Matrix3d::Identity(), std::make_shared<int>(0)); } st->set_P(A * A.transpose()); st->set_time(t);
    vps_quiet(-1); rm->lock(); rq->push(st); rm->unlock(); return true; }
  return false;
}
static Eigen::VectorXd nums_of(In& s) { vector<double> v = nums(s); return Eigen::Map<Eigen::VectorXd>(v.data(), v.size()); }
static void src(const string& k, const string& q, const string& q2, const string& t, const string& t2, const Eigen::VectorXd& x) { Ev e("src"); e.f("k", k).f("q", q).f("q2", q2).f("topic", t).f("topic2", t2).f("x", x); say(e); }
static bool ros_do(const string& f, In& s) {
  string q, q2, t, t2;
  if (f == "rsub") { vpros::bus().clear(); vpros::bus().pub = nullptr; rsub = std::make_shared<ros_wrapper::ROSSubscriber>(nh); }
  else if (f == "rstart") rsub->StartSubscribingThread();
  else if (f == "rend") { rsub.reset(); Ev e("unsub"); say(e); }
  else if (f == "rimu") { s >> q >> t; src("imu", q, "", t, "", Eigen::VectorXd()); auto r = rsub->AddIMUSubscriber(t); iq[q] = new Q<ImuM>(q, r.first, r.second); }
  else if (f == "rfimu") { s >> q >> t >> t2; src("fimu", q, "", t, t2, Eigen::VectorXd()); auto r = rsub->AddFetchIMUSubscriber(t, t2); iq[q] = new Q<ImuM>(q, r.first, r.second); }
  else if (f == "rvel") { s >> q >> t; src("vel", q, "", t, "", Eigen::VectorXd()); auto r = rsub->AddVelocitySubscriber(t); vq[q] = new Q<VelM>(q, r.first, r.second); }
  else if (f == "rvelc") { s >> q >> t; src("velc", q, "", t, "", Eigen::VectorXd()); auto r = rsub->AddVelocityWithCovarianceSubscriber(t); vq[q] = new Q<VelM>(q, r.first, r.second); }
  else if (f == "rdd1") { s >> q >> t; auto x = nums_of(s); src("dd1", q, "", t, "", x); auto r = rsub->AddDifferentialDriveVelocitySubscriber(t, x(0)); vq[q] = new Q<VelM>(q, r.first, r.second); }
  else if (f == "rdd2") { s >> q >> q2 >> t; auto x = nums_of(s); src("dd2", q, q2, t, "", x); auto r = rsub->AddDifferentialDriveVelocitySubscriber(t, x(0), x(1)); vq[q] = new Q<VelM>(q, std::get<0>(r), std::get<1>(r)); aq[q2] = new Q<AngM>(q2, std::get<2>(r), std::get<3>(r)); }
  else if (f == "rfl") { s >> q >> t; auto x = nums_of(s); src("fl", q, "", t, "", x); auto r = rsub->AddDifferentialDriveLinearVelocitySubscriber_Fetch(t, x(0)); vq[q] = new Q<VelM>(q, r.first, r.second); }
  else if (f == "rfa") { s >> q >> q2 >> t; auto x = nums_of(s); src("fa", q, q2, t, "", x); auto r = rsub->AddDifferentialDriveVelocitySubscriber_Fetch(t, x(0), x(1)); vq[q] = new Q<VelM>(q, std::get<0>(r), std::get<1>(r)); aq[q2] = new Q<AngM>(q2, std::get<2>(r), std::get<3>(r)); }
  else if (f == "rodom") { s >> q >> t; auto x = nums_of(s); src("odom", q, "", t, "", x); vector<double> p(x.data(), x.data() + 3), r4(x.data() + 3, x.data() + 7); auto r = rsub->AddOdom2VelocityCallback(t, p, r4); vq[q] = new Q<VelM>(q, r.first, r.second); }
  else if (f == "rmc") { s >> q >> t >> t2; src("leg", q, "", t, t2, Eigen::VectorXd()); auto r = rsub->AddMiniCheetahKinematicsSubscriber(t, t2); lq[q] = new Q<LegM>(q, r.first, r.second); }
  else if (f == "rstates") { rq = std::make_shared<std::queue<shared_ptr<state::RobotState>>>(); rm = std::make_shared<std::mutex>(); outq = new Q<state::RobotState>("out", rq, rm); }
  else if (f == "rest") { rq = est->get_robot_state_queue_ptr(); rm = est->get_robot_state_queue_mutex_ptr(); }
  else if (f == "rpub" || f == "rpubc") {   // the settings the publisher must follow come first
    string pt_, ph, fr; s >> q >> pt_ >> ph >> fr; auto x = nums_of(s); Ev e("pubc"); e.f("pose", pt_).f("path", ph).f("fr", fr).f("x", x); say(e); npub = npath = 0; path_was.clear();
    vpros::bus().pub = published; vpros::bus().rate = [](double hz) { Ev r("rate"); r.f("hz", hz); vps_text(q_text(r).c_str()); }; vpros::bus().ok = true;
    if (f == "rpub") rpub = std::make_shared<ros_wrapper::ROSPublisher>(nh, rq, rm, q == "1"); else rpub = std::make_shared<ros_wrapper::ROSPublisher>(nh, rq, rm, q); }
  else if (f == "oclear") { rm->lock(); while (!rq->empty()) rq->pop(); rm->unlock(); }     // what clearing the estimator does to its output
  else if (f == "rpstart") rpub->StartPublishingThread();
  else if (f == "rpend") { rpub.reset(); Ev e("pubend"); say(e); }
  else return false;
  return true;
}
