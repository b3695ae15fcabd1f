// Drives the applications of msf_updates (sensor handlers, managers, ROS input and output).
// APP: 1 pose, 2 position, 3 spherical, 4 pose_pressure, 5 position_pose.
// Record mode (-DREC): the filter core only records what the handlers hand over.
// Units: see spec/App.tla.
#include <iostream>
#include <set>
#include <map>
#include <memory>
#include <boost/weak_ptr.hpp>
#include <ros/ros.h>
#include "common.h"
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <sensor_msgs/NavSatFix.h>
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanagerROS.h>
#include <msf_core/msf_IMUHandler_ROS.h>
#if APP == 1
#include "pose_msf/msf_statedef.hpp"
#elif APP == 2
#include "position_msf/msf_statedef.hpp"
#elif APP == 3
#include "spherical_msf/msf_statedef.hpp"
#elif APP == 4
#include "pose_pressure_msf/msf_statedef.hpp"
#else
#include "position_pose_msf/msf_statedef.hpp"
#endif
typedef msf_updates::EKFState St;
typedef boost::shared_ptr<St> StPtr;
const double BASE = 1000.0;  // seconds; every stamp is relative to it
std::vector<std::string> ev;
#ifdef REC
std::string recMeas(const boost::shared_ptr<msf_core::MSF_MeasurementBase<St> >& m);
std::string vec(const double* x, int n, double s);
inline long long us(double t) { return hc::rnd(t - BASE, 1e6); }
namespace msf_core {
template <> void MSF_Core<St>::AddMeasurement(shared_ptr<MSF_MeasurementBase<St> > m) { ev.push_back(recMeas(m)); }
template <> void MSF_Core<St>::ProcessIMU(const Vector3& a, const Vector3& w, const double& t, size_t seq) {
  ev.push_back(hc::J().str("k", "imu").n("t", us(t)).n("seq", seq).raw("a", vec(a.data(), 3, 64)).raw("w", vec(w.data(), 3, 64)).done());
}
template <> void MSF_Core<St>::ProcessExternallyPropagatedState(const Vector3& a, const Vector3& w, const Vector3& p, const Vector3& v,
    const Quaternion& q, bool prop, const double& t, size_t seq) {
  double qq[4] = {q.w(), q.x(), q.y(), q.z()};
  ev.push_back(hc::J().str("k", "ext").n("t", us(t)).n("seq", seq).n("prop", prop).raw("a", vec(a.data(), 3, 64)).raw("w", vec(w.data(), 3, 64))
      .raw("p", vec(p.data(), 3, 64)).raw("v", vec(v.data(), 3, 64)).raw("q", vec(qq, 4, 5184)).done());
}
}
#else
inline long long us(double t) { return hc::rnd(t - BASE, 1e6); }
#endif
std::string vec(const double* x, int n, double s) {
  std::vector<std::string> o;
  for (int i = 0; i < n; ++i) {
    double y = x[i] * s;
    if (!std::isfinite(y)) o.push_back("2000000001");
    else if (fabs(y) < 1e8 && fabs(y - std::round(y)) > 0.02) o.push_back("2000000003");  // not in the unit
    else o.push_back(std::to_string(hc::rnd(y, 1)));
  }
  return hc::arr(o);
}
template <class D> std::string mvec(const Eigen::MatrixBase<D>& m, double s) {  // row major
  std::vector<double> x;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) x.push_back(m(i, j));
  return vec(x.data(), x.size(), s);
}
inline std::string rot(const Eigen::Quaterniond& q) { return mvec(q.normalized().toRotationMatrix(), 9); }
inline long norm(const Eigen::Quaterniond& q) { return hc::rnd(q.norm(), 1000); }

#if APP == 1
#include "pose_msf/pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager AppMgr;
typedef msf_updates::SinglePoseSensorConfig Cfg;
#define CFGNS "~pose_sensor"
#define HAS_POSE 1
#elif APP == 2
#include "position_msf/position_sensormanager.h"
typedef msf_position_sensor::PositionSensorManager AppMgr;
typedef msf_updates::SinglePositionSensorConfig Cfg;
#define CFGNS "~position_sensor"
#define HAS_POSITION 1
#elif APP == 3
#include "spherical_msf/spherical_sensormanager.h"
typedef msf_spherical_position::SensorManager AppMgr;
typedef msf_updates::SphericalPositionSensorConfig Cfg;
#define CFGNS "~spherical_position_sensor"
#define HAS_SPH 1
#elif APP == 4
#include "pose_pressure_msf/pose_pressure_sensormanager.h"
typedef msf_pose_pressure_sensor::PosePressureSensorManager AppMgr;
typedef msf_updates::PosePressureSensorConfig Cfg;
#define CFGNS "~pose_pressure_sensor"
#define HAS_POSE 1
#define HAS_PRESS 1
#else
#include "position_pose_msf/position_pose_sensormanager.h"
typedef msf_updates::PositionPoseSensorManager AppMgr;
typedef msf_updates::PositionPoseSensorConfig Cfg;
#define CFGNS "~position_pose_sensor"
#define HAS_POSE 1
#define HAS_POSITION 1
#endif
typedef St::StateDefinition_T D;

// ---------------------------------------------------------------- measurements
#ifdef REC
std::string recMeas(const boost::shared_ptr<msf_core::MSF_MeasurementBase<St> >& m) {
  hc::J j;
  j.str("k", "meas").str("type", m->Type()).n("sid", m->sensorID_).n("abs", m->isabsolute_).n("t", us(m->time));
  j.n("mah", m->enable_mah_outlier_rejection_).n("thr", hc::rnd(m->mah_threshold_, 1024));
  std::vector<std::string> fx;
#ifdef HAS_POSE
  typedef msf_updates::pose_measurement::PoseMeasurement<> PM;
  if (PM* p = dynamic_cast<PM*>(m.get())) {
    int f = p->fixedstates_;
    int idx[5] = {D::L, D::p_ic, D::q_ic, D::p_wv, D::q_wv}, rest = f;
    for (int i = 0; i < 5; ++i) { fx.push_back((f >> idx[i]) & 1 ? "1" : "0"); rest &= ~(1 << idx[i]); }
    fx.push_back(rest ? "1" : "0");
    j.raw("z", mvec(p->z_p_.transpose(), 64)).raw("q", rot(p->z_q_)).n("qn", norm(p->z_q_));
    Eigen::Matrix<double, 7, 7> R = p->R_;
    j.n("r66", hc::rnd(R(6, 6), 1e9));
    Eigen::Matrix<double, 6, 6> R6 = R.block<6, 6>(0, 0);
    double o = R.row(6).head(6).norm() + R.col(6).head(6).norm();
    j.raw("R", mvec(R6, 4096)).n("ro", o != 0);
    return j.raw("fx", hc::arr(fx)).done();
  }
#endif
#ifdef HAS_POSITION
  typedef msf_updates::position_measurement::PositionMeasurement QM;
  if (QM* p = dynamic_cast<QM*>(m.get())) {
    int f = p->fixedstates_;
    fx.push_back((f >> D::p_ip) & 1 ? "1" : "0");
    fx.push_back(f & ~(1 << D::p_ip) ? "1" : "0");
    double e[3] = {p->z_p_[0], p->z_p_[1], p->z_p_[2]};
    std::vector<std::string> mm;
    for (int i = 0; i < 3; ++i) mm.push_back(std::to_string(hc::rnd(e[i], 1000)));
    return j.raw("z", vec(e, 3, 64)).raw("mm", hc::arr(mm)).raw("R", mvec(p->R_, 4096)).raw("fx", hc::arr(fx)).done();
  }
#endif
#ifdef HAS_PRESS
  typedef pressure_measurement::PressureMeasurement RM;
  if (RM* p = dynamic_cast<RM*>(m.get()))
    return j.raw("z", mvec(p->z_p_, 64)).raw("R", mvec(p->R_, 4096)).raw("fx", "[]").done();
#endif
#ifdef HAS_SPH
  if (msf_spherical_position::AngleMeasurement* p = dynamic_cast<msf_spherical_position::AngleMeasurement*>(m.get())) {
    fx.push_back((p->fixedstates_ >> D::p_ip) & 1 ? "1" : "0");
    fx.push_back(p->fixedstates_ & ~(1 << D::p_ip) ? "1" : "0");
    return j.raw("z", mvec(p->z_a_.transpose(), 64)).raw("R", mvec(p->R_, 4096)).raw("fx", hc::arr(fx)).done();
  }
  if (msf_spherical_position::DistanceMeasurement* p = dynamic_cast<msf_spherical_position::DistanceMeasurement*>(m.get())) {
    fx.push_back((p->fixedstates_ >> D::p_ip) & 1 ? "1" : "0");
    fx.push_back(p->fixedstates_ & ~(1 << D::p_ip) ? "1" : "0");
    return j.raw("z", mvec(p->z_d_.transpose(), 64)).raw("R", mvec(p->R_, 4096)).raw("fx", hc::arr(fx)).done();
  }
#endif
  return j.done();
}
#endif

// ---------------------------------------------------------------- the manager under observation
void q4(std::vector<double>& o, const Eigen::Quaterniond& q) { o.push_back(q.w()); o.push_back(q.x()); o.push_back(q.y()); o.push_back(q.z()); }
std::string recInit(const St& s) {
  hc::J j;
  j.str("k", "init").n("t", us(s.time));
  j.raw("p", mvec(s.Get<D::p>().transpose(), 64)).raw("v", mvec(s.Get<D::v>().transpose(), 64)).raw("q", rot(s.Get<D::q>()));
  j.raw("bw", mvec(s.Get<D::b_w>().transpose(), 64)).raw("ba", mvec(s.Get<D::b_a>().transpose(), 64));
  Eigen::Vector3d am = s.a_m / 9.81, wm = s.w_m;
  j.raw("am", mvec(am.transpose(), 9)).raw("wm", mvec(wm.transpose(), 64));
  bool qn = norm(s.Get<D::q>()) == 1000;
#ifdef HAS_POSE
  j.n("L", hc::rnd(s.Get<D::L>()(0), 1024)).raw("qwv", rot(s.Get<D::q_wv>())).raw("pwv", mvec(s.Get<D::p_wv>().transpose(), 64));
  j.raw("qic", rot(s.Get<D::q_ic>())).raw("pic", mvec(s.Get<D::p_ic>().transpose(), 64));
  qn = qn && norm(s.Get<D::q_wv>()) == 1000 && norm(s.Get<D::q_ic>()) == 1000;
#endif
#ifdef HAS_PRESS
  j.raw("bp", mvec(s.Get<D::b_p>().transpose(), 64));
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
  j.raw("pip", mvec(s.Get<D::p_ip>().transpose(), 64));
#endif
  j.n("qn", qn);
  double asym = (s.P - s.P.transpose()).cwiseAbs().maxCoeff();
  j.n("pok", s.P.allFinite() && asym < 1e-9 && s.P.diagonal().minCoeff() >= 0 && s.P.diagonal().head(9).minCoeff() > 0);
  return j.done();
}
// In real mode: how an update moved the sensor states, and the scale.
std::vector<double> auxOf(const St& s, std::vector<int>* lens = 0) {
  std::vector<double> o;
  std::vector<int> l;
  auto v3 = [&](const Eigen::Vector3d& x) { for (int i = 0; i < 3; ++i) o.push_back(x[i]); l.push_back(3); };
  auto qq = [&](const Eigen::Quaterniond& q) { q4(o, q); l.push_back(4); };
#ifdef HAS_POSE
  o.push_back(s.Get<D::L>()(0)); l.push_back(1);
  v3(s.Get<D::p_ic>()); qq(s.Get<D::q_ic>()); v3(s.Get<D::p_wv>()); qq(s.Get<D::q_wv>());
#endif
#ifdef HAS_PRESS
  o.push_back(s.Get<D::b_p>()(0)); l.push_back(1);
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
  v3(s.Get<D::p_ip>());
#endif
  v3(s.Get<D::b_w>()); v3(s.Get<D::b_a>());
  if (lens) *lens = l;
  return o;
}
std::vector<double> lastAux;
bool quiet = false, noSanity = false;
struct Mgr : AppMgr {
  void PublishStateInitial(const StPtr& s) const {
    ev.push_back(recInit(*s));
    lastAux = auxOf(*s);
    AppMgr::PublishStateInitial(s);
  }
  void PublishStateAfterUpdate(const StPtr& s) const {
#ifndef REC
    std::vector<int> lens;
    std::vector<double> a = auxOf(*s, &lens);
    std::vector<std::string> ch;
    size_t k = 0;
    for (int l : lens) {
      double d = 0;
      for (int i = 0; i < l; ++i, ++k) d = std::max(d, lastAux.empty() ? 0 : fabs(a[k] - lastAux[k]));
      ch.push_back(d == 0 ? "0" : d < 1e-12 ? "1" : "2");
    }
    hc::J j;
    j.str("k", "upd").n("t", us(s->time)).raw("ch", hc::arr(ch));
    bool fin = s->P.allFinite();
    for (double x : a) fin = fin && std::isfinite(x);
    j.n("fin", fin);
#ifdef HAS_POSE
    double L = s->Get<D::L>()(0);
    j.n("L", hc::rnd(L, 1e6)).n("neg", L < 0);
#endif
    ev.push_back(j.done());
    lastAux = a;
#endif
    AppMgr::PublishStateAfterUpdate(s);
  }
  void SanityCheckCorrection(St& d, const St& b, Eigen::Matrix<double, St::nErrorStatesAtCompileTime, 1>& c) const {
#ifdef HAS_POSE
    double before = d.Get<D::L>()(0);
#endif
    AppMgr::SanityCheckCorrection(d, b, c);
#if defined(HAS_POSE) && !defined(REC)
    ev.push_back(hc::J().str("k", "san").n("before", hc::rnd(before, 1e6)).n("L", hc::rnd(d.Get<D::L>()(0), 1e6)).n("neg", before < 0).n("same", before == d.Get<D::L>()(0)).done());
#endif
  }
};

#ifdef HAS_POSE
typedef msf_pose_sensor::PoseSensorHandler<msf_updates::pose_measurement::PoseMeasurement<>, AppMgr> PoseH;
#endif
#ifdef HAS_POSITION
typedef msf_position_sensor::PositionSensorHandler<msf_updates::position_measurement::PositionMeasurement, AppMgr> PosH;
#endif

// ---------------------------------------------------------------- publications
const double OS = 5184.0;  // 64 * 81
std::string vecd(const std::vector<double>& v, double s) { return vec(v.data(), v.size(), s); }
template <class C> std::string cov36(const C& c, double s) { std::vector<double> v(c.begin(), c.end()); return vecd(v, s); }
std::string hdr(const std_msgs::Header& h) { return hc::J().n("t", us(h.stamp.toSec())).str("f", h.frame_id).done(); }
std::string poseJ(const geometry_msgs::Pose& p) {
  return vecd({p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z}, OS);
}
void onPublish(const std::string& topic, const std::type_info& ti, const void* m) {
  if (quiet) return;
  hc::J j;
  j.str("k", "pub").str("topic", topic);
  if (ti == typeid(sensor_fusion_comm::ExtEkf)) {
    const sensor_fusion_comm::ExtEkf& x = *static_cast<const sensor_fusion_comm::ExtEkf*>(m);
    std::vector<double> d(x.state.begin(), x.state.end());
    double im = fabs(x.angular_velocity.x) + fabs(x.angular_velocity.y) + fabs(x.angular_velocity.z) + fabs(x.linear_acceleration.x) + fabs(x.linear_acceleration.y) + fabs(x.linear_acceleration.z);
    j.raw("h", hdr(x.header)).n("flag", x.flag).raw("d", vecd(d, OS)).n("im", im != 0);
  } else if (ti == typeid(geometry_msgs::PoseWithCovarianceStamped)) {
    const geometry_msgs::PoseWithCovarianceStamped& x = *static_cast<const geometry_msgs::PoseWithCovarianceStamped*>(m);
    j.raw("h", hdr(x.header)).raw("d", poseJ(x.pose.pose)).raw("c", cov36(x.pose.covariance, 1));
  } else if (ti == typeid(nav_msgs::Odometry)) {
    const nav_msgs::Odometry& x = *static_cast<const nav_msgs::Odometry*>(m);
    const geometry_msgs::Twist& t = x.twist.twist;
    j.raw("h", hdr(x.header)).str("child", x.child_frame_id).raw("d", poseJ(x.pose.pose)).raw("c", cov36(x.pose.covariance, 1));
    j.raw("tw", vecd({t.linear.x, t.linear.y, t.linear.z, t.angular.x, t.angular.y, t.angular.z}, OS)).raw("tc", cov36(x.twist.covariance, 4096));
  } else if (ti == typeid(sensor_fusion_comm::ExtState)) {
    const sensor_fusion_comm::ExtState& x = *static_cast<const sensor_fusion_comm::ExtState*>(m);
    j.raw("h", hdr(x.header)).raw("d", poseJ(x.pose)).raw("v", vecd({x.velocity.x, x.velocity.y, x.velocity.z}, OS));
  } else if (ti == typeid(sensor_fusion_comm::DoubleArrayStamped)) {
    const sensor_fusion_comm::DoubleArrayStamped& x = *static_cast<const sensor_fusion_comm::DoubleArrayStamped*>(m);
    std::vector<double> d(x.data.begin(), x.data.end());
    j.raw("h", hdr(x.header)).raw("d", vecd(d, OS));
  } else if (ti == typeid(sensor_fusion_comm::DoubleMatrixStamped)) {
    const sensor_fusion_comm::DoubleMatrixStamped& x = *static_cast<const sensor_fusion_comm::DoubleMatrixStamped*>(m);
    std::vector<double> d(x.data.begin(), x.data.end());
    j.raw("h", hdr(x.header)).n("rows", x.rows).n("cols", x.cols).raw("d", vecd(d, 1));
  }
  ev.push_back(j.done());
}

// ---------------------------------------------------------------- commands
struct W {  // word reader
  const hc::Words& w;
  size_t i;
  W(const hc::Words& x, size_t k = 1) : w(x), i(k) {}
  bool more() const { return i < w.size(); }
  const std::string& s() { static std::string e; return more() ? w[i++] : e; }
  long n() { return hc::inum(s()); }
  double d(double scale) { const std::string& x = s(); return hc::num(x) / scale; }
};
ros::Time st(long ms) { return ros::Time(BASE + ms / 1000.0); }
void quat(W& w, geometry_msgs::Quaternion& q) {
  double a = w.n(), b = w.n(), c = w.n(), d = w.n(), n = std::sqrt(a * a + b * b + c * c + d * d);
  q.w = a / n; q.x = b / n; q.y = c / n; q.z = d / n;
}
Eigen::Quaterniond equat(W& w) { geometry_msgs::Quaternion q; quat(w, q); return Eigen::Quaterniond(q.w, q.x, q.y, q.z); }
void setCfg(Cfg& c, const std::string& k, long v) {
#define B_(x) if (k == #x) { c.x = v; return; }
#define N_(x) if (k == #x) { c.x = v / 64.0; return; }
#define M_(x) if (k == #x) { c.x = v / 1000.0; return; }
#define S_(x) if (k == #x) { c.x = v / 1024.0; return; }
#define I_(x) if (k == #x) { c.x = v; return; }
  B_(core_init_filter)
#ifdef HAS_POSE
  B_(core_set_height) S_(core_height) S_(pose_initial_scale)
  B_(pose_fixed_scale) B_(pose_fixed_p_ic) B_(pose_fixed_q_ic) B_(pose_fixed_p_wv) B_(pose_fixed_q_wv)
  N_(pose_noise_scale) N_(pose_noise_p_wv) N_(pose_noise_q_wv) N_(pose_noise_p_ic) N_(pose_noise_q_ic)
  N_(pose_noise_meas_p) N_(pose_noise_meas_q) M_(pose_delay)
#endif
#ifdef HAS_PRESS
  N_(press_noise_meas_p) N_(press_noise_bias_p) B_(press_reset)
#endif
#ifdef HAS_POSITION
  N_(position_noise_meas) I_(position_yaw_init) M_(position_delay) N_(position_noise_p_ip) B_(position_fixed_p_ip)
#endif
#ifdef HAS_SPH
  N_(angle_noise_meas) N_(distance_noise_meas) I_(yaw_init) M_(angle_delay) M_(distance_delay) N_(noise_p_ip) B_(fixed_p_ip)
#endif
  throw std::runtime_error("unknown configuration value " + k);
}
StPtr synth(W& w) {  // a state of our own: time, p v bw ba wm in 1/64, q, three aux quaternions/positions, seed, noise
  StPtr s(new St);
  s->Reset();
  s->time = BASE + w.n() / 1000.0;
  auto v3 = [&]() { double a = w.d(64), b = w.d(64), c = w.d(64); return Eigen::Vector3d(a, b, c); };
  s->Set<D::p>(v3()); s->Set<D::v>(v3()); s->Set<D::q>(equat(w)); s->Set<D::b_w>(v3()); s->Set<D::b_a>(v3());
  s->w_m = v3();
  s->a_m = v3();
  Eigen::Quaterniond q1 = equat(w), q2 = equat(w);
  Eigen::Vector3d p1 = v3(), p2 = v3();
  double l = w.d(64), b = w.d(64);
  long seed = w.n();
  double ng = w.d(64);
#ifdef HAS_POSE
  s->Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(l));
  s->Set<D::q_wv>(q1); s->Set<D::q_ic>(q2); s->Set<D::p_wv>(p1); s->Set<D::p_ic>(p2);
#endif
#ifdef HAS_PRESS
  s->Set<D::b_p>(Eigen::Matrix<double, 1, 1>::Constant(b));
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
  s->Set<D::p_ip>(APP == 5 ? Eigen::Vector3d(l, b, p1[0]) : p1);
#endif
  for (int i = 0; i < St::nErrorStatesAtCompileTime; ++i)
    for (int k = 0; k < St::nErrorStatesAtCompileTime; ++k)
      s->P(i, k) = (std::min(i, k) * 7 + std::max(i, k) * 13 + seed) % 50;
  s->noise_gyr.setConstant(ng);
  s->noise_acc.setConstant(0);
  return s;
}
std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  // head: B id key=value ...   (d:name=thousandths, b:name=0/1, s:name=text, l:topic=count, second=1, now=ms)
  ros::stub::Bus& bus = ros::stub::bus();
  bus.now = BASE;
  bool second = false;
  for (size_t i = 2; i < head.size(); ++i) {
    std::string h = head[i];
    size_t e = h.find('=');
    std::string k = h.substr(0, e), v = h.substr(e + 1);
    if (k == "second") second = hc::inum(v);
    else if (k[0] == 'd') bus.dparams[k.substr(2)] = hc::num(v) / 1000.0;
    else if (k[0] == 'b') bus.bparams[k.substr(2)] = hc::inum(v);
    else if (k[0] == 's') bus.sparams[k.substr(2)] = v;
    else if (k[0] == 'l') bus.listeners[k.substr(2)] = hc::inum(v);
  }
  bus.onPublish = onPublish;
  tf::TransformBroadcaster::hook() = [](const tf::StampedTransform& t) {
    if (quiet) return;
    ev.push_back(hc::J().str("k", "tf").n("t", us(t.stamp_.toSec())).str("f", t.frame_id_).str("c", t.child_frame_id_)
        .raw("d", vecd({t.o.x(), t.o.y(), t.o.z(), t.q.w(), t.q.x(), t.q.y(), t.q.z()}, OS)).done());
  };
  Mgr* m = new Mgr;
#ifdef HAS_POSE
  boost::shared_ptr<PoseH> ph2;
  if (second) { ph2.reset(new PoseH(*m, "second", "second_pose", false)); m->AddHandler(ph2); }
#endif
#ifdef HAS_POSITION
  boost::shared_ptr<PosH> qh2;
  if (second) { qh2.reset(new PosH(*m, "second", "second_position")); m->AddHandler(qh2); }
#endif
  std::vector<std::string> out;
  auto flush = [&](hc::J j) { out.push_back(j.raw("ev", hc::arr(ev)).done()); ev.clear(); };
  for (size_t oi = 0; oi < ops.size(); ++oi) {
    W w(ops[oi]);
    const std::string op = ops[oi][0];
    hc::J j;
    if (op == "now") { bus.now = BASE + w.n() / 1000.0; }
    else if (op == "listen") { std::string t = w.s(); bus.listeners[t] = w.n(); }
    else if (op == "pose") {  // handler kind stamp seq X Y Z(1/64) a b c d 36 covariance entries
      std::string ns = std::string("msf_updates/") + (w.n() ? "second/" : ""), kind = w.s();
      long t = w.n(), seq = w.n();
      double x = w.d(64), y = w.d(64), z = w.d(64);
      geometry_msgs::Quaternion q;
      quat(w, q);
      geometry_msgs::PoseWithCovarianceStamped pc;
      pc.header.stamp = st(t); pc.header.seq = seq;
      pc.pose.pose.position.x = x; pc.pose.pose.position.y = y; pc.pose.pose.position.z = z; pc.pose.pose.orientation = q;
      for (int i = 0; i < 36 && w.more(); ++i) pc.pose.covariance[i] = w.n();
      int n = 0;
      if (kind == "cov") n = ros::stub::deliver(ns + "pose_with_covariance_input", pc);
      if (kind == "odo") { nav_msgs::Odometry o; o.header = pc.header; o.pose = pc.pose; n = ros::stub::deliver(ns + "odometry_input", o); }
      if (kind == "ps") { geometry_msgs::PoseStamped o; o.header = pc.header; o.pose = pc.pose.pose; n = ros::stub::deliver(ns + "pose_input", o); }
      if (kind == "tf") {
        geometry_msgs::TransformStamped o; o.header = pc.header; o.transform.translation.x = x; o.transform.translation.y = y; o.transform.translation.z = z; o.transform.rotation = q;
        n = ros::stub::deliver(ns + "transform_input", o);
      }
      j.n("n", n);
    } else if (op == "pos") {  // handler kind stamp seq X Y Z(1/64)
      std::string ns = std::string("msf_updates/") + (w.n() ? "second/" : ""), kind = w.s();
      long t = w.n(), seq = w.n();
      double x = w.d(64), y = w.d(64), z = w.d(64);
      int n = 0;
      if (kind == "pt") { geometry_msgs::PointStamped o; o.header.stamp = st(t); o.header.seq = seq; o.point.x = x; o.point.y = y; o.point.z = z; n = ros::stub::deliver(ns + "position_input", o); }
      if (kind == "tf") { geometry_msgs::TransformStamped o; o.header.stamp = st(t); o.header.seq = seq; o.transform.translation.x = x; o.transform.translation.y = y; o.transform.translation.z = z; o.transform.rotation.w = 1; n = ros::stub::deliver(ns + "transform_input", o); }
      j.n("n", n);
    } else if (op == "nav") {  // handler stamp seq lat0(udeg) lon0 dlat dlon alt(mm) type 9 covariances
      std::string ns = std::string("msf_updates/") + (w.n() ? "second/" : "");
      sensor_msgs::NavSatFix o;
      o.header.stamp = st(w.n()); o.header.seq = w.n();
      double lat0 = w.n(), lon0 = w.n(), dlat = w.n(), dlon = w.n();
      o.latitude = (lat0 + dlat) * 1e-6; o.longitude = (lon0 + dlon) * 1e-6;
      o.altitude = w.n() / 1000.0;
      o.position_covariance_type = w.n();
      for (int i = 0; i < 9 && w.more(); ++i) o.position_covariance[i] = w.n();
      j.n("n", ros::stub::deliver(ns + "navsatfix_input", o));
    } else if (op == "press" || op == "ang" || op == "dist" || op == "angq") {  // stamp seq x y z (1/64; angq: right angles)
      geometry_msgs::PointStamped o;
      o.header.stamp = st(w.n()); o.header.seq = w.n();
      o.point.x = w.d(64); o.point.y = w.d(64); o.point.z = w.d(64);
      if (op == "angq") { o.point.x *= 32 * M_PI; o.point.y *= 32 * M_PI; }
      j.n("n", ros::stub::deliver(op == "press" ? "msf_updates/pressure_height" : op[0] == 'a' ? "msf_updates/angle_input" : "msf_updates/distance_input", o));
#ifdef HAS_PRESS
      j.raw("last", mvec(m->pressure_handler_->GetPressureMeasurement(), 64)).raw("avg", mvec(m->pressure_handler_->GetAveragedPressureMeasurement(), 640));
#endif
    } else if (op == "imu") {  // stamp seq a(3) w(3)
      sensor_msgs::Imu o;
      o.header.stamp = st(w.n()); o.header.seq = w.n();
      o.linear_acceleration.x = w.d(64); o.linear_acceleration.y = w.d(64); o.linear_acceleration.z = w.d(64);
      o.angular_velocity.x = w.d(64); o.angular_velocity.y = w.d(64); o.angular_velocity.z = w.d(64);
#ifndef REC
      o.linear_acceleration.z += 9.81;
#endif
      j.n("n", ros::stub::deliver("msf_core/imu_state_input", o));
    } else if (op == "ext") {  // stamp seq flag a(3) w(3) p(3) v(3) quat(4) bw(3) ba(3) mask
      sensor_fusion_comm::ExtEkf o;
      o.header.stamp = st(w.n()); o.header.seq = w.n(); o.flag = w.n();
      o.linear_acceleration.x = w.d(64); o.linear_acceleration.y = w.d(64); o.linear_acceleration.z = w.d(64);
      o.angular_velocity.x = w.d(64); o.angular_velocity.y = w.d(64); o.angular_velocity.z = w.d(64);
      o.state.resize(16);
      for (int i = 0; i < 6; ++i) o.state[i] = w.d(64);
      geometry_msgs::Quaternion q;
      quat(w, q);
      long qs = w.n();  // scale of the attitude as sent
      o.state[6] = q.w * qs; o.state[7] = q.x * qs; o.state[8] = q.y * qs; o.state[9] = q.z * qs;
      for (int i = 10; i < 16; ++i) o.state[i] = w.d(64);
      long mask = w.n();
      for (int i = 0; i < 16; ++i) if (mask >> i & 1) o.state[i] = i % 2 ? NAN : INFINITY;
      j.n("n", ros::stub::deliver("msf_core/hl_state_input", o));
    } else if (op == "cfg") {
      dynamic_reconfigure::Server<Cfg>* s = dynamic_reconfigure::Server<Cfg>::registry()[CFGNS];
      if (!s) throw std::runtime_error("no configuration server");
      Cfg c = s->config;
      while (w.more()) { std::string k = w.s(); setCfg(c, k, w.n()); }
      s->update(c);
    } else if (op == "core") {  // core_fixed_bias, noises in 1e-6
      dynamic_reconfigure::Server<msf_core::MSF_CoreConfig>* s = dynamic_reconfigure::Server<msf_core::MSF_CoreConfig>::registry()["~core"];
      msf_core::MSF_CoreConfig c = s->config;
      c.core_fixed_bias = w.n(); c.core_noise_acc = w.n() / 64.0; c.core_noise_accbias = w.n() / 64.0; c.core_noise_gyr = w.n() / 64.0; c.core_noise_gyrbias = w.n() / 64.0;
      s->update(c);
      j.raw("got", vecd({double(m->GetParamFixedBias()), m->GetParamNoiseAcc() * 64, m->GetParamNoiseAccbias() * 64, m->GetParamNoiseGyr() * 64, m->GetParamNoiseGyrbias() * 64}, 1));
    } else if (op == "scale") {
      sensor_fusion_comm::InitScale s;
      s.request.scale = w.n() / 1024.0;
      j.n("ret", bus.services.count(CFGNS "/initialize_msf_scale") ? ros::stub::call(CFGNS "/initialize_msf_scale", s) : -1);
    } else if (op == "height") {
      sensor_fusion_comm::InitHeight s;
      s.request.height = w.n() / 1024.0;
      j.n("ret", bus.services.count(CFGNS "/initialize_msf_height") ? ros::stub::call(CFGNS "/initialize_msf_height", s) : -1);
    } else if (op == "noises") {  // second handler: p q delay
#ifdef HAS_POSE
      if (ph2) { double a = w.d(64), b = w.d(64); ph2->SetNoises(a, b); ph2->SetDelay(w.d(1000)); }
#endif
    } else if (op == "noisep") {
#ifdef HAS_POSITION
      if (qh2) { qh2->SetNoises(w.d(64)); qh2->SetDelay(w.d(1000)); }
#endif
    } else if (op == "qaux") {  // process noise of the sensor states over dt (1/1024 s)
      St s;
      s.Reset();
      double dt = w.d(1024);
      m->CalculateQAuxiliaryStates(s, dt);
      std::vector<std::string> o;
#define QB(x) o.push_back(mvec(s.GetQBlock<D::x>(), 4194304.0));
#ifdef HAS_POSE
      QB(L) QB(q_wv) QB(p_wv) QB(q_ic) QB(p_ic)
#endif
#ifdef HAS_PRESS
      QB(b_p)
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
      QB(p_ip)
#endif
      j.raw("q", hc::arr(o));
    } else if (op == "reset") {  // values the state is reset to
#ifdef HAS_POSE
      St s;
      s.Reset();
      m->ResetState(s);
      j.n("L", hc::rnd(s.Get<D::L>()(0), 1024));
#endif
    } else if (op == "sanity") {
#ifdef HAS_POSE
      StPtr s(new St), b(new St);
      s->Reset(); b->Reset();
      s->Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(w.d(1024)));
      b->Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(w.d(1024)));
      Eigen::Matrix<double, St::nErrorStatesAtCompileTime, 1> c;
      c.setZero();
      m->AppMgr::SanityCheckCorrection(*s, *b, c);
      j.n("L", hc::rnd(s->Get<D::L>()(0), 10240));
#endif
    } else if (op == "pinit" || op == "pprop" || op == "pupd") {
      StPtr s = synth(w);
      long bad = w.n();
      if (bad) {  // make one core entry non-finite
        double x = bad % 2 ? NAN : INFINITY;
        Eigen::Vector3d p = s->Get<D::p>(), v = s->Get<D::v>(), bw = s->Get<D::b_w>();
        Eigen::Quaterniond q = s->Get<D::q>();
        if (bad == 1) p[1] = x; else if (bad == 2) v[2] = x; else if (bad == 3) bw[0] = x; else q.x() = x;
        s->Set<D::p>(p); s->Set<D::v>(v); s->Set<D::b_w>(bw); s->Set<D::q>(q);
      }
      if (op == "pinit") m->AppMgr::PublishStateInitial(s);
      if (op == "pprop") m->AppMgr::PublishStateAfterPropagation(s);
      if (op == "pupd") m->AppMgr::PublishStateAfterUpdate(s);
    } else if (op == "quiet") quiet = true;
    else throw std::runtime_error("unknown op " + op);
    flush(j);
  }
  return hc::J().raw("id", head[1]).n("crash", 0).raw("ops", hc::arr(out)).done();
}
int main(int argc, char** argv) { return hc::drive(argc, argv, run); }
