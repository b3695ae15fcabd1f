// Drives the real distorter, a real pose handler that distorts its readings, and the distortion node.
#include <memory>
#include "common.h"
#include <boost/weak_ptr.hpp>
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanagerROS.h>
#include <msf_core/msf_IMUHandler_ROS.h>
#include "pose_msf/msf_statedef.hpp"
typedef msf_updates::EKFState St;
std::vector<boost::shared_ptr<msf_core::MSF_MeasurementBase<St> > > got;
namespace msf_core {
template <> void MSF_Core<St>::AddMeasurement(shared_ptr<MSF_MeasurementBase<St> > m) { got.push_back(m); }
}
#include "pose_msf/pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager Mgr;
typedef msf_updates::pose_measurement::PoseMeasurement<> Meas;
typedef msf_pose_sensor::PoseSensorHandler<Meas, Mgr> PoseH;
#define main distort_main
#include DISTORT_NODE
#undef main
#include <geometry_msgs/PointStamped.h>
namespace h {
typedef Eigen::Vector3d V3;
const double TINY = 1e-13;  // a zero deviation is not a distribution
struct R {
  const hc::Words& w;
  size_t k = 1;
  R(const hc::Words& x) : w(x) {}
  double n() { return hc::inum(w.at(k++)); }
  std::string s() { return w.at(k++); }
  V3 v() { double a = n(), b = n(), c = n(); return V3(a, b, c); }
  Eigen::Quaterniond q() { double a = n(), b = n(), c = n(), d = n(); Eigen::Quaterniond r(a, b, c, d); r.normalize(); return r; }
};
std::string ints(std::vector<double> v, double unit) {
  std::vector<std::string> o;
  for (double x : v) o.push_back(std::to_string(hc::rnd(x, unit)));
  return hc::arr(o);
}
std::string vj(const V3& p) { return ints({p[0], p[1], p[2]}, 4096); }
std::string qj(const Eigen::Quaterniond& q) { return ints({q.w(), q.x(), q.y(), q.z()}, 1000); }
// the distributions a handler was set up with, where they can be seen
template <class H> auto inspect(H& x, hc::J& o, int) -> decltype(x.distorter_->d_pos_[0].mean() + x.distorter_->d_att_[0].mean() + x.distorter_->d_scale.mean(), void()) {
  auto& y = *x.distorter_;
  bool same = true;
  for (int i = 1; i < 3; ++i) same = same && y.d_pos_[i] == y.d_pos_[0] && y.d_att_[i] == y.d_att_[0];
  o.n("seen", 1).raw("mean", same ? ints({y.d_pos_[0].mean(), y.d_att_[0].mean(), y.d_scale.mean()}, 1000) : "[]");
  o.raw("sd", ints({y.d_pos_[0].stddev(), y.d_att_[0].stddev(), y.d_scale.stddev()}, 1000));
}
template <class H> void inspect(H&, hc::J& o, long) { o.n("seen", 0).raw("mean", "[]").raw("sd", "[]"); }
struct Done {};
std::vector<std::string> pubs;
// the content of a message, or -1 if something got lost on the way
long content(const std::type_info& ti, const void* p) {
  if (ti == typeid(geometry_msgs::PoseWithCovarianceStamped)) { const auto& m = *static_cast<const geometry_msgs::PoseWithCovarianceStamped*>(p); return m.pose.pose.position.x == m.header.seq && m.pose.covariance[35] == 7 ? m.header.seq : -1; }
  if (ti == typeid(geometry_msgs::TransformStamped)) { const auto& m = *static_cast<const geometry_msgs::TransformStamped*>(p); return m.transform.translation.x == m.header.seq ? m.header.seq : -1; }
  if (ti == typeid(geometry_msgs::PoseStamped)) { const auto& m = *static_cast<const geometry_msgs::PoseStamped*>(p); return m.pose.position.x == m.header.seq ? m.header.seq : -1; }
  if (ti == typeid(sensor_msgs::NavSatFix)) { const auto& m = *static_cast<const sensor_msgs::NavSatFix*>(p); return m.latitude == m.header.seq && m.altitude == 12 ? m.header.seq : -1; }
  if (ti == typeid(geometry_msgs::PointStamped)) { const auto& m = *static_cast<const geometry_msgs::PointStamped*>(p); return m.point.x == m.header.seq ? m.header.seq : -1; }
  return -2;
}
std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  ros::stub::Bus& bus = ros::stub::bus();
  bus.now = 1000;
  std::unique_ptr<msf_updates::PoseDistorter> d;
  std::unique_ptr<Mgr> m;
  boost::shared_ptr<PoseH> hd, plain;
  std::vector<std::string> outs;
  auto manager = [&]() { if (!m) m.reset(new Mgr); };
  auto reading = [&](const std::string& ns, R& r, hc::J& o) {
    geometry_msgs::PoseStamped p;
    p.header.stamp = ros::Time(1000 + r.n() / 8);
    V3 x = r.v();
    Eigen::Quaterniond q = r.q();
    p.pose.position.x = x[0]; p.pose.position.y = x[1]; p.pose.position.z = x[2];
    p.pose.orientation.w = q.w(); p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z();
    got.clear();
    ros::stub::deliver("msf_updates/" + ns + "/pose_input", p);
    o.n("n", got.size());
    if (got.size() == 1) {
      Meas* z = dynamic_cast<Meas*>(got[0].get());
      o.raw("out", vj(z->z_p_)).raw("x", qj(z->z_q_));
    } else o.raw("out", "[]").raw("x", "[]");
  };
  auto perform = [&](const hc::Words& w) {
    hc::J o;
    R r(w);
    o.n("ok", 1);
    if (w[0] == "make") {
      V3 p = r.v() / 8, a = r.v() / 8;
      d.reset(new msf_updates::PoseDistorter(p, V3::Constant(TINY), a, V3::Constant(TINY), r.n() / 8, TINY));
    } else if (w[0] == "dpos") { V3 p = r.v(); d->Distort(p, r.n() / 8); o.raw("out", vj(p)); }
    else if (w[0] == "datt") { Eigen::Quaterniond q = r.q(); d->Distort(q, r.n() / 8); o.raw("x", qj(q)); }
    else if (w[0] == "dboth") { V3 p = r.v(); Eigen::Quaterniond q = r.q(); d->Distort(p, q, r.n() / 8); o.raw("out", vj(p)).raw("x", qj(q)); }
    else if (w[0] == "inspect") {  // thousandths
      std::string ns = "~inspected/";
      double v[6];
      for (double& x : v) x = r.n() / 1000;
      bus.dparams[ns + "distortpos_mean"] = v[0]; bus.dparams[ns + "distortatt_mean"] = v[1]; bus.dparams[ns + "distortscale_mean"] = v[2];
      bus.dparams[ns + "distortpos_stddev"] = v[3]; bus.dparams[ns + "distortatt_stddev"] = v[4]; bus.dparams[ns + "distortscale_stddev"] = v[5];
      manager();
      PoseH x(*m, "inspected", "inspected", true);
      inspect(x, o, 0);
    } else if (w[0] == "handler") {  // rates in 1/8, the same on all axes
      std::string ns = "~distorted/";
      bus.dparams[ns + "distortpos_mean"] = r.n() / 8; bus.dparams[ns + "distortatt_mean"] = r.n() / 8; bus.dparams[ns + "distortscale_mean"] = r.n() / 8;
      bus.dparams[ns + "distortpos_stddev"] = bus.dparams[ns + "distortatt_stddev"] = bus.dparams[ns + "distortscale_stddev"] = TINY;
      bus.bparams[ns + "pose_use_fixed_covariance"] = bus.bparams["~plain/pose_use_fixed_covariance"] = true;
      manager();
      hd.reset(new PoseH(*m, "distorted", "distorted", true));
      plain.reset(new PoseH(*m, "plain", "plain", false));
      m->AddHandler(hd);
      m->AddHandler(plain);
    } else if (w[0] == "hpose") reading("distorted", r, o);
    else if (w[0] == "plain") reading("plain", r, o);
    else if (w[0] == "conf") {
      msf_distort::MSF_DistortConfig c;
      c.publish_pose = r.n(); c.publish_position = r.n();
      dynamic_reconfigure::Server<msf_distort::MSF_DistortConfig>::registry()["msf_distort"]->update(c);
    } else if (w[0] == "send") {
      std::string k = r.s();
      long x = r.n();
      pubs.clear();
      int n = 0;
      std_msgs::Header hdr;
      hdr.seq = x; hdr.stamp = ros::Time(7); hdr.frame_id = "f";
      if (k == "cov") { geometry_msgs::PoseWithCovarianceStamped p; p.header = hdr; p.pose.pose.position.x = x; p.pose.covariance[35] = 7; n = ros::stub::deliver("msf_distort/pose_with_covariance_input", p); }
      if (k == "tf") { geometry_msgs::TransformStamped p; p.header = hdr; p.transform.translation.x = x; n = ros::stub::deliver("msf_distort/transform_input", p); }
      if (k == "ps") { geometry_msgs::PoseStamped p; p.header = hdr; p.pose.position.x = x; n = ros::stub::deliver("msf_distort/pose_input", p); }
      if (k == "nav") { sensor_msgs::NavSatFix p; p.header = hdr; p.latitude = x; p.altitude = 12; n = ros::stub::deliver("msf_distort/navsatfix_input", p); }
      if (k == "pt") { geometry_msgs::PointStamped p; p.header = hdr; p.point.x = x; n = ros::stub::deliver("msf_distort/point_input", p); }
      o.n("heard", n).raw("pubs", hc::arr(pubs));
    }
    outs.push_back(o.done());
  };
  if (head.size() > 2 && head[2] == "node") {
    bus.onPublish = [](const std::string& topic, const std::type_info& ti, const void* p) { pubs.push_back(hc::J().str("topic", topic).n("x", content(ti, p)).done()); };
    // main has no return statement: leave it before its end
    bus.onSpin = [&]() { for (const hc::Words& w : ops) perform(w); throw Done(); };
    char* av[] = {const_cast<char*>("x"), 0};
    try { distort_main(1, av); } catch (const Done&) {}
  } else {
    for (const hc::Words& w : ops) perform(w);
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
