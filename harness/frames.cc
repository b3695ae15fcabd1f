// Drives the real coordinate conversions: geographic, similarity transform, pose messages, quaternion helpers.
#include "common.h"
#include <memory>
#include <msf_core/gps_conversion.h>
#include <msf_core/similaritytransform.h>
namespace h {
using namespace msf_core;
typedef Eigen::Vector3d V3;
struct R {  // reads integers from an operation
  const hc::Words& w;
  size_t k = 1;
  R(const hc::Words& x) : w(x) {}
  double n() { return hc::inum(w.at(k++)); }
  V3 v() { double a = n(), b = n(), c = n(); return V3(a, b, c); }
  Eigen::Quaterniond q() { double a = n(), b = n(), c = n(), d = n(); return Eigen::Quaterniond(a, b, c, d); }
  // tan(half the angle) = p / q; the angle in degrees, plus whole turns
  double angle() { double p = n(), q = n(), turns = n(); return 2 * std::atan2(p, q) * (180 / 3.14159265358979323846) + 360 * turns; }
};
template<class D> std::string list(const Eigen::MatrixBase<D>& m, double unit) {  // row by row
  std::vector<std::string> o;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o.push_back(std::to_string(hc::rnd(m(i, j), unit)));
  return hc::arr(o);
}
std::string qlist(const Eigen::Quaterniond& q, double unit) { return list(Eigen::Vector4d(q.w(), q.x(), q.y(), q.z()), unit); }
similarity_transform::Pose pose(const Eigen::Quaterniond& q, const V3& t) {
  similarity_transform::Pose p;
  p.pose.position.x = t[0]; p.pose.position.y = t[1]; p.pose.position.z = t[2];
  p.pose.orientation.w = q.w(); p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z();
  return p;
}
std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  std::unique_ptr<GPSConversion> gps(new GPSConversion);
  std::unique_ptr<similarity_transform::From6DoF> sim(new similarity_transform::From6DoF);
  geometry_msgs::PoseWithCovariance msg;
  std::vector<std::string> outs;
  for (const hc::Words& w : ops) {
    hc::J o;
    R r(w);
    o.n("ok", 1);
    if (w[0] == "fresh") gps.reset(new GPSConversion);
    else if (w[0] == "copy") gps.reset(new GPSConversion(*gps));
    else if (w[0] == "ref") { double a = r.angle(), b = r.angle(), h = r.n(); gps->InitReference(a, b, h / 100); }
    else if (w[0] == "ecef") { double a = r.angle(), b = r.angle(), h = r.n(); o.raw("out", list(gps->WGS84ToECEF(a, b, h / 100), 100)); }
    else if (w[0] == "enu") {
      double a = r.angle(), b = r.angle(), h = r.n();
      V3 x = gps->WGS84ToENU(a, b, h / 100);
      o.raw("out", list(x, 100)).raw("mm", list(x, 1000));
    } else if (w[0] == "local") o.raw("out", list(gps->ECEFToENU(r.v() / 100), 100));
    else if (w[0] == "clear") sim.reset(new similarity_transform::From6DoF);
    else if (w[0] == "pair") {
      Eigen::Quaterniond q1 = r.q();
      V3 t1 = r.v();
      Eigen::Quaterniond q2 = r.q();
      V3 t2 = r.v();
      q1.normalize(); q2.normalize();
      if (r.n()) sim->AddMeasurement(similarity_transform::PosePair(pose(q1, t1), pose(q2, t2)));
      else sim->AddMeasurement(pose(q1, t1), pose(q2, t2));
    } else if (w[0] == "compute") {
      similarity_transform::Pose p = pose(Eigen::Quaterniond(0, 0, 0, 0), V3(777, 777, 777));
      double scale = -77, cond = -77;
      bool sp = r.n() != 0, cp = r.n() != 0, withEps = r.n() != 0;
      bool ret = withEps ? sim->Compute(p, sp ? &scale : 0, cp ? &cond : 0, 1e-6) : sim->Compute(p, sp ? &scale : 0, cp ? &cond : 0);
      o.n("ret", ret).n("scale", hc::rnd(scale, 1e4)).n("cond", hc::rnd(cond, 1e3));
      o.raw("p", list(V3(p.pose.position.x, p.pose.position.y, p.pose.position.z), 1e4));
      o.raw("q", qlist(Eigen::Quaterniond(p.pose.orientation.w, p.pose.orientation.x, p.pose.orientation.y, p.pose.orientation.z), 1e4));
    } else if (w[0] == "setcov") {
      int i = r.n(), j = r.n();
      Matrix3 m;
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) m(a, b) = r.n();
      EigenCovBlockToGeometryMsgs(msg.covariance, m, i, j);
      std::vector<std::string> c;
      for (int a = 0; a < 36; ++a) c.push_back(std::to_string(hc::rnd(msg.covariance[a], 1)));
      o.raw("cov", hc::arr(c));
    } else if (w[0] == "getcov") {
      int i = r.n(), j = r.n();
      o.raw("m", list(GeometryMsgsCovBlockToEigen(msg.covariance, i, j), 1));
    } else if (w[0] == "msg") {
      V3 p = r.v();
      Eigen::Quaterniond q = r.q();
      geometry_msgs::Point mp = EigenToGeometryMsgs(p);
      geometry_msgs::Quaternion mq = EigenToGeometryMsgs(q);
      o.raw("pmsg", list(V3(mp.x, mp.y, mp.z), 1)).raw("qmsg", list(Eigen::Vector4d(mq.w, mq.x, mq.y, mq.z), 1));
      o.raw("pback", list(GeometryMsgsToEigen(mp), 1)).raw("qback", qlist(GeometryMsgsToEigen(mq), 1));
    } else if (w[0] == "quat") {
      V3 v = r.v(), x = r.v();
      Eigen::Quaterniond q = r.q();
      auto q4 = [](const Eigen::Vector4d& c) { return list(Eigen::Vector4d(c[3], c[0], c[1], c[2]), 1); };
      o.raw("skew", list(Skew(v), 1)).raw("cross", list(Skew(v) * x, 1));
      o.raw("ham", q4(OmegaMatHamilton(v) * q.coeffs())).raw("jpl", q4(OmegaMatJPL(v) * q.coeffs()));
      o.raw("xi", q4(XiMat(q.coeffs()) * v)).raw("xiq", list(XiMat(q.coeffs()).transpose() * q.coeffs(), 1));
      o.raw("small", qlist(QuaternionFromSmallAngle(V3(v / 8)), 1e4));
    }
    outs.push_back(o.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
