// Drives the measurement models of one application (APP: 1 pose, 2 position, 3 spherical, 4 pose_pressure,
// 5 position_pose): every reading is applied to a given state and what it hands to the Kalman update (Jacobian,
// residual, noise) is recorded, block by block. See spec/MeasModels.tla for the units.
#include <iostream>
#include <map>
#include <memory>
#include <ros/ros.h>
#include "common.h"
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#if APP == 1
#include "pose_msf/msf_statedef.hpp"
#elif APP == 2
#include "position_msf/msf_statedef.hpp"
#elif APP == 3
#include "spherical_msf/msf_statedef.hpp"
#elif APP == 4
#include "pose_pressure_msf/msf_statedef.hpp"
#else
#include "position_pose_msf/msf_statedef.hpp"
#endif
typedef msf_updates::EKFState St;
typedef boost::shared_ptr<St> StPtr;
enum { N = St::nErrorStatesAtCompileTime };
typedef Eigen::Matrix<double, N, N> MatN;
typedef Eigen::Matrix<double, N, 1> VecN;
typedef msf_core::MSF_MeasurementBase<St> Base;

// ------------------------------------------------------------ what the measurement hands over
struct Call {
  int rel;
  StPtr old, nu;
  Eigen::MatrixXd Ho, Hn, r, R;
};
std::vector<Call> calls;
boost::shared_ptr<Base> prevMeas;
StPtr oldState;
std::vector<double> askedMeas, askedState;
int askedSensor = -1;
namespace msf_core {
template <> template <class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<St>::CalculateAndApplyCorrection(shared_ptr<St> s, MSF_Core<St>&, const Eigen::MatrixBase<H_type>& H,
    const Eigen::MatrixBase<Res_type>& r, const Eigen::MatrixBase<R_type>& R) {
  calls.push_back(Call{0, StPtr(), s, Eigen::MatrixXd(), H, r, R});
}
template <>
void MSF_MeasurementBase<St>::CalculateAndApplyCorrection(shared_ptr<St> s, MSF_Core<St>&, const Eigen::MatrixXd& H, const Eigen::MatrixXd& r,
                                                          const Eigen::MatrixXd& R) {
  calls.push_back(Call{0, StPtr(), s, Eigen::MatrixXd(), H, r, R});
}
template <> template <class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<St>::CalculateAndApplyCorrectionRelative(shared_ptr<St> so, shared_ptr<St> sn, MSF_Core<St>&,
    const Eigen::MatrixBase<H_type>& Ho, const Eigen::MatrixBase<H_type>& Hn, const Eigen::MatrixBase<Res_type>& r, const Eigen::MatrixBase<R_type>& R) {
  calls.push_back(Call{1, so, sn, Ho, Hn, r, R});
}
template <> boost::shared_ptr<Base> MSF_Core<St>::GetPreviousMeasurement(double t, int id) {
  askedMeas.push_back(t);
  askedSensor = id;
  return prevMeas;
}
template <> StPtr MSF_Core<St>::GetClosestState(double t) {
  askedState.push_back(t);
  return oldState;
}
}
#if APP == 1 || APP == 4 || APP == 5
#define HAS_POSE 1
#include <msf_updates/pose_sensor_handler/pose_measurement.h>
#endif
#if APP == 2 || APP == 5
#define HAS_POSITION 1
#include <msf_updates/position_sensor_handler/position_measurement.h>
#endif
#if APP == 4
#define HAS_PRESS 1
#include <msf_updates/pressure_sensor_handler/pressure_measurement.h>
#endif
#if APP == 3
#define HAS_SPH 1
#include <msf_updates/spherical_position_sensor/spherical_measurement.h>
#endif
typedef St::StateDefinition_T D;

struct Manager : msf_core::MSF_SensorManager<St> {
  Manager() { this->data_playback_ = false; this->msf_core_.reset(new msf_core::MSF_Core<St>(*this)); }
  void Init(double) const {}
  void InitState(St&) const {}
  void ResetState(St&) const {}
  void CalculateQAuxiliaryStates(St&, double) const {}
  void SetStateCovariance(MatN&) const {}
  void AugmentCorrectionVector(VecN&) const {}
  void SanityCheckCorrection(St&, const St&, VecN&) const {}
  bool GetParamFixedBias() const { return false; }
  double GetParamNoiseAcc() const { return 0; }
  double GetParamNoiseAccbias() const { return 0; }
  double GetParamNoiseGyr() const { return 0; }
  double GetParamNoiseGyrbias() const { return 0; }
  double GetParamFuzzyTrackingThreshold() const { return 0.1; }
  void PublishStateInitial(const StPtr&) const {}
  void PublishStateAfterPropagation(const StPtr&) const {}
  void PublishStateAfterUpdate(const StPtr&) const {}
};

// ------------------------------------------------------------ error-state layout, found by moving each entry
struct Block { const char* name; int start, len; };
std::vector<Block> layout;
std::vector<std::pair<const char*, Eigen::VectorXd> > values(const St& s) {
  std::vector<std::pair<const char*, Eigen::VectorXd> > o;
  auto v = [&](const char* n, const Eigen::VectorXd& x) { o.push_back({n, x}); };
  auto q = [&](const char* n, const Eigen::Quaterniond& x) { Eigen::VectorXd y(3); y << x.x(), x.y(), x.z(); o.push_back({n, y}); };
  v("p", s.Get<D::p>()); v("v", s.Get<D::v>()); q("q", s.Get<D::q>()); v("bw", s.Get<D::b_w>()); v("ba", s.Get<D::b_a>());
#ifdef HAS_POSE
  v("L", s.Get<D::L>()); q("qwv", s.Get<D::q_wv>()); v("pwv", s.Get<D::p_wv>()); q("qic", s.Get<D::q_ic>()); v("pic", s.Get<D::p_ic>());
#endif
#ifdef HAS_PRESS
  v("bp", s.Get<D::b_p>());
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
  v("pip", s.Get<D::p_ip>());
#endif
  return o;
}
void findLayout() {
  layout.clear();
  St z;
  z.Reset();
  auto base = values(z);
  for (size_t k = 0; k < base.size(); ++k) layout.push_back(Block{base[k].first, -1, int(base[k].second.size())});
  for (int i = 0; i < N; ++i) {
    St s(z);
    VecN c = VecN::Zero();
    c(i) = 0.01;
    s.Correct(c);
    auto x = values(s);
    for (size_t k = 0; k < x.size(); ++k)
      for (int e = 0; e < x[k].second.size(); ++e)
        if (x[k].second(e) != base[k].second(e)) {
          if (e == 0) layout[k].start = i;
          else if (layout[k].start != i - e) layout[k].start = -2;  // not contiguous
        }
  }
}

// ------------------------------------------------------------ text
std::string num(double x, double s) {
  double y = x * s;
  if (!std::isfinite(y)) return "2000000001";
  if (fabs(y - std::round(y)) > 1e-5 + 1e-10 * fabs(y)) return "2000000003";
  return std::to_string(hc::rnd(y, 1));
}
template <class M> std::string mat(const M& m, const std::vector<double>& s) {  // one scale per row
  std::vector<std::string> rows;
  for (int i = 0; i < m.rows(); ++i) {
    std::vector<std::string> r;
    for (int j = 0; j < m.cols(); ++j) r.push_back(num(m(i, j), s[i < int(s.size()) ? i : s.size() - 1]));
    rows.push_back(hc::arr(r));
  }
  return hc::arr(rows);
}
std::string blocks(const Eigen::MatrixXd& H, const std::vector<double>& s) {
  hc::J j;
  for (const Block& b : layout) j.raw(b.name, b.start < 0 ? "[]" : mat(H.block(0, b.start, H.rows(), b.len), s));
  return j.done();
}
// which pairs of blocks of the covariance were cleared (1), kept (0) or changed otherwise (2)
std::string covChange(const MatN& a, const MatN& b) {
  std::vector<std::string> z, o;
  for (const Block& x : layout)
    for (const Block& y : layout) {
      if (x.start < 0 || y.start < 0) continue;
      auto A = a.block(x.start, y.start, x.len, y.len), B = b.block(x.start, y.start, x.len, y.len);
      std::string t = std::string("[\"") + x.name + "\",\"" + y.name + "\"]";
      if (A == B) continue;
      if ((B.array() == 0).all()) z.push_back(t);
      else o.push_back(t);
    }
  return hc::J().raw("zero", hc::arr(z)).raw("other", hc::arr(o)).done();
}
std::string names() {
  std::vector<std::string> o;
  for (const Block& b : layout) o.push_back("[\"" + std::string(b.name) + "\"," + std::to_string(b.start) + "," + std::to_string(b.len) + "]");
  return hc::arr(o);
}
struct W {
  const hc::Words& w;
  size_t i;
  W(const hc::Words& x, size_t k = 1) : w(x), i(k) {}
  const std::string& s() { static std::string e; return i < w.size() ? w[i++] : e; }
  long n() { return hc::inum(s()); }
  double d(double scale) { return n() / scale; }
  Eigen::Vector3d v3(double s) { double a = d(s), b = d(s), c = d(s); return Eigen::Vector3d(a, b, c); }
  Eigen::Quaterniond q() {
    double a = n(), b = n(), c = n(), e = n(), k = std::sqrt(a * a + b * b + c * c + e * e);
    return Eigen::Quaterniond(a / k, b / k, c / k, e / k);
  }
};
StPtr state(W& w) {  // punit p q qwv qic pwv pic L bp pip seed
  StPtr s(new St);
  s->Reset();
  double pu = w.n();
  s->Set<D::p>(w.v3(pu));
  s->Set<D::q>(w.q());
  Eigen::Quaterniond qwv = w.q(), qic = w.q();
  Eigen::Vector3d pwv = w.v3(8), pic = w.v3(8);
  double L = w.d(8), bp = w.d(8);
  Eigen::Vector3d pip = w.v3(8);
  long seed = w.n();
  s->Set<D::v>(Eigen::Vector3d(seed % 7, 1, -2)); s->Set<D::b_w>(Eigen::Vector3d(0.25, seed % 5, 1)); s->Set<D::b_a>(Eigen::Vector3d(seed % 3, -1, 0.5));
#ifdef HAS_POSE
  s->Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(L));
  s->Set<D::q_wv>(qwv); s->Set<D::q_ic>(qic); s->Set<D::p_wv>(pwv); s->Set<D::p_ic>(pic);
#endif
#ifdef HAS_PRESS
  s->Set<D::b_p>(Eigen::Matrix<double, 1, 1>::Constant(bp));
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
  s->Set<D::p_ip>(pip);
#endif
  for (int i = 0; i < N; ++i)
    for (int k = 0; k < N; ++k) s->P(i, k) = (std::min(i, k) * 7 + std::max(i, k) * 13 + seed) % 50 + 1;
  return s;
}
double covEntry(long seed, int i, int k) { return (std::min(i, k) * 5 + std::max(i, k) * 11 + seed) % 32 / 64.0 + (i == k ? 4 : 0); }
double moved(const St& a, const St& b) {
  double d = 0;
  auto x = values(a), y = values(b);
  for (size_t k = 0; k < x.size(); ++k) d = std::max(d, (x[k].second - y[k].second).cwiseAbs().maxCoeff());
  return d;
}

std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  Manager* m = new Manager;
  std::vector<std::string> out;
  findLayout();
  for (const hc::Words& o : ops) {
    W w(o);
    const std::string op = o[0];
    hc::J j;
    if (op == "start") { out.push_back(j.raw("names", names()).done()); continue; }
    // kind isabs sensor fixed-bits(L pic qic pwv qwv pip) fixedcov noise noise2 covseed nscales scales... t state reading
    int isabs = w.n(), sensor = w.n();
    int idx[6] = {-1, -1, -1, -1, -1, -1}, mask = 0;
#ifdef HAS_POSE
    idx[0] = D::L; idx[1] = D::p_ic; idx[2] = D::q_ic; idx[3] = D::p_wv; idx[4] = D::q_wv;
#endif
#if defined(HAS_POSITION) || defined(HAS_SPH)
    idx[5] = D::p_ip;
#endif
    for (int i = 0; i < 6; ++i) if (w.n() && idx[i] >= 0) mask |= 1 << idx[i];
    bool fixedCov = w.n();
    double n1 = w.d(8), n2 = w.d(8);
    long cseed = w.n();
    std::vector<double> hs, rs;
    for (int k = w.n(); k > 0; --k) { hs.push_back(w.n()); rs.push_back(w.n()); }
    double t = 1000 + w.d(64);
    StPtr s = state(w);
    calls.clear(); askedMeas.clear(); askedState.clear(); askedSensor = -1;
    prevMeas.reset(); oldState.reset();
    boost::shared_ptr<Base> meas;
    double a0 = 0, a1 = 0;
#ifdef HAS_POSE
    if (op == "pose") {
      typedef msf_updates::pose_measurement::PoseMeasurement<> PM;
      auto make = [&](bool fc, double x1, double x2, long cs, double tt, bool ab) {
        boost::shared_ptr<geometry_msgs::PoseWithCovarianceStamped> msg(new geometry_msgs::PoseWithCovarianceStamped);
        Eigen::Vector3d z = w.v3(8);
        Eigen::Quaterniond q = w.q();
        msg->pose.pose.position.x = z[0]; msg->pose.pose.position.y = z[1]; msg->pose.pose.position.z = z[2];
        msg->pose.pose.orientation.w = q.w(); msg->pose.pose.orientation.x = q.x();
        msg->pose.pose.orientation.y = q.y(); msg->pose.pose.orientation.z = q.z();
        for (int i = 0; i < 36; ++i) msg->pose.covariance[i] = covEntry(cs, i / 6, i % 6);
        boost::shared_ptr<PM> p(new PM(x1, x2, true, fc, ab, sensor, false, 1000, mask));
        p->MakeFromSensorReading(msg, tt);
        return p;
      };
      meas = make(fixedCov, n1, n2, cseed, t, isabs);
      if (!isabs) {
        int pk = w.n(), so = w.n();  // previous: 0 invalid 1 of another type 2 pose; old state valid
        double to = 1000 + w.d(64);
        oldState = state(w);
        oldState->time = so ? to : msf_core::constants::INVALID_TIME;
        boost::shared_ptr<Base> p = make(!fixedCov, n1 + 1, n2 + 1, cseed + 3, to, true);
        boost::shared_ptr<msf_core::MSF_InvalidMeasurement<St> > inv(new msf_core::MSF_InvalidMeasurement<St>);
        if (pk == 0) prevMeas = inv;
        else if (pk == 1) { prevMeas.reset(new msf_core::MSF_InvalidMeasurement<St>); prevMeas->time = to; }
        else prevMeas = p;
      }
    }
#endif
#ifdef HAS_POSITION
    if (op == "position") {
      boost::shared_ptr<sensor_fusion_comm::PointWithCovarianceStamped> msg(new sensor_fusion_comm::PointWithCovarianceStamped);
      Eigen::Vector3d z = w.v3(8);
      msg->point.x = z[0]; msg->point.y = z[1]; msg->point.z = z[2];
      for (int i = 0; i < 9; ++i) msg->covariance[i] = covEntry(cseed, i / 3, i % 3);
      boost::shared_ptr<msf_updates::position_measurement::PositionMeasurement> p(
          new msf_updates::position_measurement::PositionMeasurement(n1, fixedCov, isabs, sensor, mask, false, 1000));
      p->MakeFromSensorReading(msg, t);
      meas = p;
    }
#endif
#if defined(HAS_PRESS) || defined(HAS_SPH)
    boost::shared_ptr<geometry_msgs::PointStamped> pt(new geometry_msgs::PointStamped);
#endif
#ifdef HAS_PRESS
    if (op == "pressure") {
      Eigen::Vector3d z = w.v3(8);
      pt->point.x = z[0]; pt->point.y = z[1]; pt->point.z = z[2];
      boost::shared_ptr<pressure_measurement::PressureMeasurement> p(new pressure_measurement::PressureMeasurement(n1, isabs, sensor, false, 1000));
      p->MakeFromSensorReading(pt, t);
      meas = p;
    }
#endif
#ifdef HAS_SPH
    if (op == "angle") {
      a0 = w.d(1000); a1 = w.d(1000);
      pt->point.x = a0; pt->point.y = a1; pt->point.z = 77;
      boost::shared_ptr<msf_spherical_position::AngleMeasurement> p(new msf_spherical_position::AngleMeasurement(n1, fixedCov, isabs, sensor, mask, false, 1000));
      p->MakeFromSensorReading(pt, t);
      meas = p;
    }
    if (op == "distance") {
      Eigen::Vector3d z = w.v3(8);
      pt->point.x = z[0]; pt->point.y = z[1]; pt->point.z = z[2];
      boost::shared_ptr<msf_spherical_position::DistanceMeasurement> p(new msf_spherical_position::DistanceMeasurement(n1, fixedCov, isabs, sensor, mask, false, 1000));
      p->MakeFromSensorReading(pt, t);
      meas = p;
    }
#endif
    if (!meas) throw std::runtime_error("unknown reading " + op);
    s->time = t;
    St before(*s), beforeOld(oldState ? *oldState : *s);
    meas->Apply(s, *m->msf_core_);
    j.n("calls", calls.size()).n("moved", moved(*s, before) != 0 || (oldState && moved(*oldState, beforeOld) != 0)).raw("cov", covChange(before.P, s->P));
    if (oldState) j.raw("covold", covChange(beforeOld.P, oldState->P));
    std::vector<std::string> am, as;
    for (double x : askedMeas) am.push_back(num(x - 1000, 64));
    for (double x : askedState) as.push_back(num(x - 1000, 64));
    j.raw("askm", hc::arr(am)).raw("asks", hc::arr(as)).n("asksensor", askedSensor);
    if (calls.size() == 1) {
      Call& c = calls[0];
      j.n("rel", c.rel).n("same", c.nu == s && (!c.rel || c.old == oldState));
      j.raw("H", blocks(c.Hn, hs));
      if (c.rel) j.raw("Ho", blocks(c.Ho, hs));
      if (op == "angle") {  // the predicted angles, from the residual
        double th = a0 - c.r(0, 0), ph = a1 - c.r(1, 0);
        j.raw("ang", hc::arr({num(cos(th), rs[0]), num(sin(th), rs[0]), num(cos(ph), rs[1]), num(sin(ph), rs[1]),
                              std::to_string(hc::rnd(th, 1e6)), std::to_string(hc::rnd(c.r(1, 0), 1e6))}));
      } else j.raw("r", mat(c.r, rs));
      std::vector<double> R64(c.R.rows(), 64);
      if (op == "pose" && c.R.rows() == 7) {
        double off = c.R.row(6).head(6).norm() + c.R.col(6).head(6).norm();
        j.n("r66", c.R(6, 6) > 0 && off == 0);
        c.R.conservativeResize(6, 6);
      }
      j.raw("R", mat(c.R, R64));
    }
    out.push_back(j.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(out)).done();
}
int main(int argc, char** argv) { return hc::drive(argc, argv, run); }
