// A small fixture around the real filter core, for demonstrations.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include <unistd.h>
#include <boost/weak_ptr.hpp>
#include <ros/ros.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#include <boost/fusion/container.hpp>
extern "C" int usleep(useconds_t) { return 0; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#define NEAR(a, b) CHECK(std::fabs((a) - (b)) < 1e-7)
namespace d {
enum StateDefinition { p, v, q, b_w, b_a, X, q_n };
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, X, msf_core::Auxiliary>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q_n, msf_core::AuxiliaryNonTemporalDrifting> > Seq;
typedef msf_core::GenericState_T<Seq, StateDefinition> St;
typedef boost::shared_ptr<St> Ptr;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 1, 1> V1;
typedef Eigen::Matrix<double, 19, 1> Corr;
typedef Eigen::Matrix<double, 19, 19> Cov;
const V3 G = msf_core::constants::GRAVITY;
struct Mgr : msf_core::MSF_SensorManager<St> {
  bool fixedBias = false;
  double nAcc = 0, nAccB = 0, nGyr = 0, nGyrB = 0, qX = 0, fuzzy = 0.1;
  mutable std::vector<St> inits, props, upds;
  mutable std::function<void(Corr&)> augment;
  Mgr() { this->data_playback_ = false; this->msf_core_.reset(new msf_core::MSF_Core<St>(*this)); }
  void Init(double) const {}
  void InitState(St&) const {}
  void ResetState(St&) const {}
  void CalculateQAuxiliaryStates(St& s, double dt) const { s.GetQBlock<X>()(0, 0) = dt * qX; s.GetQBlock<q_n>().setZero(); }
  void SetStateCovariance(Cov&) const {}
  void AugmentCorrectionVector(Corr& c) const { if (augment) augment(c); }
  void SanityCheckCorrection(St&, const St&, Corr&) const {}
  bool GetParamFixedBias() const { return fixedBias; }
  double GetParamNoiseAcc() const { return nAcc; }
  double GetParamNoiseAccbias() const { return nAccB; }
  double GetParamNoiseGyr() const { return nGyr; }
  double GetParamNoiseGyrbias() const { return nGyrB; }
  double GetParamFuzzyTrackingThreshold() const { return fuzzy; }
  void PublishStateInitial(const Ptr& s) const { inits.push_back(*s); }
  void PublishStateAfterPropagation(const Ptr& s) const { props.push_back(*s); }
  void PublishStateAfterUpdate(const Ptr& s) const { upds.push_back(*s); }
};
struct Imu : msf_core::IMUHandler<St> {
  Imu(Mgr& m) : msf_core::IMUHandler<St>(m, "", "") {}
  bool Initialize() { return true; }
};
// Adds a given correction; the residual only decides the gate (unit covariance).
struct Meas : msf_core::MSF_MeasurementBase<St> {
  Corr c;
  Mgr& m;
  int applied = 0;
  double res = 0;
  bool dynamic = false;
  std::vector<double> stamps, px, xs;
  Meas(Mgr& mm, double t, int sid = 0, bool gate = false, double thr = 0)
      : msf_core::MSF_MeasurementBase<St>(true, sid, gate, thr), m(mm) { this->time = t; c.setZero(); }
  std::string Type() { return "demo"; }
  void Apply(Ptr st, msf_core::MSF_Core<St>& core) {
    ++applied;
    stamps.push_back(st->time);
    px.push_back(st->P(15, 15));
    const St& cs = *st;
    xs.push_back(cs.Get<X>()(0));
    m.augment = [this](Corr& k) { k += c; };
    if (dynamic) {
      Eigen::MatrixXd H = Eigen::MatrixXd::Zero(1, 19), r(1, 1), R(1, 1);
      r(0, 0) = res; R(0, 0) = 1;
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    } else {
      Eigen::Matrix<double, 1, 19> H = Eigen::Matrix<double, 1, 19>::Zero();
      V1 r, R;
      r(0) = res; R(0) = 1;
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    }
    m.augment = nullptr;
  }
};
typedef boost::shared_ptr<Meas> MPtr;
struct Filter {
  Mgr mgr;
  msf_core::MSF_Core<St>& core;
  Imu imu_;
  Filter() : core(*mgr.msf_core_), imu_(mgr) {}
  void init(double t, double x = 0, double px = 1, V3 v = V3::Zero(), V3 a = G) {
    boost::shared_ptr<msf_core::MSF_InitMeasurement<St> > m(new msf_core::MSF_InitMeasurement<St>(true));
    m->time = t;
    m->Geta_m() = a;
    m->Getw_m() = V3::Zero();
    V1 x1;
    x1(0) = x;
    m->SetStateInitValue<X>(x1);
    m->SetStateInitValue<d::v>(v);
    m->GetStateCovariance() = Cov::Identity() * 1e-3;
    m->GetStateCovariance()(15, 15) = px;
    core.Init(m);
  }
  void imu(double t, V3 a = G, V3 w = V3::Zero()) { imu_.ProcessIMU(a, w, t, 0); }
  void ext(double t, bool done, V3 p, V3 v, V3 a = G) { imu_.ProcessState(a, V3::Zero(), p, v, Eigen::Quaterniond::Identity(), done, t, 0); }
  MPtr make(double t, double dx = 0, int sid = 0) { MPtr m(new Meas(mgr, t, sid)); m->c[15] = dx; return m; }
  MPtr add(MPtr m) { core.AddMeasurement(m); return m; }
  MPtr meas(double t, double dx = 0, int sid = 0) { return add(make(t, dx, sid)); }
  Ptr at(double t) { return core.GetStateAtTime(t); }
  bool has(double t) { return at(t)->time == t; }
};
inline double x(const St& s) { return s.Get<X>()(0); }
inline V3 vel(const St& s) { return s.Get<d::v>(); }
inline V3 pos(const St& s) { return s.Get<d::p>(); }
}  // namespace d
using d::V3; using d::G; using d::Filter; using d::MPtr; using d::Meas;
