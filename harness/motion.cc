// Drives the real filter core with three-dimensional motion and records the states around every call.
// See spec/Motion.tla for the units.
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <ros/ros.h>
#include "common.h"
#include <msf_core/msf_core.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#include <boost/fusion/container.hpp>

namespace h {
enum StateDefinition { p, v, q, b_w, b_a, X };
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, X, msf_core::Auxiliary> > Seq;
typedef msf_core::GenericState_T<Seq, StateDefinition> EKFState;
typedef boost::shared_ptr<EKFState> StatePtr;
enum { IP = 0, IV = 3, IQ = 6, IBW = 9, IBA = 12, IX = 15, NERR = 16 };
const double TICK = 1024.0;
std::vector<std::string> outApp;
double noiseAcc = 0, noiseGyr = 0, noiseAccbias = 0, noiseGyrbias = 0;  // of the current behaviour
struct Move;
Move* current = 0;

struct Manager : msf_core::MSF_SensorManager<EKFState> {
  Manager() { this->data_playback_ = false; this->msf_core_.reset(new msf_core::MSF_Core<EKFState>(*this)); }
  void Init(double) const {}
  void InitState(EKFState&) const {}
  void ResetState(EKFState&) const {}
  void CalculateQAuxiliaryStates(EKFState& s, double) const { s.GetQBlock<X>().setZero(); }
  void SetStateCovariance(Eigen::Matrix<double, NERR, NERR>&) const {}
  void AugmentCorrectionVector(Eigen::Matrix<double, NERR, 1>& c) const;
  void SanityCheckCorrection(EKFState&, const EKFState&, Eigen::Matrix<double, NERR, 1>&) const {}
  bool GetParamFixedBias() const { return false; }
  double GetParamNoiseAcc() const { return noiseAcc; }
  double GetParamNoiseAccbias() const { return noiseAccbias; }
  double GetParamNoiseGyr() const { return noiseGyr; }
  double GetParamNoiseGyrbias() const { return noiseGyrbias; }
  double GetParamFuzzyTrackingThreshold() const { return 0.1; }
  void PublishStateInitial(const StatePtr&) const {}
  void PublishStateAfterPropagation(const StatePtr&) const {}
  void PublishStateAfterUpdate(const StatePtr&) const {}
};
template <class M> std::string vec(const M& m, double scale) {
  std::vector<std::string> e;
  for (int i = 0; i < m.size(); ++i) e.push_back(std::to_string(hc::rnd(m(i), scale)));
  return hc::arr(e);
}
std::string rec(const EKFState& s) {
  const Eigen::Quaterniond& qq = s.Get<q>();
  Eigen::Vector4d c(qq.w(), qq.x(), qq.y(), qq.z());
  return hc::J().n("t", hc::rnd(s.time, TICK)).raw("am", vec(s.a_m, 256)).raw("wm", vec(s.w_m, 1024)).raw("p", vec(s.Get<p>(), 1048576))
      .raw("v", vec(s.Get<v>(), 65536)).raw("q", vec(c, 16384)).n("nn", hc::rnd(c.squaredNorm() - 1, 1e9)).raw("ba", vec(s.Get<b_a>(), 256))
      .raw("bw", vec(s.Get<b_w>(), 1024)).n("x", hc::rnd(s.Get<X>()(0), 1)).done();
}
msf_core::Vector3 v3(const hc::Words& w, int i, double scale) { return msf_core::Vector3(hc::num(w[i]), hc::num(w[i + 1]), hc::num(w[i + 2])) / scale; }
std::string ints(const hc::Words& w, int i, int n) {
  std::vector<std::string> e(w.begin() + i, w.begin() + i + n);
  return hc::arr(e);
}

// Diagonal of a block of the covariance, in sixteenths of a tick worth of unit noise.
std::string var(const EKFState& s, int i, int n = 3) { return vec(s.P.diagonal().segment(i, n), TICK * 16); }
struct Move : msf_core::MSF_MeasurementBase<EKFState> {
  hc::Words w;  // meas id t sid dp3 dv3 dq3 dbw3 dba3 dx dynamic
  Move(const hc::Words& w_) : msf_core::MSF_MeasurementBase<EKFState>(true, hc::inum(w_[3]), false, 0), w(w_) { time = hc::num(w[2]) / TICK; }
  std::string Type() { return "move"; }
  void Apply(StatePtr st, msf_core::MSF_Core<EKFState>& core) {
    std::string before = rec(*st);
    std::string pn = hc::J().raw("v", var(*st, IV)).raw("q", var(*st, IQ)).raw("ba", var(*st, IBA)).raw("bw", var(*st, IBW)).done();
    current = this;
    if (hc::inum(w[20])) {
      Eigen::MatrixXd H = Eigen::MatrixXd::Zero(2, NERR), r = Eigen::MatrixXd::Zero(2, 1), R = Eigen::MatrixXd::Identity(2, 2);
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    } else {
      Eigen::Matrix<double, 2, NERR> H = Eigen::Matrix<double, 2, NERR>::Zero();
      Eigen::Matrix<double, 2, 1> r = Eigen::Matrix<double, 2, 1>::Zero();
      Eigen::Matrix<double, 2, 2> R = Eigen::Matrix<double, 2, 2>::Identity();
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    }
    current = 0;
    std::string m = hc::J().n("t", hc::inum(w[2])).raw("dp", ints(w, 4, 3)).raw("dv", ints(w, 7, 3)).raw("dq", ints(w, 10, 3)).raw("dbw", ints(w, 13, 3))
                        .raw("dba", ints(w, 16, 3)).n("dx", hc::inum(w[19])).done();
    outApp.push_back(hc::J().n("t", hc::rnd(st->time, TICK)).raw("b", before).raw("a", rec(*st)).raw("m", m).raw("pn", pn).done());
  }
};
void Manager::AugmentCorrectionVector(Eigen::Matrix<double, NERR, 1>& c) const {
  if (!current) return;
  const hc::Words& w = current->w;
  c.segment<3>(IP) += v3(w, 4, 256);
  c.segment<3>(IV) += v3(w, 7, 256);
  c.segment<3>(IQ) += 2 * v3(w, 10, 1024);
  c.segment<3>(IBW) += v3(w, 13, 1024);
  c.segment<3>(IBA) += v3(w, 16, 256);
  c[IX] += hc::num(w[19]);
}
struct Imu : msf_core::IMUHandler<EKFState> {
  Imu(Manager& m) : msf_core::IMUHandler<EKFState>(m, "", "") {}
  bool Initialize() { return true; }
};
Eigen::Quaterniond quat(const hc::Words& w, int i) {
  return Eigen::Quaterniond(hc::num(w[i]), hc::num(w[i + 1]), hc::num(w[i + 2]), hc::num(w[i + 3])).normalized();
}

std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  noiseAcc = hc::num(head[2]);
  noiseAccbias = hc::num(head[3]);
  noiseGyr = hc::num(head[4]);
  noiseGyrbias = hc::num(head[5]);
  Manager mgr;
  msf_core::MSF_Core<EKFState>& core = *mgr.msf_core_;
  Imu imu(mgr);
  std::set<long> ticks;
  std::map<long, std::string> last;
  std::vector<std::string> outs;
  for (size_t i = 0; i < ops.size(); ++i) {
    const hc::Words& w = ops[i];
    outApp.clear();
    if (w[0] == "init") {  // init t a3 w3 p3 v3 q4 ba3 bw3 x
      boost::shared_ptr<msf_core::MSF_InitMeasurement<EKFState> > m(new msf_core::MSF_InitMeasurement<EKFState>(true));
      ticks.insert(hc::inum(w[1]));
      m->time = hc::num(w[1]) / TICK;
      m->Geta_m() = v3(w, 2, 256);
      m->Getw_m() = v3(w, 5, 1024);
      m->SetStateInitValue<p>(v3(w, 8, 256));
      m->SetStateInitValue<v>(v3(w, 11, 256));
      m->SetStateInitValue<q>(quat(w, 14));
      m->SetStateInitValue<b_a>(v3(w, 18, 256));
      m->SetStateInitValue<b_w>(v3(w, 21, 1024));
      Eigen::Matrix<double, 1, 1> x1;
      x1(0) = hc::num(w[24]);
      m->SetStateInitValue<X>(x1);
      m->GetStateCovariance().setZero();
      m->GetStateCovariance()(IX, IX) = 1;
      core.Init(m);
      last.clear();
    } else if (w[0] == "imu") {  // imu t a3 w3
      ticks.insert(hc::inum(w[1]));
      imu.ProcessIMU(v3(w, 2, 256), v3(w, 5, 1024), hc::num(w[1]) / TICK, i);
    } else if (w[0] == "ext") {  // ext t a3 w3 flag p3 v3 q4
      ticks.insert(hc::inum(w[1]));
      imu.ProcessState(v3(w, 2, 256), v3(w, 5, 1024), v3(w, 9, 256), v3(w, 12, 256), quat(w, 15), hc::inum(w[8]) != 0, hc::num(w[1]) / TICK, i);
    } else if (w[0] == "meas") {
      boost::shared_ptr<Move> m(new Move(w));
      ticks.insert(hc::inum(w[2]));
      core.AddMeasurement(m);
    }
    std::vector<std::string> chg, del;
    for (long t : ticks) {
      StatePtr st = core.GetStateAtTime(t / TICK);
      if (st->time == t / TICK) {
        std::string r = rec(*st);
        std::map<long, std::string>::iterator it = last.find(t);
        if (it == last.end() || it->second != r) { chg.push_back(r); last[t] = r; }
      } else if (last.count(t)) {
        del.push_back(std::to_string(t));
        last.erase(t);
      }
    }
    outs.push_back(hc::J().raw("app", hc::arr(outApp)).raw("chg", hc::arr(chg)).raw("del", hc::arr(del)).done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
