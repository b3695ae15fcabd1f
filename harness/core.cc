// Drives the real filter core (msf_core) through its public entry points with scripted inputs and
// records the projected observable state after every call. See spec/MsfCore.tla for the units.
#include <iostream>
#include <set>
#include <map>
#include <memory>
#include <boost/weak_ptr.hpp>
#include <ros/ros.h>
#include "common.h"
#include <msf_core/msf_core.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#include <boost/fusion/container.hpp>

namespace h {
enum StateDefinition { p, v, q, b_w, b_a, X, q_n };
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, X, msf_core::Auxiliary>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q_n, msf_core::AuxiliaryNonTemporalDrifting> > Seq;
typedef msf_core::GenericState_T<Seq, StateDefinition> EKFState;
typedef boost::shared_ptr<EKFState> StatePtr;
enum { IP = 0, IV = 3, IQ = 6, IBW = 9, IBA = 12, IX = 15, IQN = 16, NERR = 19 };
static_assert(static_cast<int>(EKFState::nErrorStatesAtCompileTime) == NERR, "error state size");

const double TICK = 1024.0, UA = 64.0, UV = 131072.0, UP = 268435456.0, UF = 128.0;
const double G = msf_core::constants::GRAVITY[2];
const int HASHMOD = 65521;
int axis = 0;          // 0,1,2
bool fixedBias = false;
std::vector<std::string> outApp, outPub;  // events of the current call
struct Spy;
Spy* current = 0;
StatePtr currentState;
std::string rec(const EKFState& s, bool withP);
// A whole covariance in units of 1/20000, row by row; the entry of X is left to rec().
double covUnit = 20000;  // of the covariance supplied last
std::string covariance(const Eigen::Matrix<double, NERR, NERR>& P) {
  std::string r = "[";
  for (int i = 0; i < NERR; ++i)
    for (int j = 0; j < NERR; ++j) {
      double y = i == IX && j == IX ? 0 : P(i, j) * covUnit;
      if (!(fabs(y) < 1e6) || fabs(y - std::round(y)) > 1e-6) y = 999999;
      r += (r.size() > 1 ? "," : "") + std::to_string(llround(y));
    }
  return r + "]";
}

struct Manager : msf_core::MSF_SensorManager<EKFState> {
  Manager() { this->data_playback_ = false; this->msf_core_.reset(new msf_core::MSF_Core<EKFState>(*this)); }
  void Init(double) const {}
  void InitState(EKFState&) const {}
  void ResetState(EKFState&) const {}
  void CalculateQAuxiliaryStates(EKFState& s, double dt) const {
    s.GetQBlock<X>()(0, 0) = dt * TICK;  // the covariance of X counts ticks
    s.GetQBlock<q_n>().setZero();
  }
  void SetStateCovariance(Eigen::Matrix<double, NERR, NERR>&) const {}
  void AugmentCorrectionVector(Eigen::Matrix<double, NERR, 1>& c) const;
  void SanityCheckCorrection(EKFState& d, const EKFState& b, Eigen::Matrix<double, NERR, 1>&) const;
  bool GetParamFixedBias() const { return fixedBias; }
  double GetParamNoiseAcc() const { return 0.0; }
  double GetParamNoiseAccbias() const { return 0.0; }
  double GetParamNoiseGyr() const { return 0.0; }
  double GetParamNoiseGyrbias() const { return 0.0; }
  double GetParamFuzzyTrackingThreshold() const { return 0.1; }
  void PublishStateInitial(const StatePtr& s) const {
    outPub.push_back(hc::J().str("k", "init").raw("s", rec(*s, true)).raw("cov", covariance(s->P)).done());
  }
  void PublishStateAfterPropagation(const StatePtr& s) const { outPub.push_back(hc::J().str("k", "prop").raw("s", rec(*s, false)).done()); }
  void PublishStateAfterUpdate(const StatePtr& s) const { outPub.push_back(hc::J().str("k", "upd").raw("s", rec(*s, true)).done()); }
};

double wrapAngle(const Eigen::Quaterniond& qq) {
  Eigen::Quaterniond a = qq;
  if (a.w() < 0) a.coeffs() *= -1;
  return 2 * atan2(a.vec()[axis], a.w());
}
bool finiteState(const EKFState& s) {
  return std::isfinite(s.Get<p>().sum()) && std::isfinite(s.Get<v>().sum()) && std::isfinite(s.Get<q>().coeffs().sum());
}
// Projection of a state: integers in the units of the specification.
//   nx: some value was not an integer in its unit; of: an off-axis component is not what it must be.
std::string rec(const EKFState& s, bool withP) {
  hc::J j;
  double tt = s.time * TICK;
  j.n("t", hc::rnd(s.time, TICK));
  if (!finiteState(s)) return j.n("nan", 1).done();
  int nx = 0, of = 0;
  if (fabs(tt - std::round(tt)) > 1e-6) nx = 1;
  Eigen::Vector3d am = s.a_m;
  if (axis == 2) am[2] -= G; else am[2] -= 0;
  auto put = [&](const char* k, double val, double scale) {
    double y = val * scale;
    if (fabs(y - std::round(y)) > 1e-3) nx = 1;
    j.n(k, hc::rnd(val, scale));
  };
  put("am", am[axis], UA);
  put("wm", s.w_m[axis], UA);
  put("v", s.Get<v>()[axis], UV);
  {
    double y = s.Get<p>()[axis] * UP;
    if (fabs(y - std::round(y)) > 1e-2) nx = 1;
    double m = std::fmod(std::round(y), 65536.0);
    if (m < 0) m += 65536.0;
    j.n("p", std::isfinite(m) ? llround(m) : -1);
  }
  put("ba", s.Get<b_a>()[axis], UA);
  put("bw", s.Get<b_w>()[axis], UA);
  j.n("th", hc::rnd(wrapAngle(s.Get<q>()), UV));
  put("x", s.Get<X>()(0), 1.0);
  {
    double y = wrapAngle(s.Get<q_n>()) * UF;
    if (fabs(y - std::round(y)) > 1e-3) nx = 1;
    j.n("f", hc::rnd(y, 1));
  }
  for (int i = 0; i < 3; ++i) {
    if (i == axis) continue;
    if (s.w_m[i] != 0 || s.Get<b_a>()[i] != 0 || s.Get<b_w>()[i] != 0) of = 1;
    if (fabs(s.Get<q>().vec()[i]) > 1e-12 || fabs(s.Get<q_n>().vec()[i]) > 1e-12) of = 1;
    if (i != 2 && (fabs(s.a_m[i]) != 0 || fabs(s.Get<v>()[i]) > 1e-9 || fabs(s.Get<p>()[i]) > 1e-9)) of = 1;
    if (i == 2 && s.a_m[i] != 0) of = 1;
  }
  if (withP) {
    double y = s.P(IX, IX);
    // The built-in initial covariance of X is 1e-4; supplied ones are integers.
    if (fabs(y - 1e-4 - std::round(y - 1e-4)) > 1e-9 && fabs(y - std::round(y)) > 1e-9) nx = 1;
    j.n("px", hc::rnd(std::floor(y + 1e-6), 1));
    if (!(s.P.allFinite()) || (s.P - s.P.transpose()).cwiseAbs().maxCoeff() > 1e-6 * (1 + s.P.cwiseAbs().maxCoeff())) of = 2;
  }
  j.n("nx", nx).n("of", of);
  return j.done();
}

std::map<int, boost::weak_ptr<msf_core::MSF_MeasurementBase<EKFState> > > live;

struct Spy : msf_core::MSF_MeasurementBase<EKFState> {
  int id, code, dv, dba, dbw, df, dth, kind;
  double res;
  // kind: 0 fixed-size, 1 dynamic-size, 2 returns without applying anything, 3 relative fixed-size
  Spy(int id_, int sid, int kind_, bool gate, double thr, double res_)
      : msf_core::MSF_MeasurementBase<EKFState>(true, sid, gate, thr), id(id_), code(0), dv(0), dba(0), dbw(0),
        df(0), dth(0), kind(kind_), res(res_) {}
  std::string Type() { return "spy"; }
  void Apply(StatePtr st, msf_core::MSF_Core<EKFState>& core) {
    std::string before = rec(*st, true);
    current = this;
    currentState = st;
    if (kind == 0) {
      Eigen::Matrix<double, 1, NERR> H = Eigen::Matrix<double, 1, NERR>::Zero();
      Eigen::Matrix<double, 1, 1> r, R;
      r(0) = res;
      R(0) = 1;
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    } else if (kind == 1) {
      Eigen::MatrixXd H = Eigen::MatrixXd::Zero(1, NERR), r(1, 1), R(1, 1);
      r(0, 0) = res;
      R(0, 0) = 1;
      this->CalculateAndApplyCorrection(st, core, H, r, R);
    }
    current = 0;
    currentState.reset();
    outApp.push_back(hc::J().n("m", id).raw("b", before).raw("a", rec(*st, true)).done());
  }
};

void Manager::AugmentCorrectionVector(Eigen::Matrix<double, NERR, 1>& c) const {
  if (!current) return;
  EKFState& st = *currentState;
  const EKFState& cs = st;
  double x = cs.Get<X>()(0);
  double xn = std::fmod(3 * x + current->code, HASHMOD);
  c[IX] += xn - x;
  c[IV + axis] += current->dv / UV;
  c[IBA + axis] += current->dba / UA;
  c[IBW + axis] += current->dbw / UA;
  c[IQ + axis] += 2 * sin(current->dth / UV / 2);
  c[IQN + axis] += 2 * sin(current->df / UF / 2);
  double px = st.P(IX, IX), fr = px - std::floor(px + 1e-6);
  st.P(IX, IX) = std::fmod(3 * std::floor(px + 1e-6) + current->code, HASHMOD) + fr;
}
void Manager::SanityCheckCorrection(EKFState& d, const EKFState& b, Eigen::Matrix<double, NERR, 1>&) const {
  const EKFState& cd = d;
  outPub.push_back(hc::J().str("k", "chk").n("xa", hc::rnd(cd.Get<X>()(0), 1)).n("xb", hc::rnd(b.Get<X>()(0), 1)).done());
}

struct Imu : msf_core::IMUHandler<EKFState> {
  Imu(Manager& m) : msf_core::IMUHandler<EKFState>(m, "", "") {}
  bool Initialize() { return true; }
};

std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  axis = hc::inum(head[2]);
  fixedBias = hc::inum(head[3]) != 0;
  Manager mgr;
  msf_core::MSF_Core<EKFState>& core = *mgr.msf_core_;
  Imu imu(mgr);
  std::set<long> ticks;
  std::map<long, std::string> last;
  std::set<int> alive;
  std::vector<std::string> outs;
  auto axv = [&](double val) { msf_core::Vector3 r = msf_core::Vector3::Zero(); r[axis] = val; return r; };
  auto acc = [&](const std::string& w) {  // in 1/64 m/s2 relative to gravity; "s<n>" raw spike of n/64
    if (w[0] == 's') return axv(hc::num(w.substr(1)) / UA);
    if (w[0] >= 'd' && w[0] <= 'j') {  // a spike spread over several axes, same norm
      static const double d[7][3] = {{1, 1, 1}, {1, -1, 0}, {0, 1, 1}, {1, 0, 1}, {-1, 1, 1}, {1, 1, -1}, {3, 0, 4}};
      msf_core::Vector3 e(d[w[0] - 'd'][0], d[w[0] - 'd'][1], d[w[0] - 'd'][2]);
      return msf_core::Vector3(e.normalized() * (hc::num(w.substr(1)) / UA));
    }
    return axv(hc::num(w) / UA + (axis == 2 ? G : 0.0));
  };
  for (size_t i = 0; i < ops.size(); ++i) {
    const hc::Words& w = ops[i];
    outApp.clear();
    outPub.clear();
    std::string extra;
    if (w[0] == "init") {
      // init t sens am wm hasX x hasP px hasV v hasBA ba hasBW bw hasF f
      boost::shared_ptr<msf_core::MSF_InitMeasurement<EKFState> > m(
          new msf_core::MSF_InitMeasurement<EKFState>(hc::inum(w[2]) != 0));
      ticks.insert(hc::inum(w[1]));
      m->time = hc::num(w[1]) / TICK;
      m->Geta_m() = acc(w[3]);
      m->Getw_m() = axv(hc::num(w[4]) / UA);
      Eigen::Matrix<double, 1, 1> x1;
      if (hc::inum(w[5])) { x1(0) = hc::num(w[6]); m->SetStateInitValue<X>(x1); }
      const long supplied = hc::inum(w[7]);  // 1: all entries, 2: all, but tiny, 3: that of X alone
      covUnit = supplied == 2 ? 20000 * 1048576.0 : 20000;
      if (supplied) {
        for (int r = 0; r < NERR; ++r)
          for (int k = 0; k < NERR; ++k) m->GetStateCovariance()(r, k) = supplied == 3 ? 0 : (r == k ? 20 + r : r == IX || k == IX ? 0 : (r + k) % 4 - 1) / covUnit;
        m->GetStateCovariance()(IX, IX) = hc::num(w[8]);
      }
      if (hc::inum(w[9])) m->SetStateInitValue<v>(msf_core::Vector3(axv(hc::num(w[10]) / UV)));
      if (hc::inum(w[11])) m->SetStateInitValue<b_a>(msf_core::Vector3(axv(hc::num(w[12]) / UA)));
      if (hc::inum(w[13])) m->SetStateInitValue<b_w>(msf_core::Vector3(axv(hc::num(w[14]) / UA)));
      if (hc::inum(w[15]))
        m->SetStateInitValue<q_n>(Eigen::Quaterniond(Eigen::AngleAxisd(hc::num(w[16]) / UF, axv(1.0))));
      core.Init(m);
    } else if (w[0] == "imu") {  // imu t a w
      ticks.insert(hc::inum(w[1]));
      imu.ProcessIMU(acc(w[2]), axv(hc::num(w[3]) / UA), hc::num(w[1]) / TICK, i);
    } else if (w[0] == "ext") {  // ext t a w flag p v th
      ticks.insert(hc::inum(w[1]));
      msf_core::Quaternion qq(Eigen::AngleAxisd(hc::num(w[7]) / UV, axv(1.0)));
      imu.ProcessState(acc(w[2]), axv(hc::num(w[3]) / UA), axv(hc::num(w[5]) / UP), axv(hc::num(w[6]) / UV), qq,
                       hc::inum(w[4]) != 0, hc::num(w[1]) / TICK, i);
    } else if (w[0] == "meas") {  // meas id t sid kind gate thr res code dv dba dbw df dth   (thr,res in 1/64)
      boost::shared_ptr<Spy> m(new Spy(hc::inum(w[1]), hc::inum(w[3]), hc::inum(w[4]), hc::inum(w[5]) != 0,
                                       hc::num(w[6]) / 64, hc::num(w[7]) / 64));
      m->time = hc::num(w[2]) / TICK;
      m->code = hc::inum(w[8]);
      m->dv = hc::inum(w[9]);
      m->dba = hc::inum(w[10]);
      m->dbw = hc::inum(w[11]);
      m->df = hc::inum(w[12]);
      m->dth = hc::inum(w[13]);
      ticks.insert(hc::inum(w[2]));
      live[m->id] = m;
      alive.insert(m->id);
      core.AddMeasurement(m);
    } else if (w[0] == "fix") {
      fixedBias = hc::inum(w[1]) != 0;
    } else if (w[0] == "near") {  // near t : the public closest-state query
      ticks.insert(hc::inum(w[1]));
      StatePtr st = core.GetClosestState(hc::num(w[1]) / TICK);
      extra = st->time > 0 ? rec(*st, true) : "{\"t\":-1}";
    } else if (w[0] == "prev") {  // prev t sid
      boost::shared_ptr<msf_core::MSF_MeasurementBase<EKFState> > r =
          core.GetPreviousMeasurement(hc::num(w[1]) / TICK, hc::inum(w[2]));
      Spy* s = dynamic_cast<Spy*>(r.get());
      extra = std::to_string(s ? s->id : -1);
    } else if (w[0] == "acc") {  // acc t1 t2: mark every buffered state with a distinctive transition, accumulate
      int k = 0;
      for (long t : ticks) {
        StatePtr st = core.GetStateAtTime(t / TICK);
        if (st->time != t / TICK) continue;
        st->Fd.setIdentity();
        if ((t / 2) % 2) st->Fd(0, 1) = 1 + t % 3; else st->Fd(1, 0) = 1 + t % 3;
        ++k;
      }
      StatePtr s1 = core.GetStateAtTime(hc::num(w[1]) / TICK), s2 = core.GetStateAtTime(hc::num(w[2]) / TICK);
      if (s1->time <= 0 || s2->time <= 0) extra = "[]";
      else {
        Eigen::Matrix<double, NERR, NERR> F;
        core.GetAccumulatedStateTransitionStochasticCloning(s1, s2, F);
        std::vector<std::string> e;
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) e.push_back(std::to_string(hc::rnd(F(a, b), 1)));
        extra = hc::arr(e);
      }
    }
    // Snapshot: what changed among all time stamps ever used.
    std::vector<std::string> chg, del, mdel;
    for (long t : ticks) {
      StatePtr st = core.GetStateAtTime(t / TICK);
      if (st->time == t / TICK) {
        std::string r = rec(*st, false);
        std::map<long, std::string>::iterator it = last.find(t);
        if (it == last.end() || it->second != r) { chg.push_back(r); last[t] = r; }
      } else if (last.count(t)) {
        del.push_back(std::to_string(t));
        last.erase(t);
      }
    }
    for (std::set<int>::iterator it = alive.begin(); it != alive.end();) {
      if (live[*it].expired()) { mdel.push_back(std::to_string(*it)); alive.erase(it++); } else ++it;
    }
    hc::J o;
    o.raw("app", hc::arr(outApp)).raw("pub", hc::arr(outPub)).raw("chg", hc::arr(chg)).raw("del", hc::arr(del)).raw("mdel", hc::arr(mdel));
    if (!extra.empty()) o.raw("ret", extra);
    outs.push_back(o.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
