// Drives the correction arithmetic of the real measurement base class (absolute and relative updates) and the
// covariance prediction of the real core with integer-valued matrices, and records what they produced as integers.
// See spec/Update.tla for the units.
#include <iostream>
#include <map>
#include <memory>
#include <ros/ros.h>
#include "common.h"
#include <msf_core/msf_core.h>
#include <msf_core/msf_IMUHandler.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#include <boost/fusion/container.hpp>

namespace h {
enum StateDefinition { p, v, q, b_w, b_a, X };
typedef boost::fusion::vector<
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, p, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, v, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Quaternion<double>, q, msf_core::CoreStateWithPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_w, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 3, 1>, b_a, msf_core::CoreStateWithoutPropagation>,
    msf_core::StateVar_T<Eigen::Matrix<double, 1, 1>, X, msf_core::Auxiliary> > Seq;
typedef msf_core::GenericState_T<Seq, StateDefinition> EKFState;
typedef boost::shared_ptr<EKFState> StatePtr;
enum { N = 16 };
static_assert(static_cast<int>(EKFState::nErrorStatesAtCompileTime) == N, "error state size");
typedef Eigen::Matrix<double, N, N> MatN;
typedef Eigen::Matrix<double, N, 1> VecN;

bool fixedBias = false;
double noise[5] = {0, 0, 0, 0, 0};  // na nba nw nbw qx
bool corrected = false;
VecN correction;
StatePtr latest;

struct Manager : msf_core::MSF_SensorManager<EKFState> {
  Manager() { this->data_playback_ = false; this->msf_core_.reset(new msf_core::MSF_Core<EKFState>(*this)); }
  void Init(double) const {}
  void InitState(EKFState&) const {}
  void ResetState(EKFState&) const {}
  void CalculateQAuxiliaryStates(EKFState& s, double dt) const { s.GetQBlock<X>()(0, 0) = dt * noise[4]; }
  void SetStateCovariance(MatN&) const {}
  void AugmentCorrectionVector(VecN& c) const { corrected = true; correction = c; }
  void SanityCheckCorrection(EKFState&, const EKFState&, VecN&) const {}
  bool GetParamFixedBias() const { return fixedBias; }
  double GetParamNoiseAcc() const { return noise[0]; }
  double GetParamNoiseAccbias() const { return noise[1]; }
  double GetParamNoiseGyr() const { return noise[2]; }
  double GetParamNoiseGyrbias() const { return noise[3]; }
  double GetParamFuzzyTrackingThreshold() const { return 0.1; }
  void PublishStateInitial(const StatePtr& s) const { latest = s; }
  void PublishStateAfterPropagation(const StatePtr& s) const { latest = s; }
  void PublishStateAfterUpdate(const StatePtr&) const {}
};
struct Imu : msf_core::IMUHandler<EKFState> {
  Imu(Manager& m) : msf_core::IMUHandler<EKFState>(m, "", "") {}
  bool Initialize() { return true; }
};

template <int I, class S>
auto& mut(S& s) {
  typedef typename std::remove_const<typename std::remove_reference<decltype(static_cast<const S&>(s).template Get<I>())>::type>::type T;
  return const_cast<T&>(static_cast<const S&>(s).template Get<I>());
}
int nx = 0;
long long put(double val, double scale, long long mod = 0) {
  double y = val * scale;
  if (!std::isfinite(y)) { nx = 1; return 0; }
  double r = std::round(y);
  if (fabs(y - r) > (mod ? 1e-2 : 1e-5) + 1e-10 * fabs(y)) nx = 1;
  if (mod) {
    double m = std::fmod(r, double(mod));
    if (m < 0) m += mod;
    return llround(m);
  }
  return hc::rnd(y, 1);
}
template <class M>
std::string mat(const M& m, double scale, long long mod = 0) {
  std::vector<std::string> rows;
  for (int i = 0; i < m.rows(); ++i) {
    std::vector<std::string> r;
    for (int j = 0; j < m.cols(); ++j) r.push_back(std::to_string(put(m(i, j), scale, mod)));
    rows.push_back(hc::arr(r));
  }
  return hc::arr(rows);
}
VecN additive(const EKFState& s) {
  VecN x = VecN::Zero();
  x.segment<3>(0) = s.Get<p>();
  x.segment<3>(3) = s.Get<v>();
  x.segment<3>(9) = s.Get<b_w>();
  x.segment<3>(12) = s.Get<b_a>();
  x(15) = s.Get<X>()(0);
  return x;
}
std::string vec(const VecN& x, double scale) {
  std::vector<std::string> r;
  for (int i = 0; i < N; ++i) r.push_back(std::to_string(put(x(i), scale)));
  return hc::arr(r);
}

struct Meas : msf_core::MSF_MeasurementBase<EKFState> {
  std::function<void(Meas&, StatePtr, msf_core::MSF_Core<EKFState>&)> fn;
  Meas(double t, bool gate, double thr) : msf_core::MSF_MeasurementBase<EKFState>(true, 1, gate, thr) { this->time = t; }
  std::string Type() { return "update"; }
  int calls = 0;  // applied again after a later arrival: nothing more to do
  void Apply(StatePtr st, msf_core::MSF_Core<EKFState>& core) { if (calls++ == 0) fn(*this, st, core); }
  void gate(bool on, double thr) { this->enable_mah_outlier_rejection_ = on; this->mah_threshold_ = thr; }
  template <int M>
  void fixed(StatePtr st, msf_core::MSF_Core<EKFState>& core, const Eigen::MatrixXd& H, const Eigen::MatrixXd& r, const Eigen::MatrixXd& R) {
    Eigen::Matrix<double, M, N> Hf = H;
    Eigen::Matrix<double, M, 1> rf = r;
    Eigen::Matrix<double, M, M> Rf = R;
    this->CalculateAndApplyCorrection(st, core, Hf, rf, Rf);
  }
  void dynamic(StatePtr st, msf_core::MSF_Core<EKFState>& core, const Eigen::MatrixXd& H, const Eigen::MatrixXd& r, const Eigen::MatrixXd& R) {
    this->CalculateAndApplyCorrection(st, core, H, r, R);
  }
  template <int M>
  void relative(StatePtr so, StatePtr sn, msf_core::MSF_Core<EKFState>& core, const Eigen::MatrixXd& Ho, const Eigen::MatrixXd& Hn,
                const Eigen::MatrixXd& r, const Eigen::MatrixXd& R) {
    Eigen::Matrix<double, M, N> Hof = Ho, Hnf = Hn;
    Eigen::Matrix<double, M, 1> rf = r;
    Eigen::Matrix<double, M, M> Rf = R;
    this->CalculateAndApplyCorrectionRelative(so, sn, core, Hof, Hnf, rf, Rf);
  }
};

struct Reader {
  const hc::Words& w;
  size_t i;
  Reader(const hc::Words& w_) : w(w_), i(1) {}
  long n() { return hc::inum(w.at(i++)); }
  double d() { return hc::num(w.at(i++)); }
  Eigen::Vector3d v3() { double a = d(), b = d(), c = d(); return Eigen::Vector3d(a, b, c); }
  template <class M>
  void sparse(M& m) {  // count (row col value)*, 1-based
    m.setZero();
    for (long k = n(); k > 0; --k) { long a = n(), b = n(); m(a - 1, b - 1) = d(); }
  }
  Eigen::MatrixXd dense(int r, int c) {
    Eigen::MatrixXd m(r, c);
    for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) m(a, b) = d();
    return m;
  }
};

std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  Manager mgr;
  msf_core::MSF_Core<EKFState>& core = *mgr.msf_core_;
  Imu imu(mgr);
  const double G = msf_core::constants::GRAVITY[2];
  std::vector<double> times;
  std::vector<std::string> outs;
  const long long MOD = 30011;
  auto sample = [&](double dt, Eigen::Vector3d a, Eigen::Vector3d w) {
    double t = times.back() + dt;
    times.push_back(t);
    imu.ProcessIMU(a, w, t, times.size());
  };
  for (size_t i = 0; i < ops.size(); ++i) {
    Reader rd(ops[i]);
    const std::string& op = ops[i][0];
    hc::J o;
    nx = 0;
    // three quiet samples, so that no two measurements get the same time stamp
    if (op != "start")
      for (int k = 0; k < 3; ++k) sample(1.0 / 64, Eigen::Vector3d(0, 0, G), Eigen::Vector3d::Zero());
    if (op == "start") {  // start k: initialise, then k quiet samples 1/64 s apart
      boost::shared_ptr<msf_core::MSF_InitMeasurement<EKFState> > m(new msf_core::MSF_InitMeasurement<EKFState>(true));
      m->time = 64;
      m->Geta_m() = Eigen::Vector3d(0, 0, G);
      m->Getw_m() = Eigen::Vector3d::Zero();
      m->GetStateCovariance() = MatN::Identity();
      core.Init(m);
      times.push_back(64);
      for (long k = rd.n(); k > 0; --k) sample(1.0 / 64, Eigen::Vector3d(0, 0, G), Eigen::Vector3d::Zero());
      o.n("n", times.size());
    } else if (op == "upd") {  // upd back fixedbias P nU { kind gate thr u m H r R D }
      size_t back = rd.n();
      fixedBias = rd.n() != 0;
      MatN P;
      rd.sparse(P);
      std::vector<std::string> res;
      boost::shared_ptr<Meas> me(new Meas(times[times.size() - 1 - back], false, 0));
      me->fn = [&](Meas& self, StatePtr st, msf_core::MSF_Core<EKFState>& c) {
        long nU = rd.n();
        mut<p>(*st) = Eigen::Vector3d(3, -5, 7);
        mut<v>(*st) = Eigen::Vector3d(-2, 4, 1);
        mut<b_w>(*st) = Eigen::Vector3d(1, -1, 2);
        mut<b_a>(*st) = Eigen::Vector3d(-3, 2, -2);
        mut<X>(*st)(0) = 6;
        bool first = true;
        for (; nU > 0; --nU) {
          long kind = rd.n(), gate = rd.n();
          double thr = rd.d(), unit = std::ldexp(1.0, rd.n());
          int m = rd.n();
          Eigen::MatrixXd H(m, int(N));
          rd.sparse(H);
          Eigen::MatrixXd r = rd.dense(m, 1), R = rd.dense(m, m) * unit;
          double D = rd.d();
          if (first) st->P = P * unit;
          first = false;
          VecN before = additive(*st);
          self.gate(gate != 0, thr / std::sqrt(unit));
          corrected = false;
          correction.setZero();
          nx = 0;
          if (kind == 1) self.dynamic(st, c, H, r, R);
          else if (m == 1) self.fixed<1>(st, c, H, r, R);
          else if (m == 2) self.fixed<2>(st, c, H, r, R);
          else if (m == 3) self.fixed<3>(st, c, H, r, R);
          else if (m == 4) self.fixed<4>(st, c, H, r, R);
          else self.fixed<6>(st, c, H, r, R);
          hc::J u;
          u.n("done", corrected).raw("c", vec(correction, D)).raw("P", mat(st->P, (corrected ? D : 1.0) / unit));
          VecN diff = additive(*st) - before;
          u.raw("d", vec(diff, D)).n("nx", nx);
          res.push_back(u.done());
        }
        mut<X>(*st)(0) = 0;
        st->P.setIdentity();
        mut<b_w>(*st).setZero();
        mut<b_a>(*st).setZero();
      };
      core.AddMeasurement(me);
      fixedBias = false;
      o.n("applied", me->calls).raw("u", hc::arr(res));
    } else if (op == "rel") {  // rel back span fixedbias Pold Pnew F(span times) m Hold Hnew r R D
      size_t back = rd.n(), span = rd.n();
      fixedBias = rd.n() != 0;
      size_t last = times.size() - 1 - back;
      boost::shared_ptr<Meas> me(new Meas(times[last], false, 0));
      me->fn = [&](Meas& self, StatePtr st, msf_core::MSF_Core<EKFState>& c) {
        StatePtr so = c.GetStateAtTime(times[last - span]);
        MatN Po, Pn;
        rd.sparse(Po);
        rd.sparse(Pn);
        std::vector<StatePtr> between;
        for (size_t k = last - span; k < last; ++k) {
          StatePtr s = c.GetStateAtTime(times[k]);
          MatN F;
          rd.sparse(F);
          s->Fd = F + MatN(MatN::Identity());
          between.push_back(s);
        }
        int m = rd.n();
        Eigen::MatrixXd Ho(m, int(N)), Hn(m, int(N));
        rd.sparse(Ho);
        rd.sparse(Hn);
        Eigen::MatrixXd r = rd.dense(m, 1), R = rd.dense(m, m);
        double D = rd.d();
        so->P = Po;
        st->P = Pn;
        VecN before = additive(*st), beforeOld = additive(*so);
        corrected = false;
        correction.setZero();
        nx = 0;
        if (m == 1) self.relative<1>(so, st, c, Ho, Hn, r, R);
        else if (m == 2) self.relative<2>(so, st, c, Ho, Hn, r, R);
        else self.relative<3>(so, st, c, Ho, Hn, r, R);
        VecN diff = additive(*st) - before;
        o.n("done", corrected).raw("c", vec(correction, D)).raw("P", mat(st->P, D)).raw("Pold", mat(so->P, 1));
        o.raw("d", vec(diff, D)).n("oldmoved", (additive(*so) - beforeOld).cwiseAbs().maxCoeff() > 0);
        for (size_t k = 0; k < between.size(); ++k) between[k]->Fd.setIdentity();
        st->P.setIdentity();
        so->P.setIdentity();
        mut<b_w>(*st).setZero();
        mut<b_a>(*st).setZero();
      };
      core.AddMeasurement(me);
      fixedBias = false;
      o.n("applied", me->calls).n("nx", nx);
    } else if (op == "step") {  // step dtnum/64 scale q4 ba bw P a(eff) w(eff) noise5 : one covariance step from the newest state
      double dt = rd.d() / 64, scale = rd.d();
      double q0 = rd.d(), q1 = rd.d(), q2 = rd.d(), q3 = rd.d();
      Eigen::Quaterniond qq(q0, q1, q2, q3);
      qq.normalize();
      Eigen::Vector3d ba = rd.v3(), bw = rd.v3();
      MatN P;
      rd.sparse(P);
      Eigen::Vector3d ea = rd.v3(), ew = rd.v3();
      for (int k = 0; k < 5; ++k) noise[k] = rd.d();
      StatePtr old;
      boost::shared_ptr<Meas> me(new Meas(times.back(), false, 0));
      me->fn = [&](Meas&, StatePtr st, msf_core::MSF_Core<EKFState>&) {
        old = st;
        st->P = P;
        mut<p>(*st).setZero();
        mut<v>(*st).setZero();
        mut<q>(*st) = qq;
        mut<b_a>(*st) = ba;
        mut<b_w>(*st) = bw;
        st->w_m = bw - ew;  // opposite rate: the attitude is the same at both ends
        st->a_m = ba;
      };
      core.AddMeasurement(me);
      sample(dt, ea + ba, ew + bw);
      for (int k = 0; k < 5; ++k) noise[k] = 0;
      bool ok = me->calls == 1 && latest && latest->time == times.back();
      o.n("applied", ok);
      if (ok) {
        Eigen::Quaterniond dq = mut<q>(*latest) * qq.conjugate();
        o.raw("F", mat(old->Fd, scale)).raw("Q", mat(old->Qd, scale * scale, MOD)).raw("P", mat(latest->P, scale * scale, MOD));
        o.n("turned", dq.vec().norm() > 1e-9);
        StatePtr keep = latest;
        // back to rest for the next call
        sample(1.0 / 64, Eigen::Vector3d(0, 0, G), Eigen::Vector3d::Zero());
        boost::shared_ptr<Meas> rest(new Meas(times.back(), false, 0));
        rest->fn = [&](Meas&, StatePtr st, msf_core::MSF_Core<EKFState>&) {
          st->P.setIdentity();
          mut<p>(*st).setZero();
          mut<v>(*st).setZero();
          mut<q>(*st).setIdentity();
          mut<b_a>(*st).setZero();
          mut<b_w>(*st).setZero();
          st->a_m = Eigen::Vector3d(0, 0, G);
          st->w_m.setZero();
        };
        core.AddMeasurement(rest);
      } else {
        o.raw("F", "[]").raw("Q", "[]").raw("P", "[]").n("turned", 0);
      }
      o.n("nx", nx);
    }
    outs.push_back(o.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
