prop = 'C13'
edits = [('msf_core/include/msf_core/implementation/msf_measurement_inl.h', """  Eigen::MatrixXd S;
  Eigen::MatrixXd S_inverse;
  Eigen::MatrixXd K(
      static_cast<int>(MSF_Core<EKFState_T>::nErrorStatesAtCompileTime),
      R_delayed.rows());
  typename MSF_Core<EKFState_T>::ErrorStateCov & P = state->P;

  S = H_delayed * P * H_delayed.transpose() + R_delayed;
  S_inverse = S.inverse();
  K = P * H_delayed.transpose() * S_inverse;

  if(enable_mah_outlier_rejection_){
    //calculate mahalanobis distance
    Eigen::MatrixXd mah_dist_squared_temp = res_delayed.transpose() * S_inverse * res_delayed;
    double mah_dist_squared = mah_dist_squared_temp(0,0);

    //reject point as outlier if distance above threshold
    if (sqrt(mah_dist_squared) > mah_threshold_){""", """  Eigen::MatrixXd S;
  Eigen::MatrixXd S_inverse;
  Eigen::MatrixXd K(
      static_cast<int>(MSF_Core<EKFState_T>::nErrorStatesAtCompileTime),
      R_delayed.rows());
  typename MSF_Core<EKFState_T>::ErrorStateCov & P = state->P;

  S = H_delayed * P * H_delayed.transpose() + R_delayed;
  S_inverse = S.inverse();
  K = P * H_delayed.transpose() * S_inverse;

  if(enable_mah_outlier_rejection_){
    //calculate mahalanobis distance
    const double mah_dist_squared = (S_inverse * res_delayed).squaredNorm();

    //reject point as outlier if distance above threshold
    if (sqrt(mah_dist_squared) > mah_threshold_){""")]
needs = 'a measurement on the dynamic-size path whose innovation covariance differs from one'
breaks = 'the gate compares a wrongly normalised distance with the threshold'
demo = r'''
#include "demo_core.h"
struct Dyn : Meas {
  double r, R;
  Dyn(d::Mgr& m, double t, double rr, double RR, double thr) : Meas(m, t, 0, true, thr), r(rr), R(RR) {}
  void Apply(d::Ptr st, msf_core::MSF_Core<d::St>& core) {
    ++applied;
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(1, 19), res(1, 1), RR(1, 1);
    H(0, 15) = 1;
    res(0, 0) = r;
    RR(0, 0) = R;
    this->CalculateAndApplyCorrection(st, core, H, res, RR);
  }
};
double run(double r, double R, double thr) {
  Filter f;
  f.init(1, 0, 1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  f.add(MPtr(new Dyn(f.mgr, 1.25, r, R, thr)));
  return d::x(f.mgr.upds.back());
}
int main() {
  // S = 1 + 3 = 4, distance r / 2
  NEAR(run(8, 3, 3), 0);
  NEAR(run(8, 3, 5), 2);
  NEAR(run(4, 3, 3), 1);
}
'''
