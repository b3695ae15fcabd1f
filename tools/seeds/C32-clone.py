prop = 'C32'
edits = [
    ('msf_core/include/msf_core/implementation/msf_measurement_inl.h',
     '  P_SC.template block<Pdim, Pdim>(0, Pdim) = state_old->P * F_accum.transpose();\n  P_SC.template block<Pdim, Pdim>(Pdim, 0) = F_accum * state_old->P;\n',
     '  P_SC.template block<Pdim, Pdim>(0, Pdim) = state_old->P * F_accum;\n  P_SC.template block<Pdim, Pdim>(Pdim, 0) = F_accum.transpose() * state_old->P;\n'),
]
needs = 'a relative measurement over steps whose transition is not symmetric'
breaks = 'the cross-covariance of old and new state is built with the transposed transition'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.mgr.nAcc = 0.5;
  f.init(1);
  for (int k = 1; k <= 6; ++k) f.imu(1 + 0.0625 * k);
  f.meas(1.25);
  struct R : d::Meas {
    R(d::Mgr& m, double t) : d::Meas(m, t) {}
  } r(f.mgr, 1.25);
  d::Ptr a = f.at(1.0625), b = f.at(1.25);
  d::St::F_type F;
  f.core.GetAccumulatedStateTransitionStochasticCloning(a, b, F);
  d::Cov P = b->P;
  // Change of the position along x between the two states.
  Eigen::Matrix<double, 1, 19> Ho, Hn;
  Ho.setZero(); Hn.setZero();
  Ho(0, 0) = -1; Hn(0, 0) = 1;
  d::V1 z, N;
  z(0) = 0; N(0) = 0.01;
  Eigen::Matrix<double, 38, 38> J;
  J << a->P, a->P * F.transpose(), F * a->P, P;
  Eigen::Matrix<double, 1, 38> H;
  H << Ho, Hn;
  double S = (H * J * H.transpose())(0, 0) + 0.01;
  Eigen::Matrix<double, 19, 1> K = (J * H.transpose() / S).bottomRows<19>();
  d::Cov want = P - K * S * K.transpose();
  r.CalculateAndApplyCorrectionRelative(a, b, f.core, Ho, Hn, z, N);
  CHECK((b->P - want).norm() < 1e-9);
}
'''
