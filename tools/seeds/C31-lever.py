prop = 'C31'
edits = [
    ('msf_updates/include/msf_updates/position_sensor_handler/position_measurement.h',
     '    H.block<3, 3>(0, idxstartcorr_q_) = -C_q.transpose() * p_prism_imu_sk;  // q\n',
     '    H.block<3, 3>(0, idxstartcorr_q_) = -p_prism_imu_sk * C_q.transpose();  // q\n'),
]
needs = 'an antenna away from the IMU and an attitude about another axis'
breaks = 'the Jacobian of a position with respect to the attitude is expressed in the wrong frame'
flags = '-DAPP=2'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  typedef msf_updates::position_measurement::PositionMeasurement M;
  StPtr s(new St);
  s->Reset();
  s->Set<D::q>(Eigen::Quaterniond(0.8, 0, 0, 0.6));
  s->Set<D::p_ip>(Eigen::Vector3d(1, 2, 3));
  M z(0.1, true, true, 0, 0, false, 0);
  Eigen::Matrix<double, 3, St::nErrorStatesAtCompileTime> H;
  z.CalculateH(s, H);
  // Derivative by a small rotation e of the attitude from the right: C * (e x p_ip).
  const St& c = *s;
  for (int k = 0; k < 3; ++k) {
    Eigen::Vector3d e = Eigen::Vector3d::Unit(k);
    Eigen::Vector3d d = c.Get<D::q>().toRotationMatrix() * e.cross(c.Get<D::p_ip>());
    CHECK((H.block<3, 1>(0, 6 + k) - d).norm() < 1e-9);
  }
}
'''
