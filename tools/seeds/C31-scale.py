prop = 'C31'
edits = [
    ('msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h',
     '            (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic\n',
     '            (C_wv * C_q).eval();  //p_ic\n'),
]
needs = 'a scale that is not one and a free camera position'
breaks = 'the Jacobian of a pose with respect to the camera position ignores the scale'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  typedef msf_updates::pose_measurement::PoseMeasurement<> M;
  StPtr s(new St);
  s->Reset();
  s->Set<D::q>(Eigen::Quaterniond(0.8, 0, 0, 0.6));
  s->Set<D::p_ic>(Eigen::Vector3d(1, 2, 3));
  Eigen::Matrix<double, 1, 1> l;
  M z(0.1, 0.1, true, true, true, 0, false, 0, 0);
  Eigen::Matrix<double, 7, St::nErrorStatesAtCompileTime> H1, H2;
  l << 1; s->Set<D::L>(l);
  z.CalculateH(s, H1);
  l << 2; s->Set<D::L>(l);
  z.CalculateH(s, H2);
  // Every block of the predicted position but the one of the scale itself is proportional to the scale.
  int o = St::nErrorStatesAtCompileTime - 3;
  enum { pic = msf_tmp::GetStartIndexInCorrection<St::StateSequence_T, D::p_ic>::value };
  CHECK((H2.block<3, 3>(0, pic) - 2 * H1.block<3, 3>(0, pic)).norm() < 1e-9);
}
'''
