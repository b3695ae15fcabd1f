prop = 'C23'
edits = [
    ('msf_updates/src/position_pose_msf/position_pose_sensormanager.h',
     '    if (state.Get<StateDefinition_T::L>()(0) < 0) {\n',
     '    if (state.Get<StateDefinition_T::L>()(0) < -1e-3) {\n'),
]
needs = 'an update that drives the scale slightly below zero'
breaks = 'a slightly negative scale is kept'
flags = '-DAPP=5'
demo = r'''
#include "demo_app.h"
int main() {
  struct M : Mgr { using AppMgr::SanityCheckCorrection; } m;
  St s, b;
  Eigen::Matrix<double, St::nErrorStatesAtCompileTime, 1> c;
  c.setZero();
  Eigen::Matrix<double, 1, 1> l;
  msf_core::MSF_SensorManager<St>& mm = m;
  l << -0.0005; s.Set<D::L>(l);
  mm.SanityCheckCorrection(s, b, c);
  NEAR(s.Get<D::L>()(0), 0.1);
  l << 0.0005; s.Set<D::L>(l);
  mm.SanityCheckCorrection(s, b, c);
  NEAR(s.Get<D::L>()(0), 0.0005);
}
'''
