prop = 'C28'
edits = [
    ('msf_core/include/msf_core/implementation/calcQCore.h',
     '  const double t416 = t343 * t354 * t359 * (1.0 / 2.0);\n',
     '  const double t416 = t343 * t354 * t359 * (1.0 / 6.0);\n'),
]
needs = 'accelerometer noise and an attitude turned about the vertical'
breaks = 'the correlation of position and velocity caused by the accelerometer noise depends on the heading'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.mgr.nAcc = 1;
  boost::shared_ptr<msf_core::MSF_InitMeasurement<d::St> > m(new msf_core::MSF_InitMeasurement<d::St>(true));
  m->time = 1;
  m->Geta_m() = G;
  m->Getw_m() = V3::Zero();
  m->SetStateInitValue<d::q>(Eigen::Quaterniond(0.8, 0, 0, 0.6));
  m->GetStateCovariance() = d::Cov::Identity() * 1e-12;
  f.core.Init(m);
  for (int k = 1; k <= 4; ++k) f.imu(1 + 0.0625 * k);
  f.meas(1.0625);
  double dt = 0.0625;
  d::Ptr s = f.at(1);
  CHECK(std::fabs(s->Qd(0, 3) - dt * dt / 2) < 1e-9);
  CHECK(std::fabs(s->Qd(1, 4) - dt * dt / 2) < 1e-9);
}
'''
