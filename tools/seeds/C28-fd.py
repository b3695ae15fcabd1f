prop = 'C28'
edits = [
    ('msf_core/include/msf_core/implementation/msf_core_inl.h',
     '  const Matrix3 F = -dt * eye3 + dt_p2_2 * w_sk - dt_p3_6 * (w_sk * w_sk);\n',
     '  const Matrix3 F = -dt * eye3 + dt_p2_2 * w_sk - dt_p3_6 * w_sk.cwiseProduct(w_sk);\n'),
]
needs = 'a turning platform'
breaks = 'the attitude error loses part of its dependence on the gyro bias while turning'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 4; ++k) f.imu(1 + 0.0625 * k, G, V3(0, 0, 2));
  f.meas(1.125);
  // About the turning axis the attitude depends on the bias by minus the duration; orthogonal to it w x (w x .) counts.
  d::St::F_type F = f.at(1.0625)->Fd;
  double dt = 0.0625;
  CHECK(std::fabs(F(8, 11) + dt) < 1e-9);
  CHECK(std::fabs(F(6, 9) + dt - dt * dt * dt / 6 * 4) < 1e-9);
}
'''
