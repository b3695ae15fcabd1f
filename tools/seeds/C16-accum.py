prop = 'C16'
edits = [
    ('msf_core/include/msf_core/implementation/msf_core_inl.h',
     '  for (; it != itend; ++it) {\n',
     '  // Steps without time in between contribute nothing.\n  for (double t = -1; it != itend && it->second->time - t > 1e-3; t = it->second->time, ++it) {\n'),
]
needs = 'two buffered states less than a millisecond apart between the old and the new state'
breaks = 'the accumulation stops at the first pair of states closer than a millisecond'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  f.imu(1.0625);
  f.imu(1.125);
  f.imu(1.125 + 1.0 / 2048);
  f.imu(1.1875);
  f.imu(1.25);
  f.meas(1.1875);
  d::Ptr a = f.at(1.0625), b = f.at(1.1875);
  d::St::F_type F, G;
  f.core.GetAccumulatedStateTransitionStochasticCloning(a, b, F);
  G = f.at(1.125 + 1.0 / 2048)->Fd * f.at(1.125)->Fd * f.at(1.0625)->Fd;
  CHECK((F - G).norm() < 1e-9);
  CHECK(std::fabs(F(0, 3) - 0.125) < 1e-9);
}
'''
