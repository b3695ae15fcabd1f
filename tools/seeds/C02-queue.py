prop = 'C02'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  while (!queueFutureMeasurements_.empty())
    queueFutureMeasurements_.pop();

  // Push one state""", """  if (!queueFutureMeasurements_.empty())
    queueFutureMeasurements_.pop();

  // Push one state""")]
needs = 're-initialisation while at least two measurements are waiting for IMU data'
breaks = 'a held measurement survives the initialisation and corrects the new filter'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  MPtr a = f.meas(1.5, 3), b = f.meas(1.6, 5);
  f.init(1);
  for (int k = 1; k <= 20; ++k) f.imu(1 + 0.0625 * k);
  CHECK(a->applied == 0);
  CHECK(b->applied == 0);
}
'''
