prop = 'C11'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  stateBuffer_.ClearOlderThan(timeold);
  MeasurementBuffer_.ClearOlderThan(timeold);""", """  stateBuffer_.ClearOlderThan(timeold);
  if (MeasurementBuffer_.GetFirst()->time > stateBuffer_.GetFirst()->time)
    MeasurementBuffer_.ClearOlderThan(timeold);""")]
needs = 'more than 60 s of history and more than 100 updates'
breaks = 'old measurements are never discarded: the measurement history grows without bound'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  size_t peak = 0;
  for (int k = 1; k <= 16 * 200; ++k) {
    double t = 1 + k / 16.0;
    f.imu(t, G, V3::Zero());
    f.meas(t);
    peak = std::max(peak, (size_t)f.core.MeasurementBuffer_.Size());
  }
  CHECK(f.core.stateBuffer_.Size() < 16 * 80);
  CHECK(peak < 16 * 80);
}
'''
