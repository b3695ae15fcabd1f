prop = 'C16'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """    if (it->second->sensorID_ == sensorID) {
      return it->second;
    }""", """    if (it->second->sensorID_ == sensorID || it == MeasurementBuffer_.GetIteratorBegin()) {
      return it->second;
    }""")]
needs = 'no earlier measurement of the sensor in the history, but one of another sensor'
breaks = 'the oldest measurement is returned as predecessor although another sensor made it'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 6; ++k) f.imu(1 + 0.0625 * k);
  f.meas(1.0625, 0, 1);
  f.meas(1.125, 0, 2);
  f.meas(1.1875, 0, 1);
  CHECK(f.core.GetPreviousMeasurement(1.1875, 1)->time == 1.0625);
  CHECK(f.core.GetPreviousMeasurement(1.1875, 2)->time == 1.125);
  CHECK(f.core.GetPreviousMeasurement(1.125, 2)->time == msf_core::constants::INVALID_TIME);
  CHECK(f.core.GetPreviousMeasurement(1.0625, 1)->time == msf_core::constants::INVALID_TIME);
}
'''
