prop = 'C20'
edits = [
    ('msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp',
     '  z_average_p(0) = sum / heightbuffsize;\n\n  this->manager_.msf_core_->AddMeasurement(meas);\n',
     '  const double previous = z_average_p(0);\n  z_average_p(0) = sum / heightbuffsize;\n\n  // Nothing new to fuse.\n  if (previous == z_average_p(0))\n    return;\n  this->manager_.msf_core_->AddMeasurement(meas);\n'),
]
needs = 'a height for which the ten-message average does not change'
breaks = 'a message that leaves the average unchanged is not fused'
flags = '-DAPP=4 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  for (int k = 1; k <= 12; ++k) SEND("msf_updates/pressure_height", pointMsg(99 + 0.01 * k, 10 * k, 0, 0, 2));
  CHECK(got.size() == 12);
}
'''
