prop = 'C20'
edits = [
    ('msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp',
     '  for (int k = 0; k < heightbuffsize; ++k)\n',
     '  for (int k = 1; k < heightbuffsize; ++k)\n'),
]
needs = 'at least ten pressure messages used'
breaks = 'the average misses the oldest of the ten heights'
flags = '-DAPP=4 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  msf_pressure_sensor::PressureSensorHandler h(m, "", "pressure_sensor");
  for (int k = 1; k <= 9; ++k) SEND("msf_updates/pressure_height", pointMsg(99 + 0.01 * k, 10 * k, 0, 0, k));
  NEAR(h.GetAveragedPressureMeasurement()(0), 4.5);
  for (int k = 10; k <= 12; ++k) SEND("msf_updates/pressure_height", pointMsg(99 + 0.01 * k, 10 * k, 0, 0, k));
  NEAR(h.GetAveragedPressureMeasurement()(0), 7.5);
}
'''
