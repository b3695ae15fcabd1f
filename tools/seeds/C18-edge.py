prop = 'C18'
edits = [('msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp',
 "      pose_measurement_minimum_dt_ - epsilon) {\n",
 "      pose_measurement_minimum_dt_ + epsilon) {\n")]
needs = 'poses that arrive at exactly the configured minimum spacing'
breaks = 'every second message of a sensor running at the configured rate is dropped'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  for (int k = 0; k < 8; ++k) SEND("msf_updates/pose_with_covariance_input", poseMsg(100 + 0.05 * k, 1, 2, 3));
  CHECK(got.size() == 8);
}
'''
