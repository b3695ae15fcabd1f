prop = 'C18'
edits = [
    ('msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp',
     '  if (time_now - timestamp_previous_pose_ <=\n      pose_measurement_minimum_dt_ - epsilon) {\n',
     '  const double dt = time_now - timestamp_previous_pose_;\n  timestamp_previous_pose_ = time_now;\n  if (dt <= pose_measurement_minimum_dt_ - epsilon) {\n'),
    ('msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp',
     '    return;\n  }\n  timestamp_previous_pose_ = time_now;\n',
     '    return;\n  }\n'),
]
needs = 'poses that arrive continuously faster than the minimum spacing'
breaks = 'the throttle measures the spacing to the last received message, so a fast sensor is dropped for good'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  // 20 ms spacing, minimum 50 ms: messages 0, 3, 6, ... are used.
  for (int k = 0; k < 10; ++k) SEND("msf_updates/pose_with_covariance_input", poseMsg(100 + 0.02 * k, 1, 2, 3));
  CHECK(got.size() == 4);
  NEAR(got[1]->time - got[0]->time, 0.06);
}
'''
