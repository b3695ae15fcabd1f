prop = 'C33'
edits = [('msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp', '    pnh.param("distortatt_stddev", distortatt_stddev, 0.0);', '    pnh.param("distortpos_stddev", distortatt_stddev, 0.0);')]
needs = 'different deviations for position and attitude drift'
breaks = 'the attitude deviates as configured for the position'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
typedef msf_updates::pose_measurement::PoseMeasurement<> Meas;
int main() {
  Mgr m;
  for (const char* n : {"pos", "att", "scale"}) ros::stub::bus().dparams[std::string("~d/distort") + n + "_stddev"] = 1e-13;
  ros::stub::bus().dparams["~d/distortatt_stddev"] = 0.5;
  msf_pose_sensor::PoseSensorHandler<Meas, AppMgr> h(m, "d", "d", true);
  double far = 0;
  for (int k = 0; k < 6; ++k) {
    got.clear();
    ros::stub::deliver("msf_updates/d/pose_with_covariance_input", poseMsg(1000 + 0.5 * k, 1, 2, 3));
    CHECK(got.size() == 1);
    Meas* z = dynamic_cast<Meas*>(got[0].get());
    NEAR(z->z_p_[0], 1);
    far = std::max(far, z->z_q_.vec().norm());
  }
  CHECK(far > 1e-3);
}
'''
