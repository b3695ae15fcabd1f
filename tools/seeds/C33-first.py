prop = 'C33'
edits = [('msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h', "      tlast = time;\n", "      if (!(time < tlast + 5.0) || tlast == 0) tlast = time;\n")]
needs = 'a second reading less than five seconds after the previous one'
breaks = 'the same elapsed time is counted again and again'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
typedef msf_updates::pose_measurement::PoseMeasurement<> Meas;
int main() {
  Mgr m;
  ros::stub::bus().dparams["~d/distortpos_mean"] = 1;
  for (const char* n : {"pos", "att", "scale"}) ros::stub::bus().dparams[std::string("~d/distort") + n + "_stddev"] = 1e-13;
  msf_pose_sensor::PoseSensorHandler<Meas, AppMgr> h(m, "d", "d", true);
  for (int k = 0; k < 6; ++k) {
    got.clear();
    ros::stub::deliver("msf_updates/d/pose_with_covariance_input", poseMsg(1000 + 0.5 * k, 1, 2, 3));
    CHECK(got.size() == 1);
    NEAR(dynamic_cast<Meas*>(got[0].get())->z_p_[0], 1 + 0.5 * k);
  }
}
'''
