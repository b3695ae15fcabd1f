prop = 'C19'
edits = [
    ('msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp',
     '  } else if (msg->position_covariance_type\n      == sensor_msgs::NavSatFix::COVARIANCE_TYPE_DIAGONAL_KNOWN) {\n    pointwCov->covariance = msg->position_covariance;\n',
     '  } else if (msg->position_covariance_type\n      == sensor_msgs::NavSatFix::COVARIANCE_TYPE_DIAGONAL_KNOWN) {\n    for (int k = 0; k < 9; k += 4)\n      pointwCov->covariance[k] = msg->position_covariance[0];\n'),
]
needs = 'a fix with a diagonal covariance whose entries differ, sensor covariance in use'
breaks = 'the first variance of a fix is used for all axes'
flags = '-DAPP=2 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  bus().bparams["~position_sensor/position_use_fixed_covariance"] = false;
  Mgr m;
  sensor_msgs::NavSatFix f;
  f.header.stamp = ros::Time(100.0);
  f.latitude = 47; f.longitude = 8; f.altitude = 500;
  f.position_covariance_type = sensor_msgs::NavSatFix::COVARIANCE_TYPE_DIAGONAL_KNOWN;
  f.position_covariance[0] = 1; f.position_covariance[4] = 2; f.position_covariance[8] = 9;
  SEND("msf_updates/navsatfix_input", f);
  CHECK(got.size() == 1);
  typedef msf_updates::position_measurement::PositionMeasurement M;
  NEAR(dynamic_cast<M*>(got[0].get())->R_(2, 2), 9);
  NEAR(dynamic_cast<M*>(got[0].get())->R_(1, 1), 2);
}
'''
