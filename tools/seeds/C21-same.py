prop = 'C21'
edits = [
    ('msf_updates/include/msf_updates/spherical_position_sensor/implementation/spherical_sensorhandler.hpp',
     '  meas->MakeFromSensorReading(msg, msg->header.stamp.toSec() - delay_);\n\n  z_d_ = meas->z_d_;  //store this for the init procedure\n\n',
     '  meas->MakeFromSensorReading(msg, msg->header.stamp.toSec() - delay_);\n\n  // The instrument repeats its last distance while it searches the prism.\n  if (received_before && meas->z_d_ == z_d_)\n    return;\n  z_d_ = meas->z_d_;  //store this for the init procedure\n\n'),
    ('msf_updates/include/msf_updates/spherical_position_sensor/implementation/spherical_sensorhandler.hpp',
     '    const geometry_msgs::PointStampedConstPtr & msg) {\n  received_first_measurement_ = true;\n\n  this->SequenceWatchDog(msg->header.seq, subPointStamped_.getTopic());\n\n  ROS_INFO_STREAM_ONCE(\n      "*** Distance sensor',
     '    const geometry_msgs::PointStampedConstPtr & msg) {\n  const bool received_before = received_first_measurement_;\n  received_first_measurement_ = true;\n\n  this->SequenceWatchDog(msg->header.seq, subPointStamped_.getTopic());\n\n  ROS_INFO_STREAM_ONCE(\n      "*** Distance sensor'),
]
needs = 'two consecutive distance messages with the same distance'
breaks = 'the second of two equal distances is dropped'
flags = '-DAPP=3 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  SEND("msf_updates/distance_input", pointMsg(100, 1, 2, 2, 2));
  SEND("msf_updates/distance_input", pointMsg(101, 2, 2, 2, 2));
  CHECK(got.size() == 2);
}
'''
