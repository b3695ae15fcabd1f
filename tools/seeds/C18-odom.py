prop = 'C18'
edits = [
    ('msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp',
     '  pose->header = msg->header;\n  pose->pose = msg->pose;\n',
     '  pose->header = msg->header;\n  pose->pose.pose = msg->pose.pose;\n  pose->pose.covariance = msg->twist.covariance;\n'),
]
needs = 'an odometry message while the covariance is taken from the message'
breaks = 'an odometry message is used with the covariance of its twist'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  bus().bparams["~pose_sensor/pose_use_fixed_covariance"] = false;
  Mgr m;
  nav_msgs::Odometry o;
  o.header.stamp = ros::Time(100.0);
  o.pose.pose.orientation.w = 1;
  for (int i = 0; i < 36; ++i) { o.pose.covariance[i] = i % 7 == 0 ? 0.25 : 0; o.twist.covariance[i] = i % 7 == 0 ? 4 : 0; }
  SEND("msf_updates/odometry_input", o);
  CHECK(got.size() == 1);
  typedef msf_updates::pose_measurement::PoseMeasurement<> M;
  M* p = dynamic_cast<M*>(got[0].get());
  CHECK(p);
  NEAR(p->R_(0, 0), 0.25);
  NEAR(p->R_(4, 4), 0.25);
}
'''
