prop = 'C22'
edits = [
    ('msf_updates/src/pose_msf/pose_sensormanager.h',
     '    if (std::abs(req.height) > MIN_INITIALIZATION_HEIGHT) {\n',
     '    if (req.height > MIN_INITIALIZATION_HEIGHT) {\n'),
]
needs = 'a requested height below zero'
breaks = 'a negative height is refused'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  SEND("msf_updates/pose_with_covariance_input", poseMsg(99, 1, 2, -3));
  bus().now = 100;
  sensor_fusion_comm::InitHeight s;
  s.request.height = -1.5;
  CHECK(ros::stub::call("~pose_sensor/initialize_msf_height", s));
  CHECK(m.inits.size() == 1);
  NEAR(m.inits[0].Get<D::L>()(0), 2);
  NEAR(m.inits[0].Get<D::p>()(2), -1.5);
}
'''
