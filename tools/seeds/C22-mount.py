prop = 'C22'
edits = [
    ('msf_updates/src/pose_msf/pose_sensormanager.h',
     '    p = p_wv + q_wv.conjugate().toRotationMatrix() * p_vc / scale\n        - q.toRotationMatrix() * p_ic;\n',
     '    p = p_wv + q_wv.conjugate().toRotationMatrix() * p_vc / scale\n        - q.conjugate().toRotationMatrix() * p_ic;\n'),
]
needs = 'a sensor mounted off the IMU and an initial attitude that is not the identity'
breaks = 'the initial position subtracts the lever arm in the wrong frame'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  bus().dparams["~pose_sensor/init/p_ic/x"] = 1;
  Mgr m;
  // Rotation by 90 degrees about z: the lever arm (1 0 0) points along y of the world.
  SEND("msf_updates/pose_with_covariance_input", poseMsg(99, 1, 2, 3, 1, 0, 0, 1));
  bus().now = 100;
  configure([](Cfg& c) { c.core_init_filter = true; });
  CHECK(m.inits.size() == 1);
  NEAR(m.inits[0].Get<D::p>()(0), 1);
  NEAR(m.inits[0].Get<D::p>()(1), 1);
}
'''
