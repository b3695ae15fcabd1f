prop = 'C12'
edits = [('msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h', """    H.block<3, 3>(3, kIdxstartcorr_qwv) =
        driftwvattfix ?""", """    H.block<3, 3>(3, kIdxstartcorr_qwv) =
        driftwvattfix && driftwvposfix ?""")]
needs = 'the attitude of the vision frame fixed, its position free'
breaks = 'a pose update corrects the fixed attitude of the vision frame'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  configure([](Cfg& c) { c.pose_fixed_q_wv = true; c.pose_fixed_p_wv = false; c.pose_fixed_scale = false; c.pose_fixed_q_ic = false; c.pose_fixed_p_ic = false; });
  SEND("msf_updates/pose_with_covariance_input", poseMsg(99, 1, 2, 3));
  bus().now = 100;
  configure([](Cfg& c) { c.core_init_filter = true; });
  for (int k = 1; k <= 10; ++k) SEND("msf_core/imu_state_input", imuMsg(100 + k / 16.0));
  SEND("msf_updates/pose_with_covariance_input", poseMsg(100.5, 1, 2, 3.5, 1, 0.2, 0.1, 0.3));
  CHECK(m.upds.size() == 1);
  const St& s = m.upds[0];
  NEAR(s.Get<D::q_wv>().w(), 1);
  NEAR(s.Get<D::q_wv>().vec().norm(), 0);
  CHECK(s.Get<D::p_wv>().norm() > 1e-6);
}
'''
