prop = 'C25'
edits = [
    ('msf_core/include/msf_core/msf_IMUHandler_ROS.h',
     '          Eigen::Map<const Eigen::Matrix<float, 10, 1> >(msg->state.data()),\n',
     '          Eigen::Map<const Eigen::Matrix<float, 7, 1> >(msg->state.data()),\n'),
]
needs = 'an external state whose attitude is not finite after its first entry'
breaks = 'an external state with NaN in its attitude vector is taken over as already propagated'
flags = '-DAPP=1 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  sensor_fusion_comm::ExtEkf e;
  e.state.assign(16, 0);
  e.state[6] = 1;
  e.flag = sensor_fusion_comm::ExtEkf::current_state;
  e.header.stamp = ros::Time(100.0);
  SEND("msf_core/hl_state_input", e);
  e.state[8] = NAN;
  e.header.stamp = ros::Time(100.1);
  SEND("msf_core/hl_state_input", e);
  CHECK(gotExt.size() == 2);
  CHECK(gotExt[0].prop);
  CHECK(!gotExt[1].prop);
}
'''
