prop = 'C07'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  shared_ptr<EKFState_T>& latestState = stateBuffer_.GetLast();

  PropPToState""", """  shared_ptr<EKFState_T> latestState =
      it_last_IMU != stateBuffer_.GetIteratorEnd() ? it_last_IMU->second : stateBuffer_.GetLast();

  PropPToState""")]
needs = 'the last IMU sample before the update was up to 10 ms older than its predecessor'
breaks = 'the update output carries the second newest state'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 6; ++k) f.imu(1 + 0.0625 * k);
  f.imu(1.375 - 0.0078125);
  f.meas(1.25, 2);
  CHECK(f.mgr.upds.size() == 1);
  CHECK(f.mgr.upds[0].time == 1.375);
}
'''
