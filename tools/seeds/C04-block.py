prop = 'C04'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  shared_ptr<MSF_MeasurementBase<EKFState_T> > meas = queueFutureMeasurements_
      .front();
  queueFutureMeasurements_.pop();""", """  shared_ptr<MSF_MeasurementBase<EKFState_T> > meas = queueFutureMeasurements_
      .front();
  if (meas->time > stateBuffer_.GetLast()->time)
    return;  // Still in the future.
  queueFutureMeasurements_.pop();""")]
needs = 'two measurements ahead of the IMU, the later one received first'
breaks = 'a held measurement blocks every measurement held after it until its own time has come'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  MPtr far = f.meas(3), near = f.meas(1.4);
  for (int k = 6; k <= 12; ++k) f.imu(1 + 0.0625 * k);
  CHECK(far->applied == 0);
  CHECK(near->applied == 1);
  for (int k = 13; k <= 40; ++k) f.imu(1 + 0.0625 * k);
  CHECK(far->applied == 1);
  CHECK(near->applied == 1);
}
'''
