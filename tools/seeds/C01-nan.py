prop = 'C01'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """      MSF_ERROR_STREAM(__FUNCTION__<<" Resetting EKF");
      predictionMade_ = initialized_ = false;""", """      MSF_ERROR_STREAM(__FUNCTION__<<" Resetting EKF");
      predictionMade_ = false;  // No measurements until the filter is usable again.""")]
needs = 'an IMU reading that makes the position non-finite'
breaks = 'the filter goes on accepting inputs instead of stopping until it is initialised again'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  f.imu(1.375, V3(0, 0, std::nan("")));
  size_t n = f.mgr.props.size();
  for (int k = 7; k <= 20; ++k) f.imu(1 + 0.0625 * k);
  CHECK(f.mgr.props.size() == n);
  f.init(3);
  for (int k = 1; k <= 5; ++k) f.imu(3 + 0.0625 * k);
  CHECK(f.mgr.props.size() == n + 5);
}
'''
