prop = 'C05'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  if (measurement->time < stateBuffer_.GetFirst()->time) {
    MSF_WARN""", """  if (measurement->time < stateBuffer_.GetFirst()->time - 0.001) {
    MSF_WARN""")]
needs = 'a measurement stamped less than 1 ms before the oldest buffered state'
breaks = 'a measurement older than the history is applied to the oldest state'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  size_t n = f.mgr.upds.size();
  MPtr a = f.meas(0.5, 3), b = f.meas(0.9995, 3);
  CHECK(a->applied == 0);
  CHECK(b->applied == 0);
  CHECK(f.mgr.upds.size() == n);
  CHECK(f.meas(1, 3)->applied == 1);
}
'''
