prop = 'C08'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  if (tdiff > 0.001) {""", """  if (tdiff > 0.0025) {""")]
needs = 'a measurement between 1 and 2.5 ms away from a buffered state'
breaks = 'the measurement is applied to a state more than 1 ms away from it'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 6; ++k) f.imu(1 + 0.0625 * k);
  MPtr a = f.meas(1.25 + 1.0 / 2048), b = f.meas(1.1875 + 1.0 / 512);
  CHECK(a->stamps[0] == 1.25);
  CHECK(b->stamps[0] == 1.1875 + 1.0 / 512);
}
'''
