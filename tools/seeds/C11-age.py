prop = 'C11'
edits = [('msf_core/include/msf_core/msf_sortedContainer.h', """    iterator_T it = GetIteratorClosest(newest - age);
    if (it->second->time > stateList.begin()->second->time)
      stateList.erase(stateList.begin(), it);""", """    iterator_T it = GetIteratorClosestAfter(newest - age);
    if (it->second->time > stateList.begin()->second->time)
      stateList.erase(stateList.begin(), it);""")]
needs = 'a clean-up (after 101 updates) while a state lies exactly 60 s before the newest one, and a measurement that late'
breaks = 'a state exactly 60 s old is discarded, a measurement of that age is then rejected'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 16 * 70; ++k) {
    double t = 1 + k / 16.0;
    f.imu(t);
    if (k > 16 * 70 - 102) {
      f.meas(t);
      double newest = t;
      if (k > 16 * 70 - 2) CHECK(f.has(newest - 60));
    }
  }
  CHECK(f.has(71 - 60));
}
'''
