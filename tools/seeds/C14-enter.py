prop = 'C14'
edits = [('msf_core/include/msf_core/msf_checkFuzzyTracking.h', """        isfuzzy = true;
      } else {  // If tracking ok: Update mean and 3sigma of past N non drifting state values.
        qbuff_""", """        isfuzzy = true;
      }
      {  // Update mean and 3sigma of past N non drifting state values.
        qbuff_""")]
needs = 'an outlying correction followed by more than fifteen accepted ones, with the attitude then compared at the edge of the threshold'
breaks = 'a restored correction takes a slot of the reference window (and turns it)'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  double t = 1;
  for (int k = 1; k <= 5; ++k) f.imu(t += 0.0625);
  // thirty attitudes spread so that the median of the window moves when one slot changes
  for (int k = 0; k < 30; ++k) {
    f.imu(t += 0.0625);
    MPtr m = f.make(t);
    m->c[16] = k == 15 ? 0.08 : 0;
    f.add(m);
  }
  Eigen::Matrix<double, 30, 4> before = f.core.fuzzyTracker_.qbuff_;
  f.imu(t += 0.0625);
  MPtr m = f.make(t, 5);
  m->c[16] = 1;
  f.add(m);
  NEAR(d::x(f.mgr.upds.back()), 0);
  CHECK((f.core.fuzzyTracker_.qbuff_ - before).norm() == 0);
}
'''
