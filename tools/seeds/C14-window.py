prop = 'C14'
edits = [('msf_core/include/msf_core/msf_checkFuzzyTracking.h', """         nontemporaldrifting_inittimer_ = (nontemporaldrifting_inittimer_) % nBuff_ + nBuff_ + 1;""", """         nontemporaldrifting_inittimer_ = (nontemporaldrifting_inittimer_ + 1) % nBuff_ + nBuff_ + 1;""")]
needs = 'more than 59 corrections of an attitude that slowly drifts'
breaks = 'the reference window is not refreshed in rotation: old attitudes stay in it'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
    f.init(1);
  double t = 1;
  for (int k = 1; k <= 5; ++k) f.imu(t += 0.0625);
  double x = 0;
  for (int k = 0; k < 200; ++k) {
    f.imu(t += 0.0625);
    MPtr m = f.make(t, 1);
    m->c[16] = -0.0055;   // the median is 16 corrections behind: 0.088 rad
    f.add(m);
    x += 1;
    NEAR(d::x(f.mgr.upds.back()), x);
  }
}
'''
