prop = 'C06'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """      if (time_P_propagated > lastState->time) {
        time_P_propagated = lastState->time;
      }

      closestState""", """      if (time_P_propagated > nextState->time) {
        time_P_propagated = lastState->time;
      }

      closestState""")]
needs = 'a measurement that falls between the two newest buffered states (covariance propagated exactly up to the one after it)'
breaks = 'the inserted state gets no covariance'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.mgr.qX = 16;
  f.init(1, 0, 1);
  for (int k = 1; k <= 8; ++k) f.imu(1 + 0.0625 * k);
  MPtr m = f.meas(1.46875, 1);
  NEAR(m->px[0], 1 + 16 * 0.46875);
  NEAR(f.mgr.upds.back().P(15, 15), 1 + 16 * 0.5);
  MPtr n = f.meas(1.21875, 1);
  NEAR(n->px[0], 1 + 16 * 0.21875);
}
'''
