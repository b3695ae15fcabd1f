prop = 'C03'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """      if (it_end != stateBuffer_.GetIteratorEnd()) {
        // Propagate to state closest after the measurement so we can interpolate.
        ++it_end;
      }""", """      // Propagate up to the next measurement only, the rest follows after it.""")]
needs = 'a late measurement, followed in time by a buffered measurement less than 1 ms before a buffered state'
breaks = 'the later measurement is replayed on a state that was not re-propagated from the late one'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 8; ++k) f.imu(1 + 0.0625 * k);
  f.meas(1.3125 - 1.0 / 2048, 1);
  f.meas(1.125, 10);
  CHECK(f.mgr.upds.size() == 2);
  NEAR(d::x(f.mgr.upds.back()), 11);
  Filter g;
  g.init(1);
  for (int k = 1; k <= 8; ++k) g.imu(1 + 0.0625 * k);
  MPtr m = g.make(1.125);
  m->c[3] = 1;
  g.meas(1.3125 - 1.0 / 2048, 1);
  g.add(m);
  NEAR(d::vel(g.mgr.upds.back())(0), 1);
  NEAR(d::pos(g.mgr.upds.back())(0), 0.375);
}
'''
