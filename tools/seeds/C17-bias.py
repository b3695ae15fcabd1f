prop = 'C17'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  const Vector3 eaold = state_old->a_m
      - state_old->template Get<StateDefinition_T::b_a>();""", """  const Vector3 eaold = state_old->a_m
      - state_new->template Get<StateDefinition_T::b_w>();""")]
needs = 'a correction of the gyroscope or accelerometer bias'
breaks = 'the older of the two accelerations is corrected by the wrong bias'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 6; ++k) f.imu(1 + 0.0625 * k);
  MPtr m = f.make(1.25);
  m->c[12] = 1;
  f.add(m);
  NEAR(d::vel(f.mgr.upds.back())(0), -0.125);
}
'''
