prop = 'C09'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """  if (currentState->a_m.norm() > 50)
    currentState->a_m = last_am;
  else {""", """  if (currentState->a_m.cwiseAbs().maxCoeff() > 50)
    currentState->a_m = last_am;
  else {""")]
needs = 'an acceleration above 50 m/s2 none of whose components exceeds 50'
breaks = 'such a spike enters the buffered state'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(1);
  for (int k = 1; k <= 5; ++k) f.imu(1 + 0.0625 * k);
  f.imu(1.375, V3(0, 51, 0));
  CHECK(f.at(1.375)->a_m.norm() <= 50);
  f.imu(1.4375, V3(30, 0, 30));
  CHECK(f.at(1.4375)->a_m(0) == 30);
  f.imu(1.5, V3(40, 0, -40));
  CHECK(f.at(1.5)->a_m.norm() <= 50);
}
'''
