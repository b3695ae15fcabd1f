prop = 'C10'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h', """    if (fabs(currentState->time - lastState->time) > 5) {""", """    if (currentState->time - lastState->time > 5) {""")]
needs = 'the first external sample after initialisation lies more than 5 s before the initial state'
breaks = 'the sample restarts the history instead of only re-dating the initial state'
demo = r'''
#include "demo_core.h"
int main() {
  Filter f;
  f.init(100);
  f.ext(20, true, V3(1, 2, 3), V3(0, 0, 0));
  CHECK(f.mgr.props.empty());
  CHECK(f.has(20));
  NEAR(d::pos(*f.at(20))(0), 0);
  f.ext(20.0625, true, V3(1, 2, 3), V3(0, 0, 0));
  CHECK(f.mgr.props.size() == 1);
  NEAR(d::pos(*f.at(20.0625))(0), 1);
}
'''
