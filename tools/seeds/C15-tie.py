prop = 'C15'
edits = [('msf_core/include/msf_core/msf_sortedContainer.h', """    if (fabs(tauPlus->second->time - statetime)
        < fabs(tauMinus->second->time - statetime)) {
      return tauPlus;
    } else {
      return tauMinus;
    }""", """    const double before = statetime - tauMinus->second->time;
    const double after = tauPlus->second->time - statetime;
    return before < after ? tauMinus : tauPlus;""")]
needs = 'a query exactly half way between two neighbours'
breaks = 'the closest-element query by iterator returns the later element on a tie'
demo = r'''
#include "demo_core.h"
int main() {
  msf_core::SortedContainer<d::St> b;
  for (int k = 1; k < 5; ++k) {
    d::Ptr s(new d::St);
    s->time = k;
    b.Insert(s);
  }
  CHECK(b.GetIteratorClosest(2.25)->second->time == 2);
  CHECK(b.GetIteratorClosest(2.75)->second->time == 3);
  CHECK(b.GetIteratorClosest(2.5)->second->time == 2);
  CHECK(b.GetClosest(2.5)->time == 2);
}
'''
