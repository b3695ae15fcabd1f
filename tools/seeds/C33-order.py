prop = 'C33'
edits = [('msf_updates/src/msf_distort/PoseDistorter.cc', "  pos += posdrift_;\n  pos *= scaledrift_;", "  pos *= scaledrift_;\n  pos += posdrift_;")]
needs = 'position drift and scale drift together'
breaks = 'the accumulated drift is not scaled with the position'
demo = r'''
#include "demo_core.h"
#include <msf_core/msf_types.h>
#include "../src/msf_distort/PoseDistorter.cc"
int main() {
  const double e = 1e-13;
  Eigen::Vector3d m(1, -2, 3), z(0, 0, 0), s(e, e, e);
  msf_updates::PoseDistorter d(m, s, z, s, 0.5, e);
  Eigen::Vector3d p(1, 2, 3);
  d.Distort(p, 1.0);
  NEAR(p[0], (1 + 1) * 1.5);
  NEAR(p[1], (2 - 2) * 1.5);
  NEAR(p[2], (3 + 3) * 1.5);
}
'''
