prop = 'C29'
edits = [('msf_core/src/similaritytransform.cc', "    if (svd.singularValues()[i] < eps)", "    if (svd.singularValues()[i] < eps * svd.singularValues()[0] || i * svd.singularValues()[i] < 0.1)")]
needs = 'pose pairs that determine the scale only weakly'
breaks = 'a determined but badly conditioned scale is discarded'
demo = r'''
#include "demo_core.h"
#include <../src/similaritytransform.cc>
using namespace msf_core;
similarity_transform::Pose pose(double x, double y, double z) {
  similarity_transform::Pose p;
  p.pose.position = EigenToGeometryMsgs(Eigen::Vector3d(x, y, z));
  p.pose.orientation = EigenToGeometryMsgs(Eigen::Quaterniond(1, 0, 0, 0));
  return p;
}
int main() {
  similarity_transform::From6DoF t;
  for (int i = 0; i < 2; ++i) t.AddMeasurement(pose(2 * (4 + i) - 1, 2 * 5 - 2, 2 * 3 - 3), pose(4 + i, 5, 3));
  similarity_transform::Pose p;
  double s = 0;
  CHECK(t.Compute(p, &s));
  NEAR(s, 2);
  NEAR(p.pose.position.x, 1);
  NEAR(p.pose.position.y, 2);
}
'''
