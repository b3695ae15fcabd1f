prop = 'C29'
edits = [('msf_core/src/similaritytransform.cc', "    M += q.coeffs() * q.coeffs().transpose();  // Order is x y z w here !!!",
"    // Order is x y z w here !!!\n    const double weight = i > 0 && q.dot(Eigen::Quaterniond(pp.second.pose.orientation.w, pp.second.pose.orientation.x, pp.second.pose.orientation.y, pp.second.pose.orientation.z)) < 0 ? 0.25 : 1.0;\n    M += weight * q.coeffs() * q.coeffs().transpose();")]
needs = 'pairs whose attitude offsets disagree, and an attitude more than half a turn away from its offset'
breaks = 'the mean attitude depends on which sign the quaternions were given with'
demo = r'''
#include "demo_core.h"
#include <../src/similaritytransform.cc>
using namespace msf_core;
similarity_transform::Pose pose(const Eigen::Quaterniond& q, double x, double y, double z) {
  similarity_transform::Pose p;
  p.pose.position = EigenToGeometryMsgs(Eigen::Vector3d(x, y, z));
  p.pose.orientation = EigenToGeometryMsgs(q);
  return p;
}
int main() {
  for (int k = 0; k < 16; ++k) {
    similarity_transform::From6DoF t;
    for (int i = 0; i < 4; ++i) {
      Eigen::Quaterniond q1(1, i, 0.2 * i * i, -0.5), d(1, i % 2 ? 0.1 : -0.1, 0, 0);
      q1.normalize();
      d.normalize();
      Eigen::Quaterniond q2 = q1 * d;
      if (k & (1 << i)) { q1.coeffs() *= -1; }
      t.AddMeasurement(pose(q1, i, 0, 0), pose(q2, i, i * i, 1));
    }
    similarity_transform::Pose p;
    double s, c;
    CHECK(t.Compute(p, &s, &c));
    CHECK(std::abs(std::abs(p.pose.orientation.w) - 1) < 1e-9);
    CHECK(std::abs(p.pose.orientation.x) < 1e-6);
  }
}
'''
