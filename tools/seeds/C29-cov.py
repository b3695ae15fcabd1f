prop = 'C29'
edits = [('msf_core/include/msf_core/similaritytransform.h', "    _gcov.block<3, 3>(start_col, start_row) = ecov.transpose();", "    _gcov.block<3, 3>(start_col, start_row) = ecov;")]
needs = 'an off-diagonal block that is not symmetric'
breaks = 'the covariance array of the message is not symmetric'
demo = r'''
#include "demo_core.h"
#include <msf_core/similaritytransform.h>
int main() {
  for (int k = 0; k < 2; ++k) {
    geometry_msgs::PoseWithCovariance m;
    Eigen::Matrix3d b;
    b << 1, 2, 3, 4, 5, 6, 7, 8, 9;
    msf_core::EigenCovBlockToGeometryMsgs(m.covariance, b, k ? 0 : 3, k ? 3 : 0);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) CHECK(m.covariance[6 * i + j] == m.covariance[6 * j + i]);
    CHECK(msf_core::GeometryMsgsCovBlockToEigen(m.covariance, k ? 0 : 3, k ? 3 : 0) == b);
    CHECK(msf_core::GeometryMsgsCovBlockToEigen(m.covariance, k ? 3 : 0, k ? 0 : 3) == b.transpose());
  }
}
'''
