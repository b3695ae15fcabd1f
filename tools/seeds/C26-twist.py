prop = 'C26'
edits = [('msf_core/include/msf_core/implementation/msf_state_inl.h',
 "  J.block<3,3>(0,0) = R_W_I.transpose();\n",
 "  J.block<3,3>(0,0) = R_W_I;\n")]
needs = 'an odometry listener, an attitude with a rotation and a velocity whose uncertainty differs by direction'
breaks = 'the velocity covariance of the odometry is turned the wrong way'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  bus().listeners["msf_core/odometry"] = 1;
  nav_msgs::Odometry o;
  int n = 0;
  bus().onPublish = [&](const std::string& t, const std::type_info& ty, const void* p) {
    if (ty == typeid(nav_msgs::Odometry)) { o = *static_cast<const nav_msgs::Odometry*>(p); ++n; }
  };
  StPtr s(new St);
  s->Reset();
  s->time = 100;
  // Turned by a third about (1,1,1): the axes of the body are y, z, x of the world.
  boost::fusion::at_c<D::q>(s->statevars).state_ = Eigen::Quaterniond(0.5, 0.5, 0.5, 0.5);
  s->P.setZero();
  s->P(3, 3) = 1; s->P(4, 4) = 2; s->P(5, 5) = 3;
  static_cast<const AppMgr&>(m).PublishStateAfterPropagation(s);
  CHECK(n == 1);
  Eigen::Matrix3d R = Eigen::Quaterniond(0.5, 0.5, 0.5, 0.5).toRotationMatrix();
  Eigen::Matrix3d C = R.transpose() * Eigen::Vector3d(1, 2, 3).asDiagonal() * R;
  for (int i = 0; i < 3; ++i)
    for (int k = 0; k < 3; ++k) NEAR(o.twist.covariance[6 * i + k], C(i, k));
}
'''
