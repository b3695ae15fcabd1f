prop = 'C26'
edits = [
    ('msf_core/include/msf_core/msf_sensormanagerROS.h',
     '    if (pubPoseCrtl_.getNumSubscribers() || pubPose_.getNumSubscribers() || pubOdometry_.getNumSubscribers()) {\n',
     '    if (pubPoseCrtl_.getNumSubscribers() || pubPose_.getNumSubscribers()) {\n'),
]
needs = 'only the odometry topic has a listener'
breaks = 'no odometry is published when nobody listens to pose or external state'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  bus().listeners["msf_core/odometry"] = 1;
  int n = 0;
  bus().onPublish = [&](const std::string& t, const std::type_info& ty, const void* p) { n += ty == typeid(nav_msgs::Odometry); };
  StPtr s(new St);
  s->Reset();
  s->time = 100;
  static_cast<const AppMgr&>(m).PublishStateAfterPropagation(s);
  CHECK(n == 1);
}
'''
