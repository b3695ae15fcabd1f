prop = 'C24'
edits = [
    ('msf_core/include/msf_core/msf_sensormanagerROS.h',
     '        Eigen::Quaterniond qbuff_q = hl_q.inverse()\n            * state_const.template Get<StateDefinition_T::q>();\n',
     '        Eigen::Quaterniond qbuff_q = state_const.template Get<StateDefinition_T::q>()\n            * hl_q.inverse();\n'),
]
needs = 'an external attitude and a filter attitude about different axes'
breaks = 'the attitude correction is expressed in the world instead of the external state'
flags = '-DAPP=1'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  bus().listeners["msf_core/correction"] = 1;
  std::vector<sensor_fusion_comm::ExtEkf> out;
  bus().onPublish = [&](const std::string& t, const std::type_info& ty, const void* p) {
    if (ty == typeid(sensor_fusion_comm::ExtEkf)) out.push_back(*static_cast<const sensor_fusion_comm::ExtEkf*>(p));
  };
  sensor_fusion_comm::ExtEkf e;
  e.state.assign(16, 0);
  e.state[6] = 0.8f; e.state[7] = 0.6f;
  m.SetHLControllerStateBuffer(e);
  StPtr s(new St);
  s->Reset();
  s->time = 100;
  s->Set<D::q>(Eigen::Quaterniond(0.8, 0, 0.6, 0));
  static_cast<const AppMgr&>(m).PublishStateAfterUpdate(s);
  CHECK(out.size() == 1);
  CHECK(out[0].flag == sensor_fusion_comm::ExtEkf::state_correction);
  Eigen::Quaterniond q = Eigen::Quaterniond(0.8, 0.6, 0, 0).inverse() * Eigen::Quaterniond(0.8, 0, 0.6, 0);
  CHECK(std::fabs(out[0].state[9] - q.z()) < 1e-5);
}
'''
