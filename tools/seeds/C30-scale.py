prop = 'C30'
edits = [
    ('msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h',
     '    state.GetQBlock<StateDefinition_T::b_p>() = (dt * nb_p.cwiseProduct(nb_p))\n        .asDiagonal();\n',
     '    state.GetQBlock<StateDefinition_T::b_p>() = (dt * nb_p.cwiseProduct(n_L))\n        .asDiagonal();\n'),
]
needs = 'different noises for scale and pressure bias'
breaks = "the pressure bias gets the geometric mean of its own and the scale's noise"
flags = '-DAPP=4'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  configure([](Cfg& c) { c.pose_noise_scale = 0.5; c.press_noise_bias_p = 0.25; });
  St s;
  s.Reset();
  msf_core::MSF_SensorManager<St>& mm = m;
  mm.CalculateQAuxiliaryStates(s, 2);
  NEAR(s.GetQBlock<D::L>()(0, 0), 0.5);
  NEAR(s.GetQBlock<D::b_p>()(0, 0), 0.125);
}
'''
