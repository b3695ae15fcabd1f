prop = 'C21'
edits = [
    ('msf_updates/src/spherical_msf/spherical_sensormanager.h',
     '    distance_handler_->SetDelay(config.distance_delay);\n',
     '    distance_handler_->SetDelay(std::max(config.distance_delay, config.angle_delay));\n'),
]
needs = 'an angle delay longer than the distance delay'
breaks = 'distances are stamped with the delay of the angles'
flags = '-DAPP=3 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  configure([](Cfg& c) { c.angle_delay = 0.25; c.distance_delay = 0.125; });
  SEND("msf_updates/angle_input", pointMsg(100, 1, 1, 0.5, 0));
  SEND("msf_updates/distance_input", pointMsg(100, 1, 2, 0, 0));
  CHECK(got.size() == 2);
  NEAR(got[0]->time, 99.75);
  NEAR(got[1]->time, 99.875);
}
'''
