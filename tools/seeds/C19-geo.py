prop = 'C19'
edits = [
    ('msf_core/src/lib/gps_conversion.cc',
     '  ecef[2] = (N * (1 - e_sq) + altitude) * s_lat;\n',
     '  ecef[2] = (N + altitude) * (1 - e_sq) * s_lat;\n'),
]
needs = 'fixes whose altitude differs from the reference, off the equator'
breaks = 'the eccentricity also scales the altitude'
flags = '-DAPP=2 -DRECORD'
demo = r'''
#include "demo_app.h"
int main() {
  Mgr m;
  sensor_msgs::NavSatFix f;
  f.header.stamp = ros::Time(100.0);
  f.latitude = 47; f.longitude = 8; f.altitude = 500;
  f.position_covariance_type = sensor_msgs::NavSatFix::COVARIANCE_TYPE_KNOWN;
  f.position_covariance[0] = f.position_covariance[4] = f.position_covariance[8] = 1;
  SEND("msf_updates/navsatfix_input", f);
  f.header.stamp = ros::Time(100.5);
  f.altitude = 600;
  SEND("msf_updates/navsatfix_input", f);
  CHECK(got.size() == 2);
  typedef msf_updates::position_measurement::PositionMeasurement M;
  Eigen::Vector3d z = dynamic_cast<M*>(got[1].get())->z_p_;
  CHECK(std::fabs(z(2) - 100) < 1e-4);
  CHECK(std::fabs(z(1)) < 1e-4);
}
'''
