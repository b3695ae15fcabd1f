#ifndef STUB_SENSOR_MSGS_NAVSATFIX_H
#define STUB_SENSOR_MSGS_NAVSATFIX_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace sensor_msgs {
struct NavSatFix {
  typedef boost::shared_ptr<NavSatFix> Ptr; typedef boost::shared_ptr<NavSatFix const> ConstPtr;
  std_msgs::Header header;
  double latitude=0, longitude=0, altitude=0; boost::array<double,9> position_covariance; uint8_t position_covariance_type=0;
  enum { COVARIANCE_TYPE_UNKNOWN=0, COVARIANCE_TYPE_APPROXIMATED=1, COVARIANCE_TYPE_DIAGONAL_KNOWN=2, COVARIANCE_TYPE_KNOWN=3 };
  NavSatFix() { position_covariance.assign(0); }
};
typedef boost::shared_ptr<NavSatFix> NavSatFixPtr; typedef boost::shared_ptr<NavSatFix const> NavSatFixConstPtr;
}
#endif
