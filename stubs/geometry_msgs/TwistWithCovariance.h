#ifndef STUB_GEOMETRY_MSGS_TWISTWITHCOVARIANCE_H
#define STUB_GEOMETRY_MSGS_TWISTWITHCOVARIANCE_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs {
struct TwistWithCovariance {
  typedef boost::shared_ptr<TwistWithCovariance> Ptr; typedef boost::shared_ptr<TwistWithCovariance const> ConstPtr;
  typedef boost::array<double,36> _covariance_type;
  Twist twist; _covariance_type covariance; TwistWithCovariance() { covariance.assign(0); }
};
typedef boost::shared_ptr<TwistWithCovariance> TwistWithCovariancePtr; typedef boost::shared_ptr<TwistWithCovariance const> TwistWithCovarianceConstPtr;
}
#endif
