#ifndef STUB_GEOMETRY_MSGS_POSEWITHCOVARIANCESTAMPED_H
#define STUB_GEOMETRY_MSGS_POSEWITHCOVARIANCESTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/PoseWithCovariance.h>
namespace geometry_msgs {
struct PoseWithCovarianceStamped {
  typedef boost::shared_ptr<PoseWithCovarianceStamped> Ptr; typedef boost::shared_ptr<PoseWithCovarianceStamped const> ConstPtr;
  std_msgs::Header header;
  PoseWithCovariance pose;
};
typedef boost::shared_ptr<PoseWithCovarianceStamped> PoseWithCovarianceStampedPtr; typedef boost::shared_ptr<PoseWithCovarianceStamped const> PoseWithCovarianceStampedConstPtr;
}
#endif
