#ifndef STUB_GEOMETRY_MSGS_POSEWITHCOVARIANCE_H
#define STUB_GEOMETRY_MSGS_POSEWITHCOVARIANCE_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseWithCovariance {
  typedef boost::shared_ptr<PoseWithCovariance> Ptr; typedef boost::shared_ptr<PoseWithCovariance const> ConstPtr;
  typedef boost::array<double,36> _covariance_type;
  Pose pose; _covariance_type covariance; PoseWithCovariance() { covariance.assign(0); }
};
typedef boost::shared_ptr<PoseWithCovariance> PoseWithCovariancePtr; typedef boost::shared_ptr<PoseWithCovariance const> PoseWithCovarianceConstPtr;
}
#endif
