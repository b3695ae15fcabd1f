#ifndef STUB_SENSOR_FUSION_COMM_POINTWITHCOVARIANCESTAMPED_H
#define STUB_SENSOR_FUSION_COMM_POINTWITHCOVARIANCESTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Point.h>
namespace sensor_fusion_comm {
struct PointWithCovarianceStamped {
  typedef boost::shared_ptr<PointWithCovarianceStamped> Ptr; typedef boost::shared_ptr<PointWithCovarianceStamped const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Point point; boost::array<double,9> covariance; PointWithCovarianceStamped() { covariance.assign(0); }
};
typedef boost::shared_ptr<PointWithCovarianceStamped> PointWithCovarianceStampedPtr; typedef boost::shared_ptr<PointWithCovarianceStamped const> PointWithCovarianceStampedConstPtr;
}
#endif
