#ifndef STUB_NAV_MSGS_ODOMETRY_H
#define STUB_NAV_MSGS_ODOMETRY_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/PoseWithCovariance.h>
#include <geometry_msgs/TwistWithCovariance.h>
namespace nav_msgs {
struct Odometry {
  typedef boost::shared_ptr<Odometry> Ptr; typedef boost::shared_ptr<Odometry const> ConstPtr;
  std_msgs::Header header;
  std::string child_frame_id; geometry_msgs::PoseWithCovariance pose; geometry_msgs::TwistWithCovariance twist;
};
typedef boost::shared_ptr<Odometry> OdometryPtr; typedef boost::shared_ptr<Odometry const> OdometryConstPtr;
}
#endif
