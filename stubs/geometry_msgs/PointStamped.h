#ifndef STUB_GEOMETRY_MSGS_POINTSTAMPED_H
#define STUB_GEOMETRY_MSGS_POINTSTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Point.h>
namespace geometry_msgs {
struct PointStamped {
  typedef boost::shared_ptr<PointStamped> Ptr; typedef boost::shared_ptr<PointStamped const> ConstPtr;
  std_msgs::Header header;
  Point point;
};
typedef boost::shared_ptr<PointStamped> PointStampedPtr; typedef boost::shared_ptr<PointStamped const> PointStampedConstPtr;
}
#endif
