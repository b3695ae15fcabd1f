#ifndef STUB_GEOMETRY_MSGS_POSESTAMPED_H
#define STUB_GEOMETRY_MSGS_POSESTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseStamped {
  typedef boost::shared_ptr<PoseStamped> Ptr; typedef boost::shared_ptr<PoseStamped const> ConstPtr;
  std_msgs::Header header;
  Pose pose;
};
typedef boost::shared_ptr<PoseStamped> PoseStampedPtr; typedef boost::shared_ptr<PoseStamped const> PoseStampedConstPtr;
}
#endif
