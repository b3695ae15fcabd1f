#ifndef STUB_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#define STUB_GEOMETRY_MSGS_TRANSFORMSTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Transform.h>
namespace geometry_msgs {
struct TransformStamped {
  typedef boost::shared_ptr<TransformStamped> Ptr; typedef boost::shared_ptr<TransformStamped const> ConstPtr;
  std_msgs::Header header;
  std::string child_frame_id; Transform transform;
};
typedef boost::shared_ptr<TransformStamped> TransformStampedPtr; typedef boost::shared_ptr<TransformStamped const> TransformStampedConstPtr;
}
#endif
