#ifndef STUB_GEOMETRY_MSGS_POSE_H
#define STUB_GEOMETRY_MSGS_POSE_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Pose {
  typedef boost::shared_ptr<Pose> Ptr; typedef boost::shared_ptr<Pose const> ConstPtr;
  Point position; Quaternion orientation;
};
typedef boost::shared_ptr<Pose> PosePtr; typedef boost::shared_ptr<Pose const> PoseConstPtr;
}
#endif
