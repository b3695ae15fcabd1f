#ifndef STUB_GEOMETRY_MSGS_TRANSFORM_H
#define STUB_GEOMETRY_MSGS_TRANSFORM_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Quaternion.h>
namespace geometry_msgs {
struct Transform {
  typedef boost::shared_ptr<Transform> Ptr; typedef boost::shared_ptr<Transform const> ConstPtr;
  Vector3 translation; Quaternion rotation;
};
typedef boost::shared_ptr<Transform> TransformPtr; typedef boost::shared_ptr<Transform const> TransformConstPtr;
}
#endif
