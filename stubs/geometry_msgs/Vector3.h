#ifndef STUB_GEOMETRY_MSGS_VECTOR3_H
#define STUB_GEOMETRY_MSGS_VECTOR3_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace geometry_msgs {
struct Vector3 {
  typedef boost::shared_ptr<Vector3> Ptr; typedef boost::shared_ptr<Vector3 const> ConstPtr;
  double x=0,y=0,z=0;
};
typedef boost::shared_ptr<Vector3> Vector3Ptr; typedef boost::shared_ptr<Vector3 const> Vector3ConstPtr;
}
#endif
