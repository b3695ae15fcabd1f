#ifndef STUB_GEOMETRY_MSGS_QUATERNION_H
#define STUB_GEOMETRY_MSGS_QUATERNION_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace geometry_msgs {
struct Quaternion {
  typedef boost::shared_ptr<Quaternion> Ptr; typedef boost::shared_ptr<Quaternion const> ConstPtr;
  double x=0,y=0,z=0,w=0;
};
typedef boost::shared_ptr<Quaternion> QuaternionPtr; typedef boost::shared_ptr<Quaternion const> QuaternionConstPtr;
}
#endif
