#ifndef STUB_GEOMETRY_MSGS_TWIST_H
#define STUB_GEOMETRY_MSGS_TWIST_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Twist {
  typedef boost::shared_ptr<Twist> Ptr; typedef boost::shared_ptr<Twist const> ConstPtr;
  Vector3 linear, angular;
};
typedef boost::shared_ptr<Twist> TwistPtr; typedef boost::shared_ptr<Twist const> TwistConstPtr;
}
#endif
