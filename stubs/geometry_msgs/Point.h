#ifndef STUB_GEOMETRY_MSGS_POINT_H
#define STUB_GEOMETRY_MSGS_POINT_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace geometry_msgs {
struct Point {
  typedef boost::shared_ptr<Point> Ptr; typedef boost::shared_ptr<Point const> ConstPtr;
  double x=0,y=0,z=0;
};
typedef boost::shared_ptr<Point> PointPtr; typedef boost::shared_ptr<Point const> PointConstPtr;
}
#endif
