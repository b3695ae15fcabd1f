#ifndef STUB_SENSOR_MSGS_IMU_H
#define STUB_SENSOR_MSGS_IMU_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
namespace sensor_msgs {
struct Imu {
  typedef boost::shared_ptr<Imu> Ptr; typedef boost::shared_ptr<Imu const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation; geometry_msgs::Vector3 angular_velocity, linear_acceleration;
};
typedef boost::shared_ptr<Imu> ImuPtr; typedef boost::shared_ptr<Imu const> ImuConstPtr;
}
#endif
