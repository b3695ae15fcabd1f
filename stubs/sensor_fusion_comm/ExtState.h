#ifndef STUB_SENSOR_FUSION_COMM_EXTSTATE_H
#define STUB_SENSOR_FUSION_COMM_EXTSTATE_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
namespace sensor_fusion_comm {
struct ExtState {
  typedef boost::shared_ptr<ExtState> Ptr; typedef boost::shared_ptr<ExtState const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Pose pose; geometry_msgs::Vector3 velocity;
};
typedef boost::shared_ptr<ExtState> ExtStatePtr; typedef boost::shared_ptr<ExtState const> ExtStateConstPtr;
}
#endif
