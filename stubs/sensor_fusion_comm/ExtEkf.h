#ifndef STUB_SENSOR_FUSION_COMM_EXTEKF_H
#define STUB_SENSOR_FUSION_COMM_EXTEKF_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
#include <geometry_msgs/Vector3.h>
namespace sensor_fusion_comm {
struct ExtEkf {
  typedef boost::shared_ptr<ExtEkf> Ptr; typedef boost::shared_ptr<ExtEkf const> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::Vector3 angular_velocity, linear_acceleration; std::vector<float> state; int32_t flag=0;
  enum { ignore_state=0u, current_state=1u, initialization=2u, state_correction=3u };
};
typedef boost::shared_ptr<ExtEkf> ExtEkfPtr; typedef boost::shared_ptr<ExtEkf const> ExtEkfConstPtr;
}
#endif
