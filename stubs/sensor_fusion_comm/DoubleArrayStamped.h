#ifndef STUB_SENSOR_FUSION_COMM_DOUBLEARRAYSTAMPED_H
#define STUB_SENSOR_FUSION_COMM_DOUBLEARRAYSTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace sensor_fusion_comm {
struct DoubleArrayStamped {
  typedef boost::shared_ptr<DoubleArrayStamped> Ptr; typedef boost::shared_ptr<DoubleArrayStamped const> ConstPtr;
  std_msgs::Header header;
  std::vector<double> data;
};
typedef boost::shared_ptr<DoubleArrayStamped> DoubleArrayStampedPtr; typedef boost::shared_ptr<DoubleArrayStamped const> DoubleArrayStampedConstPtr;
}
#endif
