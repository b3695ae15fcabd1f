#ifndef STUB_SENSOR_FUSION_COMM_DOUBLEMATRIXSTAMPED_H
#define STUB_SENSOR_FUSION_COMM_DOUBLEMATRIXSTAMPED_H
#include <ros/ros.h>
#include <vector>
#include <boost/array.hpp>
namespace sensor_fusion_comm {
struct DoubleMatrixStamped {
  typedef boost::shared_ptr<DoubleMatrixStamped> Ptr; typedef boost::shared_ptr<DoubleMatrixStamped const> ConstPtr;
  std_msgs::Header header;
  int32_t rows=0, cols=0; std::vector<double> data;
};
typedef boost::shared_ptr<DoubleMatrixStamped> DoubleMatrixStampedPtr; typedef boost::shared_ptr<DoubleMatrixStamped const> DoubleMatrixStampedConstPtr;
}
#endif
