prop = 'C33'
edits = [('msf_distort/src/msf_distort.cc', "  void config(Config_T &config, uint32_t /*level*/) {\n    config_ = config;", "  void config(Config_T &config, uint32_t /*level*/) {\n    config.publish_position = config.publish_position || !config.publish_pose;\n    config_ = config;")]
needs = 'both kinds disabled'
breaks = 'position messages still pass'
demo = r'''
#include "demo_core.h"
#include <msf_core/msf_types.h>
#include <sensor_msgs/NavSatFix.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#define main distort_main
#include <../../msf_distort/src/msf_distort.cc>
#undef main
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
int main() {
  ros::NodeHandle nh("msf_distort");
  CallbackHandler h(nh);
  int n = 0;
  ros::stub::bus().onPublish = [&](const std::string&, const std::type_info&, const void*) { ++n; };
  for (int k = 0; k < 4; ++k) {
    msf_distort::MSF_DistortConfig c;
    c.publish_pose = k & 1;
    c.publish_position = k & 2;
    h.config(c, 1);
    n = 0;
    h.MeasurementCallback(geometry_msgs::PointStampedConstPtr(new geometry_msgs::PointStamped));
    CHECK(n == (k & 2 ? 1 : 0));
    n = 0;
    h.MeasurementCallback(geometry_msgs::PoseStampedConstPtr(new geometry_msgs::PoseStamped));
    CHECK(n == (k & 1 ? 1 : 0));
  }
}
'''
