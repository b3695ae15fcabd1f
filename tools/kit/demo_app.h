// Fixture around a real application (APP: 1 pose 2 position 3 spherical 4 pose_pressure 5 position_pose).
// RECORD: measurements are collected instead of being processed.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include <unistd.h>
#include <boost/weak_ptr.hpp>
#include <ros/ros.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <sensor_msgs/NavSatFix.h>
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include <msf_core/msf_core.h>
#include <msf_core/msf_sensormanagerROS.h>
#include <msf_core/msf_IMUHandler_ROS.h>
extern "C" int usleep(useconds_t) { return 0; }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#define NEAR(a, b) CHECK(std::fabs((a) - (b)) < 1e-6)
#if APP == 1
#include "pose_msf/msf_statedef.hpp"
#elif APP == 2
#include "position_msf/msf_statedef.hpp"
#elif APP == 3
#include "spherical_msf/msf_statedef.hpp"
#elif APP == 4
#include "pose_pressure_msf/msf_statedef.hpp"
#else
#include "position_pose_msf/msf_statedef.hpp"
#endif
typedef msf_updates::EKFState St;
typedef boost::shared_ptr<St> StPtr;
typedef St::StateDefinition_T D;
std::vector<boost::shared_ptr<msf_core::MSF_MeasurementBase<St> > > got;
struct Ext { bool prop; double t; Eigen::Vector3d p, v; Eigen::Quaterniond q; };
std::vector<Ext> gotExt;
#ifdef RECORD
namespace msf_core {
template <> void MSF_Core<St>::AddMeasurement(shared_ptr<MSF_MeasurementBase<St> > m) { got.push_back(m); }
template <> void MSF_Core<St>::ProcessExternallyPropagatedState(const Vector3&, const Vector3&, const Vector3& p, const Vector3& v,
    const Quaternion& q, bool prop, const double& t, size_t) {
  Ext e; e.prop = prop; e.t = t; e.p = p; e.v = v; e.q = q;
  gotExt.push_back(e);
}
}
#endif
#if APP == 1
#include "pose_msf/pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager AppMgr;
typedef msf_updates::SinglePoseSensorConfig Cfg;
#define CFGNS "~pose_sensor"
#elif APP == 2
#include "position_msf/position_sensormanager.h"
typedef msf_position_sensor::PositionSensorManager AppMgr;
typedef msf_updates::SinglePositionSensorConfig Cfg;
#define CFGNS "~position_sensor"
#elif APP == 3
#include "spherical_msf/spherical_sensormanager.h"
typedef msf_spherical_position::SensorManager AppMgr;
typedef msf_updates::SphericalPositionSensorConfig Cfg;
#define CFGNS "~spherical_position_sensor"
#elif APP == 4
#include "pose_pressure_msf/pose_pressure_sensormanager.h"
typedef msf_pose_pressure_sensor::PosePressureSensorManager AppMgr;
typedef msf_updates::PosePressureSensorConfig Cfg;
#define CFGNS "~pose_pressure_sensor"
#else
#include "position_pose_msf/position_pose_sensormanager.h"
typedef msf_updates::PositionPoseSensorManager AppMgr;
typedef msf_updates::PositionPoseSensorConfig Cfg;
#define CFGNS "~position_pose_sensor"
#endif
struct Mgr : AppMgr {
  mutable std::vector<St> inits, upds;
  void PublishStateInitial(const StPtr& s) const { inits.push_back(*s); AppMgr::PublishStateInitial(s); }
  void PublishStateAfterUpdate(const StPtr& s) const { upds.push_back(*s); AppMgr::PublishStateAfterUpdate(s); }
};
inline ros::stub::Bus& bus() { return ros::stub::bus(); }
template <class F> void configure(F f) {
  dynamic_reconfigure::Server<Cfg>* s = dynamic_reconfigure::Server<Cfg>::registry()[CFGNS];
  Cfg c = s->config;
  f(c);
  s->update(c);
}
inline geometry_msgs::PoseWithCovarianceStamped poseMsg(double t, double x, double y, double z, double w = 1, double a = 0, double b = 0, double c = 0) {
  geometry_msgs::PoseWithCovarianceStamped m;
  double n = std::sqrt(w * w + a * a + b * b + c * c);
  m.header.stamp = ros::Time(t);
  m.pose.pose.position.x = x; m.pose.pose.position.y = y; m.pose.pose.position.z = z;
  m.pose.pose.orientation.w = w / n; m.pose.pose.orientation.x = a / n; m.pose.pose.orientation.y = b / n; m.pose.pose.orientation.z = c / n;
  for (int i = 0; i < 36; ++i) m.pose.covariance[i] = i % 7 == 0 ? 0.01 : 0;
  return m;
}
inline geometry_msgs::PointStamped pointMsg(double t, long seq, double x, double y, double z) {
  geometry_msgs::PointStamped m;
  m.header.stamp = ros::Time(t); m.header.seq = seq;
  m.point.x = x; m.point.y = y; m.point.z = z;
  return m;
}
inline sensor_msgs::Imu imuMsg(double t, double z = 9.81) {
  sensor_msgs::Imu m;
  m.header.stamp = ros::Time(t);
  m.linear_acceleration.z = z;
  return m;
}
#define SEND(topic, m) ros::stub::deliver(topic, m)
