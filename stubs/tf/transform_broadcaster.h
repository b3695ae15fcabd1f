#ifndef STUB_TF_H
#define STUB_TF_H
#include <ros/ros.h>
#include <functional>
namespace tf {
struct Vector3 { double x_, y_, z_; Vector3(double a = 0, double b = 0, double c = 0) : x_(a), y_(b), z_(c) {} double x() const { return x_; } double y() const { return y_; } double z() const { return z_; } };
struct Quaternion { double x_, y_, z_, w_; Quaternion(double a = 0, double b = 0, double c = 0, double d = 1) : x_(a), y_(b), z_(c), w_(d) {} double x() const { return x_; } double y() const { return y_; } double z() const { return z_; } double w() const { return w_; } };
struct Transform { Vector3 o; Quaternion q; void setOrigin(const Vector3& v) { o = v; } void setRotation(const Quaternion& r) { q = r; } };
struct StampedTransform : Transform {
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
struct TransformBroadcaster {
  static std::function<void(const StampedTransform&)>& hook() { static std::function<void(const StampedTransform&)> h; return h; }
  void sendTransform(const StampedTransform& t) { if (hook()) hook()(t); }
};
}
#endif
