#ifndef STUB_DYNREC_H
#define STUB_DYNREC_H
#include <ros/ros.h>
#include <any>
#include <boost/bind.hpp>
#if defined(BOOST_BIND_GLOBAL_PLACEHOLDERS) || BOOST_VERSION >= 106000
#include <boost/bind/placeholders.hpp>
#endif
namespace dynamic_reconfigure {
// As the real server, setCallback calls back at once with the defaults and all level bits set;
// updates are sent by the harness through update(). Values for the initial call may be preset.
template <class C> struct Server {
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  CallbackType cb;
  C config;
  std::string ns;
  static std::map<std::string, Server*>& registry() { static std::map<std::string, Server*> r; return r; }
  static std::map<std::string, C>& preset() { static std::map<std::string, C> r; return r; }
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : ns(ros::NodeHandle::clean(nh.ns)) {
    registry()[ns] = this;
    if (preset().count(ns)) config = preset()[ns];
  }
  ~Server() { if (registry().count(ns) && registry()[ns] == this) registry().erase(ns); }
  void setCallback(const CallbackType& f) {
    cb = f;
    C c = config;
    cb(c, ~0u);
    config = c;
  }
  void update(C c) {
    uint32_t level = c.diffLevel(config);
    cb(c, level);
    config = c;
  }
  void updateConfig(const C& c) { config = c; }
};
}
#endif
