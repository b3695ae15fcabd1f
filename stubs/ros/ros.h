// Minimal stand-in for roscpp: an in-process message bus with parameters, topics and services.
// It only implements what ethzasl_msf uses. Nothing here talks to a network.
#ifndef STUB_ROS_H
#define STUB_ROS_H
#include <cmath>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/function.hpp>
#include <boost/bind.hpp>

// Some code under test relies on headers roscpp pulls in.
#include <iomanip>
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <queue>

namespace ros {
typedef std::vector<std::string> V_string;

struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t s64 = static_cast<int64_t>(std::floor(t));
    sec = static_cast<uint32_t>(s64);
    nsec = static_cast<uint32_t>(std::lround((t - s64) * 1e9));
    sec += (nsec / 1000000000ul);
    nsec %= 1000000000ul;
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now();
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
};
struct Duration {
  double s;
  explicit Duration(double d = 0) : s(d) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};

namespace stub {
struct SubRec {
  std::string topic;
  const std::type_info* type;
  std::function<void(const boost::shared_ptr<void const>&)> call;
};
struct Bus {
  double now = 0;
  std::map<std::string, double> dparams;
  std::map<std::string, bool> bparams;
  std::map<std::string, int> iparams;
  std::map<std::string, std::string> sparams;
  std::vector<SubRec> subs;
  std::map<std::string, uint32_t> listeners;  // topic -> number of external subscribers
  // Called for every publication: topic, type, pointer to message.
  std::function<void(const std::string&, const std::type_info&, const void*)> onPublish;
  std::map<std::string, std::function<bool(void*, void*)> > services;
  std::function<void()> onSpin;  // what happens while the node runs
};
inline Bus& bus() { static Bus b; return b; }
template <class M> int deliver(const std::string& topic, const M& msg) {
  boost::shared_ptr<M const> p(new M(msg));
  int n = 0;
  for (size_t i = 0; i < bus().subs.size(); ++i)
    if (bus().subs[i].topic == topic && *bus().subs[i].type == typeid(M)) {
      bus().subs[i].call(p);
      ++n;
    }
  return n;
}
template <class S> bool call(const std::string& name, S& srv) {
  if (!bus().services.count(name)) throw std::runtime_error("no service " + name);
  return bus().services[name](&srv.request, &srv.response);
}
}  // namespace stub

inline Time Time::now() { return Time(stub::bus().now); }

struct TransportHints {
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};
struct Subscriber {
  std::string topic;
  std::string getTopic() const { return topic; }
  void shutdown() {}
};
struct Publisher {
  std::string topic;
  uint32_t getNumSubscribers() const {
    std::map<std::string, uint32_t>::const_iterator it = stub::bus().listeners.find(topic);
    return it == stub::bus().listeners.end() ? 0 : it->second;
  }
  template <class M> void publish(const M& m) const {
    if (stub::bus().onPublish) stub::bus().onPublish(topic, typeid(M), &m);
  }
  template <class M> void publish(const boost::shared_ptr<M>& m) const {
    if (stub::bus().onPublish) stub::bus().onPublish(topic, typeid(M), m.get());
  }
  std::string getTopic() const { return topic; }
};
struct ServiceServer {};
struct NodeHandle {
  std::string ns;
  explicit NodeHandle(const std::string& n = "") : ns(n) {}
  NodeHandle(const NodeHandle& p, const std::string& n) : ns(p.ns + "/" + n) {}
  std::string resolve(const std::string& n) const {
    return clean(resolve_(n));
  }
  static std::string clean(std::string s) {
    size_t k;
    while ((k = s.find("//")) != std::string::npos) s.erase(k, 1);
    if (s.compare(0, 2, "~/") == 0) s.erase(1, 1);
    return s;
  }
  std::string resolve_(const std::string& n) const {
    if (!n.empty() && (n[0] == '/' || n[0] == '~')) return n;
    return ns.empty() ? n : ns + "/" + n;
  }
  std::string resolveName(const std::string& n) const { return resolve(n); }
  std::string getNamespace() const { return ns; }
#define STUB_PARAM(T, store)                                                       \
  bool param(const std::string& n, T& v, const T& d) const {                        \
    if (stub::bus().store.count(resolve(n))) { v = stub::bus().store[resolve(n)]; return true; } \
    v = d; return false;                                                            \
  }                                                                                 \
  bool getParam(const std::string& n, T& v) const {                                 \
    if (stub::bus().store.count(resolve(n))) { v = stub::bus().store[resolve(n)]; return true; } \
    return false;                                                                   \
  }
  STUB_PARAM(double, dparams)
  STUB_PARAM(bool, bparams)
  STUB_PARAM(int, iparams)
  STUB_PARAM(std::string, sparams)
#undef STUB_PARAM
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*fp)(const boost::shared_ptr<M const>&), T* obj,
                       const TransportHints& = TransportHints()) {
    stub::SubRec r;
    r.topic = resolve(topic);
    r.type = &typeid(M);
    r.call = [fp, obj](const boost::shared_ptr<void const>& p) {
      (obj->*fp)(boost::static_pointer_cast<M const>(p));
    };
    stub::bus().subs.push_back(r);
    Subscriber s;
    s.topic = r.topic;
    return s;
  }
  template <class M> Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    Publisher p;
    p.topic = resolve(topic);
    return p;
  }
  template <class Req, class Res, class T>
  ServiceServer advertiseService(const std::string& n, bool (T::*fp)(Req&, Res&), T* obj) {
    stub::bus().services[resolve(n)] = [fp, obj](void* a, void* b) {
      return (obj->*fp)(*static_cast<Req*>(a), *static_cast<Res*>(b));
    };
    return ServiceServer();
  }
  bool ok() const { return true; }
};
namespace this_node {
inline void getSubscribedTopics(V_string& t) { t.clear(); }
inline void getAdvertisedTopics(V_string& t) { t.clear(); }
inline std::string getName() { return "stub"; }
}
inline void init(int&, char**, const std::string&) {}
inline void spin() { if (stub::bus().onSpin) stub::bus().onSpin(); }
inline bool ok() { return true; }
}  // namespace ros

namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}
#include <ros/console.h>
#endif
