// Drives the real time-ordered buffer (SortedContainer).
#include <iostream>
#include <map>
#include <memory>
#include <iomanip>
#include <sstream>
#include <boost/shared_ptr.hpp>
#include <ros/ros.h>
#include "common.h"
#include <msf_core/msf_core.h>
#include <msf_core/msf_sortedContainer.h>
namespace h {
struct Elem { double time; int id; Elem() : time(0), id(-1) {} virtual ~Elem() {} };
struct Invalid : Elem {};
typedef boost::shared_ptr<Elem> Ptr;
typedef msf_core::SortedContainer<Elem, Invalid> Box;
const double TICK = 1024.0, BASE = 1.5e9;
double tm(long t) { return BASE + t / TICK; }
long tick(double t) { return llround((t - BASE) * TICK); }
std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  Box box;
  std::vector<std::string> outs;
  Ptr probe(new Elem);
  auto id = [&](const Ptr& p) { return !p ? -2 : (p == box.GetInvalid() || p->time == msf_core::constants::INVALID_TIME) ? -1 : p->id; };
  auto iid = [&](Box::iterator_T it) { return it == box.GetIteratorEnd() || it == box.GetIteratorBeforeBegin() ? -1 : it->second->id; };
  for (const hc::Words& w : ops) {
    int ret = -1;
    if (w[0] == "ins") {
      Ptr e(new Elem);
      e->time = tm(hc::inum(w[1]));
      e->id = hc::inum(w[2]);
      ret = box.Insert(e)->second->id;
    } else if (w[0] == "upd") {
      Ptr r = box.UpdateTime(tm(hc::inum(w[1])), tm(hc::inum(w[2])));
      ret = id(r);
    } else if (w[0] == "clr") {
      box.Clear();
    } else if (w[0] == "old") {
      box.ClearOlderThan(hc::inum(w[1]) / TICK);
    }
    hc::J o;
    std::vector<std::string> content, qs;
    for (Box::iterator_T it = box.GetIteratorBegin(); it != box.GetIteratorEnd(); ++it)
      content.push_back("[" + std::to_string(tick(it->second->time)) + "," + std::to_string(it->second->id) + "]");
    for (size_t i = 0; i < w.size(); ++i) {
      if (w[i][0] != '@') continue;
      long t = hc::inum(w[i].substr(1));
      double d = tm(t);
      probe->time = d;
      qs.push_back(hc::J().n("t", t).n("at", id(box.GetValueAt(d))).n("near", id(box.GetClosest(d))).n("bef", id(box.GetClosestBefore(d)))
                       .n("aft", id(box.GetClosestAfter(d))).n("iat", iid(box.GetIteratorAtValue(d, false))).n("iatp", iid(box.GetIteratorAtValue(probe, true)))
                       .n("ibef", iid(box.GetIteratorClosestBefore(d))).n("iaft", iid(box.GetIteratorClosestAfter(d))).n("inear", iid(box.GetIteratorClosest(d))).done());
    }
    o.n("ret", ret).n("size", box.Size()).n("first", id(box.GetFirst())).n("last", id(box.GetLast())).n("begin", iid(box.GetIteratorBegin()));
    o.raw("content", hc::arr(content)).raw("q", hc::arr(qs));
    outs.push_back(o.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
