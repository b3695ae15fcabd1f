// Drives the real timing library with a controlled clock (1 unit = 1 us).
#include <chrono>
#include <map>
#include <memory>
#include <sstream>
#include "common.h"
#include <msf_timing/Timer.h>
static long long g_now = 1700000000000000LL;  // us
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::microseconds(g_now)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(std::chrono::microseconds(g_now)); }
} } }
namespace h {
using namespace msf_timing;
// x in units; scaled and rounded
std::string stats(const char* tagKey, const std::string& tag, int n, double sum, double mean, double rmean, double var, double mn, double mx, double unit) {
  hc::J j;
  if (tagKey) j.str(tagKey, tag);
  j.n("n", n).n("sum", hc::rnd(sum, unit));
  j.n("mean", n ? hc::rnd(mean, unit * 1000) : 0).n("rmean", n ? hc::rnd(rmean, unit * 1000) : 0).n("var", n ? hc::rnd(var, unit * unit) : 0);
  j.n("min", n ? hc::rnd(mn, unit) : 0).n("max", n ? hc::rnd(mx, unit) : 0);
  return j.done();
}
template<int N> struct Acc {
  Accumulator<double, double, N> d;
  Accumulator<int, int, N> i;
};
std::string run(const hc::Words& head, const std::vector<hc::Words>& ops) {
  std::map<int, std::unique_ptr<Timer> > timers;
  std::map<std::string, long> handles;
  std::vector<std::string> outs;
  Accumulator<double, double, 3> a3;
  Accumulator<int, int, 4> a4;
  for (const hc::Words& w : ops) {
    hc::J o;
    long ret = 0;
    if (w[0] == "adv") g_now += hc::inum(w[1]);
    else if (w[0] == "new") {  // new id tag stopped byhandle
      bool st = hc::inum(w[3]) != 0;
      if (hc::inum(w[4])) timers[hc::inum(w[1])].reset(new Timer(Timing::GetHandle(w[2]), st));
      else timers[hc::inum(w[1])].reset(new Timer(w[2], st));
    } else if (w[0] == "start") timers[hc::inum(w[1])]->Start();
    else if (w[0] == "stop") timers[hc::inum(w[1])]->Stop();
    else if (w[0] == "del") timers.erase(hc::inum(w[1]));
    else if (w[0] == "reset") Timing::Reset();
    else if (w[0] == "touch") {  // same tag, same handle; the handle names the tag
      size_t x = Timing::GetHandle(w[1]), y = Timing::GetHandle(w[1]);
      ret = (x == y && Timing::GetTag(x) == w[1]) ? 1 : 0;
    } else if (w[0] == "add3") a3.Add(hc::inum(w[1]));
    else if (w[0] == "add4") a4.Add(hc::inum(w[1]));
    std::vector<std::string> recs, running;
    std::map<std::string, size_t> tags = Timing::GetTimers();
    int agree = 1;
    std::map<size_t, int> seen;
    for (std::map<std::string, size_t>::iterator it = tags.begin(); it != tags.end(); ++it) {
      const std::string& t = it->first;
      size_t k = it->second;
      if (seen[k]++) agree = 0;  // two tags with the same handle
      int n = Timing::GetNumSamples(t);
      double hz = Timing::GetHz(t);
      recs.push_back(stats("tag", t, n, Timing::GetTotalSeconds(t), Timing::GetMeanSeconds(t), std::isinf(hz) ? 0.0 : 1.0 / hz,
                           Timing::GetVarianceSeconds(t), Timing::GetMinSeconds(t), Timing::GetMaxSeconds(t), 1e6));
      std::string byHandle = stats("tag", t, Timing::GetNumSamples(k), Timing::GetTotalSeconds(k), Timing::GetMeanSeconds(k), std::isinf(hz) ? 0.0 : 1.0 / Timing::GetHz(k),
                           Timing::GetVarianceSeconds(k), Timing::GetMinSeconds(k), Timing::GetMaxSeconds(k), 1e6);
      if (byHandle != recs.back()) agree = 0;
    }
    if (Timing::GetTimers().size() != tags.size()) agree = 0;
    for (auto& kv : timers) if (kv.second->IsTiming()) running.push_back(std::to_string(kv.first));
    // number of samples as printed, per tag
    std::vector<std::string> printed;
    std::istringstream ss(Timing::Print());
    std::string line;
    while (std::getline(ss, line)) {
      std::istringstream ls(line);
      std::string t;
      long n;
      if (ls >> t >> n && tags.count(t)) printed.push_back(hc::J().str("tag", t).n("n", n).done());
    }
    o.n("ret", ret).n("agree", agree).raw("recs", hc::arr(recs)).raw("running", hc::arr(running)).raw("printed", hc::arr(printed));
    o.raw("a3", stats(0, "", a3.TotalSamples(), a3.Sum(), a3.Mean(), a3.RollingMean(), a3.LazyVariance(), a3.Min(), a3.Max(), 1));
    int n4 = a4.TotalSamples();
    o.raw("a4", n4 ? stats(0, "", n4, a4.Sum(), -1, -1, -1, a4.Min(), a4.Max(), 1) : stats(0, "", 0, 0, 0, 0, 0, 0, 0, 1));
    outs.push_back(o.done());
  }
  return hc::J().n("id", hc::inum(head[1])).n("crash", 0).raw("ops", hc::arr(outs)).done();
}
}  // namespace h
int main(int argc, char** argv) { return hc::drive(argc, argv, h::run); }
