prop = 'C27'
edits = [('msf_timing/include/msf_timing/Timer.h', """      T& oldest = samples_[window_samples_++ % N];
      window_sum_ += sample - oldest;
      oldest = sample;""", """      T& oldest = samples_[(totalsamples_ - N) % N];
      window_sum_ += sample - oldest;
      oldest = sample;
      if (totalsamples_ % N == 0)
        window_samples_ = totalsamples_ % (2 * N) + N;"""), ('msf_timing/include/msf_timing/Timer.h', """    for (int i = 0; i < std::min(window_samples_, N); ++i) {""", """    for (int i = 0; i < std::min(window_samples_, N) - (totalsamples_ > 2 * N); ++i) {""")]
needs = 'more than one hundred intervals under one tag'
breaks = 'the rolling variance leaves out one of the last 50 intervals'
demo = r'''
#include "demo_core.h"
#include <msf_timing/Timer.h>
int main() {
  msf_timing::Accumulator<double, double, 50> a;
  std::vector<double> v;
  for (int k = 0; k < 130; ++k) {
    double s = (k * 37) % 11;
    a.Add(s);
    v.push_back(s);
    int n = std::min<int>(v.size(), 50);
    double mean = 0, var = 0;
    for (int i = v.size() - n; i < (int)v.size(); ++i) mean += v[i] / n;
    for (int i = v.size() - n; i < (int)v.size(); ++i) var += (v[i] - mean) * (v[i] - mean) / n;
    NEAR(a.RollingMean(), mean);
    NEAR(a.LazyVariance(), var);
  }
}
'''
