prop = 'C17'
edits = [('msf_core/include/msf_core/implementation/msf_core_inl.h',
 "      MatExp + 1.0 / 48.0 * (Omega * OmegaOld - OmegaOld * Omega) * dt * dt;\n",
 "      MatExp + 1.0 / 48.0 * (OmegaOld * Omega - Omega * OmegaOld) * dt * dt;\n")]
needs = 'consecutive angular rates about different axes'
breaks = 'the second order term of the attitude step has the wrong sign, so the attitude drifts under coning motion'
demo = r'''
#include "demo_core.h"
static double err(double dt) {  // the attitude after one second with a rate that turns steadily
  Filter f;
  f.init(1);
  d::V3 g(0, 0, 0);
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
  int n = (int) std::round(1 / dt);
  f.imu(1.001, g, d::V3(2, 0, 0));
  auto rate = [](double t) { return d::V3(2, 6 * t, 0); };
  double t = 1.001;
  size_t from = f.mgr.props.size() - 1;
  for (int k = 1; k <= n; ++k) f.imu(t + k * dt, g, rate(k * dt));
  const d::St& a = f.mgr.props[from];
  const d::St& b = f.mgr.props.back();
  q = a.Get<d::q>();
  int m = 4000;
  for (int k = 0; k < m; ++k) {
    d::V3 w = rate((k + 0.5) / m) / m;
    q = (q * Eigen::Quaterniond(Eigen::AngleAxisd(w.norm(), w.normalized()))).normalized();
  }
  return q.angularDistance(b.Get<d::q>());
}
int main() {
  double e1 = err(0.05), e2 = err(0.025);
  printf("%g %g\n", e1, e2);
  CHECK(e1 < 1.5e-3);
  CHECK(e2 < 1.5e-4);
}
'''
