prop = 'C02'
edits = [('msf_core/include/msf_core/implementation/msf_measurement_inl.h',
 "  if (!(InitState.P.minCoeff() == 0 && InitState.P.maxCoeff() == 0)) {\n",
 "  if (InitState.P.trace() > 1e-6 * InitState.P.rows()) {\n")]
needs = 'an initialisation whose supplied covariance is small (a well known starting pose)'
breaks = 'a small supplied initial covariance is ignored in favour of the built-in one'
demo = r'''
#include "demo_core.h"
int main() {
  for (double s : {1e-3, 1e-7}) {
    Filter f;
    boost::shared_ptr<msf_core::MSF_InitMeasurement<d::St> > m(new msf_core::MSF_InitMeasurement<d::St>(true));
    m->time = 1;
    m->Geta_m() = d::G;
    m->Getw_m() = d::V3::Zero();
    m->GetStateCovariance() = d::Cov::Identity() * s;
    f.core.Init(m);
    CHECK(f.mgr.inits.size() == 1);
    CHECK((f.mgr.inits[0].P - d::Cov::Identity() * s).norm() == 0);
  }
}
'''
