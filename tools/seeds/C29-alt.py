prop = 'C29'
edits = [('msf_core/src/lib/gps_conversion.cc', "  ecef[2] = (N * (1 - e_sq) + altitude) * s_lat;", "  ecef[2] = (N + altitude) * (1 - e_sq) * s_lat;")]
needs = 'an altitude that differs from the reference, away from the equator'
breaks = 'height differences come out 0.7 % of sin(latitude) too small and tilted'
demo = r'''
#include "demo_core.h"
#include <../src/lib/gps_conversion.cc>
int main() {
  msf_core::GPSConversion g;
  for (double lat = -80; lat <= 80; lat += 16) {
    g.InitReference(lat, 8.5, 400);
    for (double h = 0; h < 3000; h += 500) {
      Eigen::Vector3d x = g.WGS84ToENU(lat, 8.5, h);
      CHECK(std::abs(x[0]) < 1e-6 && std::abs(x[1]) < 1e-6 && std::abs(x[2] - (h - 400)) < 1e-6);
    }
  }
}
'''
