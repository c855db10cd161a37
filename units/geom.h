#ifndef GEOM_H
#define GEOM_H
#include "vc.h"
#include "smash/fourvector.h"
#include "smash/threevector.h"
using namespace smash;
inline ThreeVector any3(const char *a, const char *b, const char *c, double m = 1e3) {
  double x = vc_double(a, -m, m), y = vc_double(b, -m, m), z = vc_double(c, -m, m);
  return ThreeVector(x, y, z);
}
inline FourVector any4(const char *t, const char *a, const char *b, const char *c, double m = 1e3) {
  double w = vc_double(t, -m, m), x = vc_double(a, -m, m), y = vc_double(b, -m, m), z = vc_double(c, -m, m);
  return FourVector(w, x, y, z);
}
// a velocity below 0.99 c (natively the boosts lose digits near 1)
inline ThreeVector any_velocity() {
  double x = vc_double("vx", -1., 1.), y = vc_double("vy", -1., 1.), z = vc_double("vz", -1., 1.);
  VC_ASSUME(x * x + y * y + z * z < 1.0);
  if (!vc_symbolic()) VC_ASSUME(x * x + y * y + z * z < 0.9999);
  return ThreeVector(x, y, z);
}
#endif
