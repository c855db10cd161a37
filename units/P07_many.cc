// P07: three-body phase space, given the contract of pCM (P06)
//@sources @types_support.cc action.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc threevector.cc
//@native random.cc logging.cc
//@bounded three_bodies
#include "types.h"
#include "smash/action.h"
#include "smash/angles.h"
#include "smash/potential_globals.h"
#ifndef VC_NATIVE
// s = +sqrt(t*t)
static void root_is(double s, double t) {
  VC_LEMMA(t >= 0, "energies are positive");
  VC_LEMMA_EQ(s * s, t * t, "energy squared");
  VC_LEMMA_EQ(s, t, "energy from the masses");
}
static int pairs;
static double pair_mass[2], pair_share[2], pair_k[2], pair_a[2];
extern "C" double vcstub__ZN5smash3pCMIdEET_S1_S1_S1_(double w, double a, double b) {
  VC_ASSERT(w >= a + b && a > 0 && b > 0, "pairs are split above their threshold");
  double k = vc_sym_double("k");
  double E = (w * w + a * a - b * b) / (2 * w), F = (w * w + b * b - a * a) / (2 * w);
  VC_ASSUME(k >= 0);
  VC_ASSUME(k * k == E * E - a * a);
  root_is(std::sqrt(b * b + k * k), F);
  root_is(std::sqrt(a * a + k * k), E);
  if (pairs < 2) {
    pair_mass[pairs] = w;
    pair_share[pairs] = E;
    pair_k[pairs] = k;
    pair_a[pairs] = a;
  }
  pairs++;
  return k;
}
// contract of Angles::threevec (P05): a unit vector
extern "C" ThreeVector vcstub__ZNK5smash6Angles8threevecEv(const Angles *) {
  double x = vc_sym_double("ux"), y = vc_sym_double("uy"), z = vc_sym_double("uz");
  VC_ASSUME(z * z == 1 - x * x - y * y);
  ThreeVector u(x, y, z);
  if (pairs == 1) {
    // the pair recoils slower than light
    const double k = pair_k[0], a = pair_a[0], E = pair_share[0];
    const ThreeVector v = k * u / std::sqrt(k * k + a * a);
    VC_LEMMA_EQ(v.sqr(), 1 - (a / E) * (a / E), "speed of the pair");
    VC_LEMMA(v.sqr() < 1, "slower than light");
    const double g = std::sqrt(1 - v.sqr());
    VC_LEMMA_EQ(g * g, (a / E) * (a / E), "time dilation of the pair");
    VC_LEMMA_EQ(g, a / E, "time dilation of the pair");
  }
  return u;
}
// the weights only decide which proposals are dropped; a dropped proposal leaves no trace
extern "C" double vcstub__ZN5smash7pCM_sqrIdEET_S1_S1_S1_(double, double, double) {
  double x = vc_sym_double("weight");
  VC_ASSUME(x > 0);
  return x;
}
extern "C" double vcstub__ZN5smash6random9canonicalIdEET_v() { return 0.; }
extern "C" double vcstub__ZN5smash6random7uniformIdEET_S2_S2_(double a, double b) {
  double x = vc_sym_double("draw");
  VC_ASSUME(x >= a && x < b);
  return x;
}
#endif
VC_PROOF(three_bodies) {
  install_types();
  double m1 = vc_double("m1", 0.1, 5), m2 = vc_double("m2", 0.1, 5), m3 = vc_double("m3", 0.1, 5), w = vc_double("w", 0.3, 50);
  VC_ASSUME(w > m1 + m2 + m3);
  if (!vc_symbolic()) VC_ASSUME(w > m1 + m2 + m3 + 1e-2);
  std::vector<FourVector> p;
#ifndef VC_NATIVE
  pairs = 0;
#endif
  Action::sample_manybody_phasespace_impl(w, {m1, m2, m3}, p);
  VC_ASSERT(p.size() == 3, "one momentum per particle");
#ifndef VC_NATIVE
  VC_ASSERT(pairs == 2, "two splittings");
#endif
  // boosts keep energies positive: see P04
  for (int i = vc_symbolic() ? 2 : 0; i < 3; i++) VC_ASSERT(p[i].x0() > 0, "positive energies");
  VC_EQT(p[0].sqr(), m1 * m1, 1e-4, "first particle on its mass shell");
  VC_EQT(p[1].sqr(), m2 * m2, 1e-4, "second particle on its mass shell");
  VC_EQT(p[2].sqr(), m3 * m3, 1e-4, "third particle on its mass shell");
  FourVector sum = p[0] + p[1] + p[2];
  for (int i = 1; i < 4; i++) VC_EQT(sum[i], 0, 1e-5, "momenta add up to zero");
  VC_EQT(sum[0], w, 1e-5, "energies add up to the available energy");
}
