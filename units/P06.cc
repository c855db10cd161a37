// P06: two-body kinematics and the conversions between collision energies
//@sources
#include "vc.h"
#include <cmath>
#include "smash/kinematics.h"
using namespace smash;
static double mass(const char *n) { return vc_double(n, 0.05, 50.); }

VC_PROOF(cm_momentum) {
  double ma = mass("ma"), mb = mass("mb"), w = vc_double("sqrts", 0.1, 200.);
  VC_ASSUME(w > ma + mb);
  double p2 = pCM_sqr(w, ma, mb), p = pCM(w, ma, mb), ps = pCM_from_s(w * w, ma, mb), p2s = pCM_sqr_from_s(w * w, ma, mb);
  double E = (w * w + ma * ma - mb * mb) / (2 * w);
  VC_EQT(p2, E * E - ma * ma, 1e-6, "squared momentum follows from the energy in the centre of mass");
  VC_EQ(p2, p2s, "squared momentum from s");
  VC_EQ(p, ps, "momentum from s");
  VC_ASSERT(p >= 0, "momentum is not negative");
  VC_EQT(4 * w * w * p2, (w * w - (ma + mb) * (ma + mb)) * (w * w - (ma - mb) * (ma - mb)), 1e-6, "Kallen function");
  double Eb = (w * w + mb * mb - ma * ma) / (2 * w);
  VC_EQ(E + Eb, w, "energies add up");
  VC_EQT(Eb * Eb - mb * mb, p2, 1e-6, "both particles carry the same momentum");
  if (p2 > 0) VC_EQT(p * p, p2, 1e-6, "square of the momentum");
  VC_EQT(pCM_sqr(w, mb, ma), p2, 1e-6, "symmetric in the particles");
}
VC_PROOF(cm_threshold) {
  double ma = mass("ma"), mb = mass("mb"), w = vc_double("sqrts", 0.1, 200.);
  VC_ASSUME(w <= ma + mb);
  VC_ASSUME(w > (ma > mb ? ma - mb : mb - ma));
  if (!vc_symbolic()) VC_ASSUME(w < ma + mb - 1e-6);
  VC_EQ(pCM(w, ma, mb), 0, "no momentum below threshold");
  VC_ASSERT(pCM_sqr(w, ma, mb) <= 0, "squared momentum is not positive below threshold");
}
VC_PROOF(lab_momentum) {
  double ma = mass("ma"), mb = mass("mb"), plab = vc_double("plab", 0., 200.);
  if (!vc_symbolic()) VC_ASSUME(plab > 0.1);
  double E = std::sqrt(ma * ma + plab * plab);
  double s = s_from_plab(plab, ma, mb);
  VC_EQT(s, (E + mb) * (E + mb) - plab * plab, 1e-6, "s is the square of the total momentum");
  VC_EQ(s_from_Etot(E, ma, mb), s, "from the total energy");
  VC_EQT(s_from_Ekin(E - ma, ma, mb), s, 1e-6, "from the kinetic energy");
  double q = plab_from_s(s, ma, mb);
  VC_EQT(q * q, plab * plab, 1e-4, "lab momentum from s");
  VC_ASSERT(q >= 0, "lab momentum is not negative");
}
VC_PROOF(lab_momentum_equal) {
  double m = mass("m"), plab = vc_double("plab", 0., 200.);
  if (!vc_symbolic()) VC_ASSUME(plab > 0.1);
  double s = s_from_plab(plab, m, m);
  double q = plab_from_s(s, m);
  VC_EQT(q * q, plab * plab, 1e-4, "lab momentum from s for equal masses");
  double r = plab_from_s(s, m, m);
  VC_EQT(r * r, q * q, 1e-4, "agrees with the general formula");
}
VC_PROOF(lab_momentum_nucleon) {
  double plab = vc_double("plab", 0., 200.);
  if (!vc_symbolic()) VC_ASSUME(plab > 0.1);
  double s = s_from_plab(plab, nucleon_mass, nucleon_mass);
  double q = plab_from_s(s);
  VC_EQT(q * q, plab * plab, 1e-4, "nucleons by default");
}
VC_PROOF(two_beams) {
  double ma = mass("ma"), mb = mass("mb"), pa = vc_double("pa", 0., 200.), pb = vc_double("pb", 0., 200.);
  double Ea = std::sqrt(ma * ma + pa * pa), Eb = std::sqrt(mb * mb + pb * pb);
  double s = (Ea + Eb) * (Ea + Eb) - (pa - pb) * (pa - pb);
  VC_EQT(s_from_plab(pa, pb, ma, mb), s, 1e-5, "head-on beams from momenta");
  VC_EQT(s_from_Etot(Ea, Eb, ma, mb), s, 1e-5, "head-on beams from energies");
  VC_EQT(s_from_Ekin(Ea - ma, Eb - mb, ma, mb), s, 1e-5, "head-on beams from kinetic energies");
  VC_EQT(s_from_Etot(Ea, mb, ma, mb), s_from_Etot(Ea, ma, mb), 1e-5, "a beam at rest is a fixed target");
}
VC_PROOF(velocities) {
  double ma = mass("ma"), mb = mass("mb"), w = vc_double("sqrts", 0.1, 200.);
  VC_ASSUME(w > ma + mb);
  if (!vc_symbolic()) VC_ASSUME(w > ma + mb + 1e-3);
  double s = w * w;
  double v = center_of_velocity_v(s, ma, mb);
  VC_ASSERT(v >= 0 && v < 1, "velocity below the speed of light");
  // both particles fly against each other with v: s = (gma+gmb)^2 - (gva-gvb)^2
  double g2 = 1 / (1 - v * v);
  VC_EQT(g2 * ((ma + mb) * (ma + mb) - v * v * (ma - mb) * (ma - mb)), s, 1e-5, "equal and opposite velocities give s");
  double u = fixed_target_projectile_v(s, ma, mb);
  VC_ASSERT(u >= 0 && u < 1, "projectile velocity below the speed of light");
  double E = (s - ma * ma - mb * mb) / (2 * mb);
  VC_EQT(u * u * E * E, E * E - ma * ma, 1e-5, "projectile velocity on a fixed target");
}
VC_PROOF(momentum_transfer) {
  double m1 = mass("m1"), m2 = mass("m2"), m3 = mass("m3"), m4 = mass("m4"), w = vc_double("sqrts", 0.1, 300.);
  VC_ASSUME(w > m1 + m2 && w > m3 + m4);
  if (!vc_symbolic()) VC_ASSUME(w > m1 + m2 + 1e-3 && w > m3 + m4 + 1e-3);
  auto t = get_t_range(w, m1, m2, m3, m4);
  double pi = pCM(w, m1, m2), pf = pCM(w, m3, m4);
  double E1 = (w * w + m1 * m1 - m2 * m2) / (2 * w), E3 = (w * w + m3 * m3 - m4 * m4) / (2 * w);
  double fwd = (E1 - E3) * (E1 - E3) - (pi - pf) * (pi - pf);
  double bwd = (E1 - E3) * (E1 - E3) - (pi + pf) * (pi + pf);
  VC_EQT(t[0], fwd, 1e-5, "forward scattering");
  VC_EQT(t[1], bwd, 1e-5, "backward scattering");
  VC_LE(t[1], t[0], "ordered range");
}
