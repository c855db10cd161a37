// P20: slope of the elastic angular distribution, given the contract of the draw and of rotations (P05)
//@sources @types_support.cc scatteraction.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc crosssections.cc parametrizations.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include "types.h"
#include "smash/angles.h"
#include "smash/kinematics.h"
#include "smash/random.h"
#include "smash/scatteraction.h"
static double slope;
static double s_lab;
static bool drawn;
#ifndef VC_NATIVE
extern "C" double vcstub__ZN5smash6random4expoIdEET_S2_S2_S2_(double A, double a, double b) {
  slope = A;
  drawn = true;
  const double t = vc_sym_double("t");
  VC_ASSUME((a <= t && t <= b) || (b <= t && t <= a));
  return t;
}
extern "C" void vcstub__ZN5smash11ThreeVector16rotate_z_axis_toERS0_(ThreeVector *v, ThreeVector &) {
  const double x = vc_sym_double("rx"), y = vc_sym_double("ry"), z = vc_sym_double("rz");
  VC_ASSUME(x * x + y * y + z * z == v->sqr());
  *v = ThreeVector(x, y, z);
}
// contract of plab_from_s(s): a non-negative momentum (P06 proves its value)
extern "C" double vcstub__ZN5smash11plab_from_sEd(double s) {
  s_lab = s;
  return 1.2;
}
// contract of pCM_from_s (P06): the momentum of the pair in its centre-of-mass frame
extern "C" double vcstub__ZN5smash10pCM_from_sIdEET_S1_S1_S1_(double s, double ma, double mb) {
  const double p = vc_sym_double("pcm");
  VC_ASSUME(p >= 0 && 4 * s * p * p == (s - (ma + mb) * (ma + mb)) * (s - (ma - mb) * (ma - mb)));
  return p;
}
#endif
// the slope is that of nucleons with the same momentum in the centre of mass
VC_PROOF(elastic_slope) {
  VC_CONFIG("merge=0");
  install_types();
  const double p = vc_double("p", 0.01, 0.6);
  ParticleData x(vc_type(T_PIP)), y(vc_type(T_PIZ));
  x.set_4momentum(x.pole_mass(), 0, p, 0);
  y.set_4momentum(y.pole_mass(), 0, -p, 0);
  ScatterAction a(x, y, 1.);
  a.process_type_ = ProcessType::Elastic;
  a.outgoing_particles_ = {x, y};
  const double w = x.momentum().x0() + y.momentum().x0(), m = nucleon_mass;
#ifdef VC_NATIVE
  const double plab_sqr = 4 * p * p * (p * p + m * m) / (m * m);
#else
  const double plab_sqr = 1.2 * 1.2;
#endif
  const double q = plab_sqr * plab_sqr * plab_sqr * plab_sqr;
  VC_ASSUME(plab_sqr < 3.9);
  const double expected = std::max(5.5 * q / (7.7 + q), really_small);
#ifdef VC_NATIVE
  const auto engine = random::engine;
#endif
  a.sample_angles({x.pole_mass(), y.pole_mass()}, w);
#ifndef VC_NATIVE
  VC_ASSERT(drawn, "the momentum transfer is drawn");
  VC_EQT(s_lab, 4 * (p * p + m * m), 1e-6, "lab momentum of nucleons with the momentum of the pair");
  VC_EQT(slope, expected, 1e-6, "slope for this lab momentum");
#else
  random::engine = engine;
  double t = random::expo(expected, 0., -4 * p * p);
  if (random::canonical() > 0.5) t = -4 * p * p - t;
  VC_EQT(a.outgoing_particles()[0].momentum().x2() / p, 1 + t / (2 * p * p), 1e-4, "slope for this lab momentum");
#endif
}
