// P20: scattering angles
//@sources @types_support.cc scatteraction.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc crosssections.cc parametrizations.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include "types.h"
#include "smash/angles.h"
#include "smash/kinematics.h"
#include "smash/random.h"
#include "smash/scatteraction.h"
static double slope = -1;   // of the distribution of the momentum transfer
#ifndef VC_NATIVE
static double between(double a, double b) {
  const double t = vc_sym_double("t");
  VC_ASSUME((a <= t && t <= b) || (b <= t && t <= a));
  return t;
}
// contracts of the random distributions: between the limits
extern "C" double vcstub__ZN5smash6random4expoIdEET_S2_S2_S2_(double A, double a, double b) {
  VC_ASSERT(A > 0, "falls with the momentum transfer");
  slope = A;
  return between(a, b);
}
extern "C" double vcstub__ZN5smash6random5powerIdEET_S2_S2_S2_(double, double a, double b) { return between(a, b); }
// limits of the momentum transfer (P06)
struct Range {
  double a, b;
};
extern "C" Range vcstub__ZN5smash11get_t_rangeIdEESt5arrayIT_Lm2EES2_S2_S2_S2_S2_(double, double, double, double, double) {
  const double a = vc_sym_double("t_min"), b = vc_sym_double("t_max");
  VC_ASSUME(a > b);
  return {a, b};
}
// unit vectors (P05)
extern "C" ThreeVector vcstub__ZNK5smash6Angles8threevecEv(const Angles *) {
  double x = vc_sym_double("ux"), y = vc_sym_double("uy"), z = vc_sym_double("uz");
  VC_ASSUME(x * x + y * y + z * z == 1);
  return ThreeVector(x, y, z);
}
// rotations keep lengths (P05)
extern "C" void vcstub__ZN5smash11ThreeVector16rotate_z_axis_toERS0_(ThreeVector *v, ThreeVector &) {
  const double x = vc_sym_double("rx"), y = vc_sym_double("ry"), z = vc_sym_double("rz");
  VC_ASSUME(x * x + y * y + z * z == v->sqr());
  *v = ThreeVector(x, y, z);
}
#endif
// pairs of particles in their centre of mass frame with a given momentum
enum Pair { PP, PN, PBARP, PIPI, PBARPBAR };
static ScatterAction pair(Pair k, double p, bool isotropic) {
  const int t[][2] = {{T_P, T_P}, {T_P, T_N}, {T_PBAR, T_P}, {T_PIP, T_PIZ}, {T_PBAR, T_PBAR}};
  ParticleData a(vc_type(t[k][0])), b(vc_type(t[k][1]));
  a.set_4momentum(a.pole_mass(), 0, p, 0);
  b.set_4momentum(b.pole_mass(), 0, -p, 0);
  return ScatterAction(a, b, 1., isotropic);
}
static void angles(Pair k, ProcessType type, int c, int d, bool isotropic) {
  install_types();
  const double p = vc_symbolic() ? 0.75 : vc_double("p", 0.01, 5), ma = vc_double("ma", 0.1, 3), mb = vc_double("mb", 0.1, 3), w = vc_double("w", 0.3, 10);
  const ParticleData x(vc_type(T_PIP));
  ScatterAction a = pair(k, p, isotropic);
  a.process_type_ = type;
  a.outgoing_particles_ = {ParticleData(vc_type(c)), ParticleData(vc_type(d))};
  const double gap = vc_symbolic() ? 0 : 1e-3;
  VC_ASSUME(w > ma + mb + gap && w > a.incoming_particles()[0].pole_mass() + a.incoming_particles()[1].pole_mass() + gap);
  a.sample_angles({ma, mb}, w);
  const FourVector pa = a.outgoing_particles()[0].momentum(), pb = a.outgoing_particles()[1].momentum();
  for (int i = 1; i < 4; i++) VC_EQ(pa[i] + pb[i], 0, "momenta are back to back");
  VC_EQT(pa.sqr(), ma * ma, 1e-5, "first particle on its mass shell");
  VC_EQT(pb.sqr(), mb * mb, 1e-5, "second particle on its mass shell");
  const double Ea = (w * w + ma * ma - mb * mb) / (2 * w), Eb = (w * w + mb * mb - ma * ma) / (2 * w);
  VC_LEMMA(Ea > 0 && Eb > 0, "energies from the masses are positive");
  VC_LEMMA_EQT(pa.x0() * pa.x0(), Ea * Ea, 1e-6, "square of the first energy");
  VC_LEMMA_EQT(pb.x0() * pb.x0(), Eb * Eb, 1e-6, "square of the second energy");
  VC_EQT(pa.x0(), Ea, 1e-6, "first energy");
  VC_EQT(pb.x0(), Eb, 1e-6, "second energy");
}
VC_PROOF(elastic_pp) { angles(PP, ProcessType::Elastic, T_P, T_P, false); }
VC_PROOF(elastic_pn) { angles(PN, ProcessType::Elastic, T_P, T_N, false); }
VC_PROOF(elastic_pipi) { angles(PIPI, ProcessType::Elastic, T_PIP, T_PIZ, false); }
VC_PROOF(n_delta) { angles(PP, ProcessType::TwoToTwo, T_DELTA, T_N, false); }
VC_PROOF(isotropic) { angles(vc_bool("p") ? PP : PBARP, vc_bool("elastic") ? ProcessType::Elastic : ProcessType::TwoToTwo, T_PIP, T_PIM, true); }
VC_PROOF(inelastic) { angles(PBARP, ProcessType::TwoToTwo, T_PIP, T_PIM, false); }
