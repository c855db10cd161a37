// P07: decays, given the contract of the angular sampling (P07.cc)
//@sources @types_support.cc action.cc decayaction.cc decaytype.cc processbranch.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc threevector.cc
//@native random.cc logging.cc
#include "types.h"
#include "smash/action.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/potential_globals.h"

static ParticleData moving(int type, double m, const char *x, const char *y, const char *z) {
  ParticleData p(vc_type(type));
  p.set_4momentum(m, ThreeVector(vc_double(x, -50, 50), vc_double(y, -50, 50), vc_double(z, -50, 50)));
  return p;
}

// contract of sample_angles (proved above) for the callers below
#ifndef VC_NATIVE
struct Found {
  double w, ma, mb;
  bool called;
};
static Found found;
extern "C" void vcstub__ZN5smash6Action13sample_anglesESt4pairIddEd(Action *a, double ma, double mb, double w) {
  VC_ASSERT(w >= ma + mb, "angles are sampled only above threshold");
  double Ea = vc_sym_double("Ea"), x = vc_sym_double("kx"), y = vc_sym_double("ky"), z = vc_sym_double("kz");
  VC_ASSUME(Ea > 0 && Ea < w);
  VC_ASSUME(Ea * Ea - (x * x + y * y + z * z) == ma * ma);
  VC_ASSUME((w - Ea) * (w - Ea) - (x * x + y * y + z * z) == mb * mb);
  a->outgoing_particles_[0].set_4momentum(FourVector(Ea, x, y, z));
  a->outgoing_particles_[1].set_4momentum(FourVector(w - Ea, -x, -y, -z));
}
#endif
static void set_mass(int type, const char *n, double lo, double hi) {
  ParticleType &t = const_cast<ParticleType &>(vc_type(type));
  t.mass_ = vc_double(n, lo, hi);
}
VC_PROOF(decay_in_two) {
  install_types();
  set_mass(T_P, "m1", 0.1, 5);
  set_mass(T_PIP, "m2", 0.1, 5);
  double m1 = vc_type(T_P).mass(), m2 = vc_type(T_PIP).mass();
  double M = vc_double("M", 0.2, 10), t = vc_double("t", 0, 100);
  VC_ASSUME(M > m1 + m2);
  if (!vc_symbolic()) VC_ASSUME(M > m1 + m2 + 1e-2);
  ParticleData parent = moving(T_DELTA, M, "px", "py", "pz");
  parent.set_4position(FourVector(t, vc_double("x", -9, 9), vc_double("y", -9, 9), vc_double("z", -9, 9)));
  const FourVector P = parent.momentum();
  if (vc_bool("core")) parent.fluidize();
  DecayAction a(parent, vc_double("wait", 0, 10), SpinInteractionType::Off);
  TwoBodyDecayStable type({&vc_type(T_P), &vc_type(T_PIP)}, 1);
  a.add_decay(std::make_unique<DecayBranch>(type, vc_double("width", 1e-3, 1)));
  a.generate_final_state();
  const ParticleList &out = a.outgoing_particles();
  VC_ASSERT(out.size() == 2 && out[0].type() == vc_type(T_P) && out[1].type() == vc_type(T_PIP), "the products are those of the decay mode");
  FourVector sum = out[0].momentum() + out[1].momentum();
  double g = std::sqrt(1 - P.velocity().sqr());
  VC_LEMMA_EQT(a.sqrt_s(), M, 1e-6, "available energy");
  VC_LEMMA_EQT(g, M / P.x0(), 1e-6, "time dilation");
  for (int i = 0; i < 4; i++) VC_EQT(sum[i], P[i], 1e-6, "energy and momentum are conserved");
  VC_EQT(out[0].momentum().sqr(), m1 * m1, 1e-5, "the first product is on its mass shell");
  VC_EQT(out[1].momentum().sqr(), m2 * m2, 1e-5, "the second product is on its mass shell");
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i < 4; i++) VC_EQ(out[k].position()[i], parent.position()[i], "the products start where the parent was");
    VC_ASSERT(out[k].is_core() == parent.is_core(), "products of a fluidized particle are fluidized");
    VC_EQ(out[k].formation_time(), a.time_of_execution(), "the products are formed at the decay");
  }
}
