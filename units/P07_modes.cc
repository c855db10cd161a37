// P07: decays into resonances and into three particles, given the contracts of the mass, angular and phase space sampling
//@sources @types_support.cc action.cc decayaction.cc decaytype.cc processbranch.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc threevector.cc
//@native random.cc logging.cc
#include "types.h"
#include "smash/action.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/potential_globals.h"

#ifndef VC_NATIVE
static FourVector on_shell(double m, const char *x, const char *y, const char *z) {
  double E = vc_sym_double("E"), a = vc_sym_double(x), b = vc_sym_double(y), c = vc_sym_double(z);
  VC_ASSUME(E > 0 && E * E - (a * a + b * b + c * c) == m * m);
  return FourVector(E, a, b, c);
}
// ghost: what the samplers were asked for, and what they gave
static int asked;
static double given_a, given_b;
static double share(const ParticleType &t, double limit) {
  double m = vc_sym_double("mass");
  VC_ASSUME(m >= t.min_mass_kinematic() && m <= limit);
  return m;
}
extern "C" double vcstub__ZNK5smash12ParticleType21sample_resonance_massEddi(const ParticleType *t, double m_stable, double w, int L) {
  VC_ASSERT(w >= m_stable + t->min_mass_kinematic(), "masses are sampled above threshold only");
  asked++;
  VC_ASSERT(L == 1, "with the angular momentum of the mode");
  return given_a = share(*t, w - m_stable);
}
struct Pair {
  double a, b;
};
extern "C" Pair vcstub__ZNK5smash12ParticleType23sample_resonance_massesERKS0_di(const ParticleType *t, const ParticleType *u, double w, int L) {
  VC_ASSERT(w >= t->min_mass_kinematic() + u->min_mass_kinematic(), "masses are sampled above threshold only");
  asked++;
  VC_ASSERT(L == 1, "with the angular momentum of the mode");
  given_a = share(*t, w - u->min_mass_kinematic());
  given_b = share(*u, w - given_a);
  return {given_a, given_b};
}
static FourVector rest[3];
static double angles_ma, angles_mb, angles_w;
extern "C" void vcstub__ZN5smash6Action13sample_anglesESt4pairIddEd(Action *, double ma, double mb, double w) {
  angles_ma = ma;
  angles_mb = mb;
  angles_w = w;
}
extern "C" void vcstub__ZN5smash6Action31sample_manybody_phasespace_implEdRKSt6vectorIdSaIdEERS1_INS_10FourVectorESaIS6_EE(
    double w, const std::vector<double> &m, std::vector<FourVector> &p) {
  VC_ASSERT(m.size() == 3 && p.size() == 3 && w > m[0] + m[1] + m[2], "three masses below the available energy");
  p[0] = rest[0] = on_shell(m[0], "ax", "ay", "az");
  p[1] = rest[1] = on_shell(m[1], "bx", "by", "bz");
  p[2] = FourVector(w - p[0][0] - p[1][0], -p[0][1] - p[1][1], -p[0][2] - p[1][2], -p[0][3] - p[1][3]);
  rest[2] = p[2];
  VC_ASSUME(p[2].x0() > 0 && p[2].sqr() == m[2] * m[2]);
}
static ParticleType &prepare(int t, bool stable, const char *m, const char *lowest) {
  ParticleType &type = const_cast<ParticleType &>(vc_type(t));
  type.mass_ = vc_double(m, 0.1, 5);
  type.width_ = stable ? 0 : 0.1;
  type.min_mass_kinematic_ = stable ? type.mass_ : vc_double(lowest, 0.1, 5);
  VC_ASSUME(type.min_mass_kinematic_ <= type.mass_);
  return type;
}
// products that may be resonances
VC_PROOF(masses_of_products) {
  install_types();
  bool sa = vc_bool("sa"), sb = vc_bool("sb");
  const ParticleType &pa = prepare(T_P, sa, "ma", "la"), &pb = prepare(T_RHO, sb, "mb", "lb");
  double M = vc_double("M", 0.1, 20);
  ParticleData parent(vc_type(T_DELTA));
  parent.set_4momentum(M, 0., 0., 0.);
  parent.set_4position(FourVector(1, 2, 3, 4));
  DecayAction act(parent, 0.5, SpinInteractionType::Off);
  std::unique_ptr<DecayType> mode;
  const ParticleTypePtrList products{&pa, &pb};
  if (sa && sb)
    mode = std::make_unique<TwoBodyDecayStable>(products, 1);
  else if (sa || sb)
    mode = std::make_unique<TwoBodyDecaySemistable>(products, 1);
  else
    mode = std::make_unique<TwoBodyDecayUnstable>(products, 1);
  act.add_decay(std::make_unique<DecayBranch>(*mode, 0.1));
  asked = 0;
  bool refused = false, sampled = false;
  try {
    sampled = act.sample_outgoing_particles();
  } catch (const Action::InvalidResonanceFormation &) {
    refused = true;
  }
  const ParticleType &a = act.outgoing_particles()[0].type(), &b = act.outgoing_particles()[1].type();
  VC_ASSERT((a == pa && b == pb) || (a == pb && b == pa), "the products are those of the mode");
  VC_ASSERT(refused == (M < a.min_mass_kinematic() + b.min_mass_kinematic()), "refused exactly below threshold");
  VC_ASSERT(refused || sampled, "else a final state is found");
  if (refused) return;
  VC_ASSERT(asked == (sa && sb ? 0 : 1), "resonance masses are sampled once");
  VC_ASSERT(angles_w == M, "the angles are sampled for the mass of the parent");
  VC_ASSERT(angles_ma == (a.is_stable() ? a.mass() : given_a), "a stable product has its mass, a resonance the sampled one");
  VC_ASSERT(angles_mb == (b.is_stable() ? b.mass() : a.is_stable() ? given_a : given_b), "a stable product has its mass, a resonance the sampled one");
  if (!(sa && sb)) VC_ASSERT(angles_ma + angles_mb <= M, "the masses fit into the available energy");
  VC_ASSERT(angles_ma >= a.min_mass_kinematic() && angles_mb >= b.min_mass_kinematic(), "no mass below its minimum");
}
#endif
VC_PROOF(decay_in_three) {
  install_types();
  static const char *const nm[] = {"m1", "m2", "m3"};
  static const int ts[] = {T_P, T_PIP, T_PIM};
  double m[3], sum = 0;
  for (int i = 0; i < 3; i++) {
    ParticleType &t = const_cast<ParticleType &>(vc_type(ts[i]));
    m[i] = t.mass_ = vc_double(nm[i], 0.1, 5);
    sum += m[i];
  }
  double M = vc_double("M", 0.2, 20);
  VC_ASSUME(M > sum);
  if (!vc_symbolic()) VC_ASSUME(M > sum + 1e-2);
  ParticleData parent(vc_type(T_DELTA));
  parent.set_4momentum(M, ThreeVector(vc_double("px", -50, 50), vc_double("py", -50, 50), vc_double("pz", -50, 50)));
  parent.set_4position(FourVector(vc_double("t", 0, 100), vc_double("x", -9, 9), vc_double("y", -9, 9), vc_double("z", -9, 9)));
  const FourVector P = parent.momentum();
  if (vc_bool("core")) parent.fluidize();
  DecayAction act(parent, vc_double("wait", 0, 10), SpinInteractionType::Off);
  ThreeBodyDecay type({&vc_type(ts[0]), &vc_type(ts[1]), &vc_type(ts[2])}, 0);
  act.add_decay(std::make_unique<DecayBranch>(type, 0.1));
  act.generate_final_state();
  const ParticleList &out = act.outgoing_particles();
  VC_ASSERT(out.size() == 3, "three products");
  FourVector total;
  double g = std::sqrt(1 - P.velocity().sqr());
  VC_LEMMA_EQT(act.sqrt_s(), M, 1e-6, "available energy");
  VC_LEMMA_EQT(g, M / P.x0(), 1e-6, "time dilation");
  for (int k = 0; k < 3; k++) {
    int species = 0;
    for (int i = 0; i < 3; i++)
      if (out[k].type() == vc_type(ts[i])) {
        species++;
#ifndef VC_NATIVE
        VC_LEMMA_EQ(out[k].momentum().sqr(), rest[k].sqr(), "the boost leaves the mass");
        VC_LEMMA_EQ(rest[k].sqr(), m[i] * m[i], "the mass in the rest frame");
#endif
        VC_EQT(out[k].momentum().sqr(), m[i] * m[i], 1e-4, "on their mass shells");
      }
    VC_ASSERT(species == 1, "of the species of the mode");
    VC_ASSERT(out[k].is_core() == parent.is_core(), "products of a fluidized particle are fluidized");
    VC_EQ(out[k].formation_time(), act.time_of_execution(), "formed at the decay");
    for (int i = 0; i < 4; i++) VC_EQ(out[k].position()[i], parent.position()[i], "at the place of the parent");
    total += out[k].momentum();
  }
  const FourVector all = FourVector(act.sqrt_s(), 0, 0, 0).lorentz_boost(-P.velocity());
  for (int i = 0; i < 4; i++) VC_LEMMA_EQT(total[i], all[i], 1e-6, "the products move like the parent");
  for (int i = 0; i < 4; i++) VC_EQT(all[i], P[i], 1e-6, "energy and momentum are conserved");
}
