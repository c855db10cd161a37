// P20: channels of a scattering, given any cross sections
//@sources @types_support.cc @rbtree.cc scatteraction.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "smash/crosssections.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinderparameters.h"
// any cross sections (in mb)
static double x_elastic, x_inelastic, x_high, x_string_probability, x_param;
static double string_xs;
static int asked, asked_strings;
namespace smash {
CrossSections::CrossSections(const ParticleList &in, double sqrts, const std::pair<FourVector, FourVector> potentials)
    : incoming_particles_(in), sqrt_s_(sqrts), potentials_(potentials), is_BBbar_pair_(false), is_NNbar_pair_(false) {}
CollisionBranchList CrossSections::generate_collision_list(const ScatterActionsFinderParameters &, StringProcess *) const {
  asked++;
  CollisionBranchList l;
  l.push_back(std::make_unique<CollisionBranch>(incoming_particles_[0].type(), incoming_particles_[1].type(), x_elastic, ProcessType::Elastic));
  l.push_back(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), x_inelastic, ProcessType::TwoToTwo));
  return l;
}
double CrossSections::high_energy(const ScatterActionsFinderParameters &) const { return x_high; }
double CrossSections::string_probability(const ScatterActionsFinderParameters &) const { return x_string_probability; }
double CrossSections::parametrized_total(const ScatterActionsFinderParameters &) const { return x_param; }
CollisionBranchList CrossSections::string_excitation(double xs, StringProcess *, const ScatterActionsFinderParameters &) const {
  asked_strings++;
  string_xs = xs;
  CollisionBranchList l;
  l.push_back(std::make_unique<CollisionBranch>(xs, ProcessType::StringSoftNonDiffractive));
  return l;
}
}  // namespace smash
// resonances the pair may form
static int n_resonances;
#ifndef VC_NATIVE
extern "C" void vcstub__ZN5smash24list_possible_resonancesENS_15ParticleTypePtrES0_(ParticleTypePtrList *l, ParticleTypePtr, ParticleTypePtr) {
  new (l) ParticleTypePtrList();
  if (n_resonances > 0) l->push_back(&vc_type(T_RHO));
  if (n_resonances > 1) l->push_back(&vc_type(T_DELTA));
}
#else
namespace smash {
ParticleTypePtrList list_possible_resonances(const ParticleTypePtr, const ParticleTypePtr) {
  ParticleTypePtrList l;
  if (n_resonances > 0) l.push_back(&vc_type(T_RHO));
  if (n_resonances > 1) l.push_back(&vc_type(T_DELTA));
  return l;
}
}  // namespace smash
#endif
struct Parameters {
  alignas(ScatterActionsFinderParameters) char mem[sizeof(ScatterActionsFinderParameters)];
  ScatterActionsFinderParameters &operator*() { return *reinterpret_cast<ScatterActionsFinderParameters *>(mem); }
  ScatterActionsFinderParameters *operator->() { return reinterpret_cast<ScatterActionsFinderParameters *>(mem); }
  template <typename T, typename U>
  static void set(const T &x, U v) { const_cast<T &>(x) = v; }
  Parameters(bool with_probability, PseudoResonance m) {
    for (char &x : mem) x = 0;
    ScatterActionsFinderParameters &p = **this;
    set(p.strings_with_probability, with_probability);
    set(p.two_to_one, true);
    set(p.pseudoresonance_method, m);
    const StringTransitionParameters &t = p.transition_high_energy;
    set(t.sqrts_range_Npi.first, 1.9);
    set(t.sqrts_range_NN.first, 3.5);
    set(t.sqrts_add_lower, 0.9);
    set(t.pipi_offset, 1.12);
    set(t.KN_offset, 15.15);
  }
};
static ParticleData with_energy(int t, double e, double p) {
  ParticleData d(vc_type(t));
  d.set_4momentum(FourVector(e, 0, 0, p));
  d.set_formation_time(0.);
  return d;
}
static double weight(const ScatterAction &s, ProcessType t) {
  double sum = 0;
  for (const auto &c : s.collision_channels_)
    if (c->get_type() == t) sum += c->weight();
  return sum;
}
static void any_cross_sections() {
  install_types();
  x_elastic = vc_double("elastic", 0, 50);
  x_inelastic = vc_double("inelastic", 0, 50);
  x_high = vc_double("high", 0, 200);
  x_string_probability = vc_double("probability", 0, 1);
  x_param = vc_double("param", 0.1, 200);
  asked = asked_strings = 0;
  n_resonances = 0;
}
VC_PROOF(all_channels) {
  any_cross_sections();
  const bool with_probability = vc_choose("wp", 2);
  Parameters p(with_probability, PseudoResonance::None);
  ScatterAction s(with_energy(T_P, 3, 1), with_energy(T_PIM, 2, -1), 0.);
  if (!vc_symbolic()) VC_ASSUME(x_elastic > 0.1 && x_inelastic > 0.1 && std::abs(x_high - x_elastic - x_inelastic) > 1e-3);
  s.add_all_scatterings(*p);
  VC_ASSERT(asked == 1, "channels are asked for once");
  if (x_elastic > 0) VC_ASSERT(weight(s, ProcessType::Elastic) == x_elastic, "elastic channel");
  if (x_inelastic > 0) VC_ASSERT(weight(s, ProcessType::TwoToTwo) == x_inelastic, "inelastic channel");
  const bool strings = !with_probability && x_string_probability > 0 && x_high > x_elastic + x_inelastic;
  VC_ASSERT(asked_strings == (strings ? 1 : 0), "strings fill the gap if not drawn by probability");
  if (strings) VC_EQ(string_xs, x_high - x_elastic - x_inelastic, "up to the parametrised cross section");
  if (strings) VC_EQ(s.cross_section(), x_high, "so that the total is the parametrised one");
  else VC_EQ(s.cross_section(), x_elastic + x_inelastic, "sum of the channels");
  VC_THROWS(s.add_all_scatterings(*p), std::logic_error, "channels are added once");
  VC_ASSERT(asked == 1, "and only once");
}
VC_PROOF(parametrised_total) {
  any_cross_sections();
  Parameters p(true, PseudoResonance::None);
  ScatterAction s(with_energy(T_P, 3, 1), with_energy(T_PIM, 2, -1), 0., false, 1., -1., true), plain(with_energy(T_P, 3, 1), with_energy(T_PIM, 2, -1), 0.);
  VC_THROWS(plain.set_parametrized_total_cross_section(*p), std::logic_error, "only where wanted");
  VC_ASSUME(x_elastic > 0.01 && x_inelastic > 0.01);
  s.set_parametrized_total_cross_section(*p);
  s.add_all_scatterings(*p);
  double sum = 0;
  for (const auto &c : s.collision_channels_) sum += c->weight();
  VC_EQT(sum, x_param, 1e-6, "channels add up to the parametrised total");
  VC_EQT(weight(s, ProcessType::Elastic) * (x_elastic + x_inelastic), x_elastic * x_param, 1e-6, "in proportion");
}
static const PseudoResonance methods[] = {PseudoResonance::None, PseudoResonance::Largest, PseudoResonance::Closest, PseudoResonance::LargestFromUnstable, PseudoResonance::ClosestFromUnstable};
VC_PROOF(pseudoresonance_fills_gap) {
  any_cross_sections();
  const int m = vc_choose("method", 5);
  n_resonances = vc_choose("n", 3);
  Parameters p(true, methods[m]);
  const bool wanted = vc_choose("wanted", 2);
  Parameters::set(p->two_to_one, wanted);
  const bool unstable = vc_choose("unstable", 2);
  const bool fast = vc_choose("fast", 2);
  const double k = fast ? 2.4 : 0.1;  // momentum in the centre of mass
  ParticleData a = with_energy(unstable ? T_RHO : T_PIP, 1, 0), b = with_energy(T_PIM, 1, 0);
  a.set_4momentum(a.pole_mass(), 0, 0, k);
  b.set_4momentum(b.pole_mass(), 0, 0, -k);
  ScatterAction s(a, b, 0.);
  s.add_all_scatterings(*p);
  const double sum = x_elastic + x_inelastic;
  const bool possible = wanted && m != 0 && (m < 3 || unstable) && n_resonances > 0 && fast;
  const bool gap = x_high - sum > really_small;
  const double w = weight(s, ProcessType::TwoToOne);
  if (possible && gap) {
    VC_EQ(w, x_high - sum, "fills the gap to the parametrised cross section");
    const ParticleTypePtr r = s.collision_channels_.back()->particle_types()[0];
    VC_ASSERT(*r == vc_type(n_resonances == 2 ? T_DELTA : T_RHO), "heaviest of, or closest to, the energy available");
  } else {
    VC_ASSERT(w == 0, "none otherwise");
  }
}
// the closest resonance need not be the heaviest
VC_PROOF(choice_of_resonance) {
  install_types();
  n_resonances = 2;
  const int m = vc_choose("method", 5);
  const int pair[][3] = {{T_P, T_PIM, 0}, {T_P, T_N, 1}, {T_PIP, T_PIM, 2}, {T_PIP, T_RHO, 3}};
  const int *k = pair[vc_choose("pair", 4)];
  const double sqrts = vc_double("sqrts", 0.2, 6);
  StringTransitionParameters t = Parameters(true, methods[m])->transition_high_energy;
  Parameters::set(t.pipi_offset, 0.6);
  Parameters::set(t.sqrts_add_lower, 0.1);
  Parameters::set(t.sqrts_range_NN.first, 1.95);
  Parameters::set(t.sqrts_range_Npi.first, 1.1);
  ScatterAction s(with_energy(k[0], sqrts / 2, 0), with_energy(k[1], sqrts / 2, 0), 0.);
  // threshold by kind of pair: Npi, NN, pipi, other
  const double mass = s.incoming_particles()[0].effective_mass() + s.incoming_particles()[1].effective_mass();
  const double threshold = mass + (k[2] == 0 ? 1.1 - pion_mass - nucleon_mass : k[2] == 1 ? 1.95 - 2 * nucleon_mass : k[2] == 2 ? 0.6 : 0.05);
  if (!vc_symbolic()) VC_ASSUME(std::abs(sqrts - threshold) > 1e-6 && std::abs(sqrts - 1.004) > 1e-3);
  const ParticleTypePtr r = s.try_find_pseudoresonance(methods[m], t);
  const bool from_stable = k[2] != 3;
  if (sqrts < threshold || m == 0 || (m > 2 && from_stable)) {
    VC_ASSERT(!r, "none below the transition to strings, or from stable particles if so wanted");
  } else {
    VC_ASSERT(!!r, "found");
    if (m == 1 || m == 3) VC_ASSERT(*r == vc_type(T_DELTA), "heaviest");
    else VC_ASSERT(*r == vc_type(std::abs(sqrts - 0.776) <= std::abs(sqrts - 1.232) ? T_RHO : T_DELTA), "closest in mass");
  }
}
