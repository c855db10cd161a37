// P16: which particles decay, when, and into what
//@sources @types_support.cc decayactionsfinder.cc decayaction.cc action.cc decaymodes.cc decaytype.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc potentials.cc
//@native random.cc logging.cc isoparticletype.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc density.cc sha256.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "draws.h"
#include "smash/constants.h"
#include "smash/decayaction.h"
#include "smash/decayactionsfinder.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/potential_globals.h"
#include "smash/potentials.h"
// a decay mode with any width
struct ModeOf : DecayType {
  double scale;
  bool dilepton;
  mutable double m0 = 0, G0 = 0, m = 0;
  mutable int asked = 0;
  ModeOf(const ParticleType &a, const ParticleType &b, double s, bool d) : DecayType({&a, &b}, 1), scale(s), dilepton(d) {}
  unsigned particle_number() const override { return 2; }
  bool has_particles(ParticleTypePtrList l) const override {
    return l.size() == 2 && ((l[0] == particle_types_[0] && l[1] == particle_types_[1]) || (l[1] == particle_types_[0] && l[0] == particle_types_[1]));
  }
  double width(double m0_, double G0_, double m_) const override {
    asked++;
    m0 = m0_, G0 = G0_, m = m_;
    return scale * G0_;
  }
  double in_width(double m0_, double G0_, double m_, double m1, double m2) const override {
    asked++;
    m0 = m0_, G0 = G0_, m = m_;
    return scale * G0_ * (1 + m1 + 2 * m2);
  }
  bool is_dilepton_decay() const override { return dilepton; }
};
// a resonance with two hadronic decay modes and a dileptonic one
struct Modes {
  std::vector<DecayModes> all;
  std::vector<std::unique_ptr<ModeOf>> modes;
  double ratio[3], scale[3], mass, width, m[3];
  ParticleType *mother;
  void add(int i, int a, int b, bool dilepton) {
    modes.push_back(std::make_unique<ModeOf>(vc_type(a), vc_type(b), scale[i], dilepton));
    all[index(T_DELTA)].add_mode(std::make_unique<DecayBranch>(*modes.back(), ratio[i]));
  }
  static int index(int t) { return std::addressof(vc_type(t)) - std::addressof((*vc_types)[0]); }
  Modes() {
    install_types();
    mother = const_cast<ParticleType *>(std::addressof(vc_type(T_DELTA)));
    mass = vc_double("mass", 0.5, 3);
    width = vc_double("width", 0.01, 1);
    mother->mass_ = mass;
    mother->width_ = width;
    static const char *const R[] = {"r0", "r1", "r2"}, *const S[] = {"s0", "s1", "s2"}, *const MM[] = {"m0", "m1", "m2"};
    static const int light[] = {T_PIP, T_PIM, T_PIZ};
    for (int i = 0; i < 3; i++) {
      ratio[i] = vc_double(R[i], 0, 1);
      scale[i] = vc_double(S[i], 0, 3);
      m[i] = vc_double(MM[i], 0.1, 1);
      const_cast<ParticleType &>(vc_type(light[i])).mass_ = m[i];
      const_cast<ParticleType &>(vc_type(light[i])).min_mass_kinematic_ = m[i];
    }
    all.resize(T_COUNT);
    DecayModes::all_decay_modes = &all;
    add(0, T_P, T_PIP, false);
    add(1, T_N, T_PIM, true);
    add(2, T_LAMBDA, T_PIZ, false);
    // something light nuclei of the table could do, too
    add_stable();
  }
  void add_stable() {
    modes.push_back(std::make_unique<ModeOf>(vc_type(T_PHOTON), vc_type(T_PHOTON), 1., false));
    all[index(T_LAMBDA)].add_mode(std::make_unique<DecayBranch>(*modes.back(), 1.));
  }
  ~Modes() { DecayModes::all_decay_modes = nullptr; }
  double threshold(int i) const {
    static const double heavy[] = {0.938, 0.938, 1.116};
    return heavy[i] + m[i];
  }
  double partial(int i, double sqrts) const { return sqrts < threshold(i) ? 0 : ratio[i] * width * scale[i]; }
  void clear_of_thresholds(double sqrts) const {
    if (!vc_symbolic())
      for (int i = 0; i < 3; i++) VC_ASSUME(std::abs(sqrts - threshold(i)) > 1e-7);
  }
};
VC_PROOF(partial_widths) {
  Modes M;
  const double w = vc_double("w", 0.5, 5);
  M.clear_of_thresholds(w);
  const DecayBranchList &l = M.mother->decay_modes().decay_mode_list();
  VC_ASSERT(l.size() == 3u, "decay modes of the particle");
  double total = 0;
  for (int i = 0; i < 3; i++) {
    VC_EQ(M.mother->partial_width(w, l[i].get()), M.partial(i, w), "branching ratio times the mass dependent width, none below threshold");
    if (M.modes[i]->asked) VC_ASSERT(M.modes[i]->m0 == M.mass && M.modes[i]->m == w, "at the mass of the particle");
    total += M.partial(i, w);
  }
  if (!vc_symbolic()) VC_ASSUME(std::abs(total - 1e-5) > 1e-9);
  VC_EQ(M.mother->total_width(w), total < ParticleType::width_cutoff ? 0 : total, "the total width is the sum of the partial widths");
  VC_ASSERT(vc_type(T_PIP).total_width(w) == 0, "stable particles have no width");
  VC_EQ(M.mother->get_partial_width(w, {&vc_type(T_PIM), &vc_type(T_N)}), M.ratio[1] * M.width * M.scale[1], "width of a channel, products in any order");
  VC_EQ(M.mother->get_partial_width(w, {&vc_type(T_PIM), &vc_type(T_P)}), 0, "and none of absent channels");
  ParticleData a(vc_type(T_P)), b(vc_type(T_PIP));
  a.set_4momentum(1.5, 1, 2, 3);
  b.set_4momentum(0.5, 1, 2, 3);
  VC_EQT(M.mother->get_partial_in_width(w, a, b), M.ratio[0] * M.width * M.scale[0] * 3.5, 1e-6, "width of formation from particles of given masses");
}
VC_PROOF(lowest_mass) {
  Modes M;
  double low = M.mass;
  for (int i = 0; i < 3; i++)
    if (M.threshold(i) < low) low = M.threshold(i);
  VC_EQ(M.mother->min_mass_kinematic(), low, "the lowest threshold of its decays, or the pole mass");
  VC_ASSERT(vc_type(T_RHO).is_stable() == (0.149 < 1e-5), "unstable");
  VC_ASSERT(vc_type(T_P).min_mass_kinematic() == vc_type(T_P).mass(), "stable particles have one mass");
}
// potentials shift the energy available to the decay
VC_PROOF(open_channels) {
  Modes M;
  const double E = vc_double("E", 0.5, 5), x = vc_double("px", -1, 1), y = vc_double("py", -1, 1), z = vc_double("pz", -1, 1);
  VC_ASSUME(E * E > x * x + y * y + z * z + 0.01);
  const int wh = vc_choose("which", 3);
  const double w = std::sqrt(E * E - x * x - y * y - z * z);
  M.clear_of_thresholds(w);
  DecayBranchList l = M.mother->get_partial_widths(FourVector(E, x, y, z), ThreeVector(1, 2, 3),
                                                   wh == 0 ? WhichDecaymodes::All : wh == 1 ? WhichDecaymodes::Hadronic : WhichDecaymodes::Dileptons);
  size_t k = 0;
  for (int i = 0; i < 3; i++) {
    if ((wh == 1 && i == 1) || (wh == 2 && i != 1)) continue;
    const double p = M.partial(i, w);
    if (p > 0) {
      VC_ASSERT(k < l.size(), "every open channel is offered");
      VC_ASSERT(&l[k]->type() == M.modes[i].get(), "of the kind wanted");
      VC_EQ(l[k]->weight(), p, "with its partial width");
      k++;
    }
  }
  VC_ASSERT(l.size() == k, "and no other");
}
static void in_potentials(int kind) {
  VC_CONFIG("merge=0");
  Modes M;
  alignas(Potentials) static char pots[sizeof(Potentials)];
  pot_pointer = reinterpret_cast<Potentials *>(pots);
  RectangularLattice<FourVector> UB({10., 10., 10.}, {1, 1, 1}, {0., 0., 0.}, false, LatticeUpdate::EveryTimestep), UI(UB);
  UB[0] = FourVector(vc_double("ub0", -0.1, 0.1), vc_double("ub1", -0.1, 0.1), 0, 0);
  UI[0] = FourVector(vc_double("ui0", -0.1, 0.1), 0, vc_double("ui2", -0.1, 0.1), 0);
  UB_lat_pointer = &UB;
  UI3_lat_pointer = &UI;
  const double E = vc_double("E", 1.5, 5), x = vc_double("px", -0.5, 0.5);
  // Delta++ -> p pi+, n pi-, Lambda pi0: the change of the potential energy
  const bool inside = kind == 0;
  DecayBranchList l = M.mother->get_partial_widths(FourVector(E, x, 0, 0), inside ? ThreeVector(1, 2, 3) : ThreeVector(11, 2, 3), WhichDecaymodes::All);
  const double I3[] = {1., -1., 0}, B[] = {1, 1, 2. / 3};
  for (int i = 0; i < 3; i++) {
    if (!M.modes[i]->asked) continue;
    FourVector p(E, x, 0, 0);
    if (inside) p = p + UB[0] * (1 - B[i]) + UI[0] * (M.mother->isospin3_rel() - I3[i] * (i == 2 ? 0 : 1) * vc_type(i == 0 ? T_P : T_N).isospin3_rel() * I3[i]);
    const double d = M.modes[i]->m * M.modes[i]->m - p.sqr();
    VC_ASSERT(d < 1e-9 && d > -1e-9, "decays happen at the energy left by the potentials");
  }
  pot_pointer = nullptr;
  UB_lat_pointer = nullptr;
  UI3_lat_pointer = nullptr;
}
VC_PROOF(potentials_inside) { in_potentials(0); }
VC_PROOF(potentials_outside) { in_potentials(1); }
// decays within a time step
static double drawn, rate;
#ifndef VC_NATIVE
extern "C" double vcstub__ZN5smash6random11exponentialIdEET_S2_(double lambda) {
  VC_ASSERT(lambda <= rate * (1 + 1e-12) && rate <= lambda * (1 + 1e-12), "decay rate: width over the Lorentz factor");   // (1/hbarc is a rounded constant)
  return drawn;
}
#endif
static void decays(int kind) {
  VC_CONFIG("merge=0");
  Modes M;
  alignas(DecayActionsFinder) static char mem[sizeof(DecayActionsFinder)];
  DecayActionsFinder &f = *reinterpret_cast<DecayActionsFinder *>(mem);
  const double factor = vc_double("factor", 0.1, 10);
  const_cast<double &>(f.res_lifetime_factor_) = factor;
  const bool initial = vc_bool("decay_initial");
  const_cast<bool &>(f.decay_initial_particles_) = initial;
  f.spin_interaction_type_ = SpinInteractionType::Off;
  const double t = vc_double("t", 0, 50), dt = vc_double("dt", 0.01, 5), E = vc_double("E", 1., 5), pz = vc_double("pz", -3, 3);
  VC_ASSUME(E * E > pz * pz + 0.25);
  const double w = std::sqrt(E * E - pz * pz);
  M.clear_of_thresholds(w);
  const int collisions = vc_choose("collisions", 2);
  ParticleData d(vc_type(kind == 1 ? T_LAMBDA : T_DELTA)), other(vc_type(T_PIP));
  d.set_4momentum(FourVector(E, 0, 0, pz));
  d.set_4position(FourVector(t, 1, 2, 3));
  d.set_history(collisions, 1, ProcessType::TwoToTwo, 0., {other, other});
  double formed = t;
  if (kind == 2) {
    formed = vc_double("formed", 0, 60);
    if (!vc_symbolic()) VC_ASSUME(std::abs(formed - t) > 1e-6);
    d.set_formation_time(formed);
    d.set_cross_section_scaling_factor(0.5);
  }
  const double width = M.partial(0, w) + M.partial(2, w);
  rate = width * (w / E) / hbarc;
  if (vc_symbolic()) {
    drawn = vc_double("drawn", 0, 1e9);
  } else if (rate > 0) {
    auto saved = random::engine;
    drawn = random::exponential(rate);
    random::engine = saved;
  }
  ParticleList search{other, d, other};
  ActionList acts = f.DecayActionsFinder::find_actions_in_cell(search, dt, 0., {});
  if (kind == 1 || (!initial && collisions == 0) || !(width > 0)) {
    VC_ASSERT(acts.size() == 0u, "no decays of stable or initial particles, nor below threshold");
    return;
  }
  const double when = factor * drawn + (formed > t ? formed - t : 0);
  if (!vc_symbolic()) VC_ASSUME(std::abs(when - dt) > 1e-6);
  VC_ASSERT(acts.size() == (when < dt ? 1u : 0u), "unstable particles decay if their life ends within the time step");
  if (when < dt) {
    const DecayAction &a = static_cast<const DecayAction &>(*acts[0]);
    VC_EQ(a.time_of_execution(), t + when, "at that time");
    VC_EQ(a.get_total_weight(), width, "with the total hadronic width");
    VC_ASSERT(a.incoming_particles().size() == 1u && a.incoming_particles()[0].pdgcode() == vc_type(T_DELTA).pdgcode(), "the particle itself");
    size_t n = (M.partial(0, w) > 0) + (M.partial(2, w) > 0);
    VC_ASSERT(a.decay_channels_.size() == n, "into all open hadronic channels");
    if (kind == 0 && factor > 0) VC_ASSERT(a.time_of_execution() >= t, "no particle decays in the past");
  }
}
VC_PROOF(decays_formed) { decays(0); }
VC_PROOF(decays_stable) { decays(1); }
VC_PROOF(decays_unformed) { decays(2); }
VC_PROOF(final_decays) {
  VC_CONFIG("merge=0");
  Modes M;
  alignas(DecayActionsFinder) static char mem[sizeof(DecayActionsFinder)];
  DecayActionsFinder &f = *reinterpret_cast<DecayActionsFinder *>(mem);
  const bool wanted = vc_bool("wanted"), weak = vc_bool("weak");
  const_cast<bool &>(f.find_final_decays_) = wanted;
  const_cast<bool &>(f.do_final_non_strong_decays_) = weak;
  f.spin_interaction_type_ = SpinInteractionType::Off;
  const double t = vc_double("t", 0, 50), m = vc_double("m", 0.8, 5);
  M.clear_of_thresholds(m);
  Particles P;
  ParticleData d(vc_type(T_DELTA)), l(vc_type(T_LAMBDA)), pi(vc_type(T_PIP));
  d.set_4momentum(m, 0., 0., 0.);
  l.set_4momentum(1.116, 0., 0., 1.);
  pi.set_4momentum(0.138, 0., 0., 1.);
  d.set_4position(FourVector(t, 1, 2, 3));
  l.set_4position(FourVector(t, 1, 2, 3));
  pi.set_4position(FourVector(t, 1, 2, 3));
  P.insert(pi);
  P.insert(d);
  P.insert(l);
  ActionList acts = f.DecayActionsFinder::find_final_actions(P);
  VC_ASSERT(acts.size() == (wanted ? weak ? 2u : 1u : 0u), "all resonances decay in the end, stable hadrons if wanted");
  if (wanted) {
    const DecayAction &a = static_cast<const DecayAction &>(*acts[0]);
    VC_ASSERT(a.incoming_particles()[0].pdgcode() == d.pdgcode() && a.time_of_execution() == t, "at once");
    VC_EQ(a.get_total_weight(), M.partial(0, m) + M.partial(1, m) + M.partial(2, m), "into any channel");
    if (weak) VC_ASSERT(acts[1]->incoming_particles()[0].pdgcode() == l.pdgcode(), "weak decays");
  }
}
