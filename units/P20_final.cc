// P20: final states of two-body scatterings
//@sources @types_support.cc @rbtree.cc scatteraction.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc crosssections.cc parametrizations.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "smash/scatteraction.h"
static double w, ma, mb;  // energy and masses of the products in the centre of mass
static bool sampled;
#ifndef VC_NATIVE
// contract of sample_angles (see P20.cc): back to back, with the energy and masses given
extern "C" void vcstub__ZN5smash13ScatterAction13sample_anglesESt4pairIddEd(ScatterAction *a, std::pair<double, double> m, double e) {
  VC_ASSERT(!sampled, "angles are drawn once");
  sampled = true;
  w = e;
  ma = m.first;
  mb = m.second;
  const double x = vc_sym_double("x"), y = vc_sym_double("y"), z = vc_sym_double("z"), ea = vc_sym_double("ea"), eb = vc_sym_double("eb");
  VC_ASSUME(ea > 0 && eb > 0 && ea + eb == e);
  a->outgoing_particles_[0].set_4momentum(FourVector(ea, x, y, z));
  a->outgoing_particles_[1].set_4momentum(FourVector(eb, -x, -y, -z));
}
// contract of sample_masses: open masses
struct Masses {
  double a, b;
};
static double available;
extern "C" Masses vcstub__ZNK5smash6Action13sample_massesEd(const Action *, double e) {
  available = e;
  const double a = vc_sym_double("ma"), b = vc_sym_double("mb");
  VC_ASSUME(a > 0 && b > 0 && a + b < e);
  return {a, b};
}
// contract of sample_manybody_phasespace: at rest in total
extern "C" void vcstub__ZN5smash6Action26sample_manybody_phasespaceEv(Action *a) {
  sampled = true;
  double e = 0, x = 0, y = 0, z = 0;
  const int n = a->outgoing_particles_.size();
  for (int i = 0; i < n - 1; i++) {
    const FourVector p(vc_sym_double("e"), vc_sym_double("x"), vc_sym_double("y"), vc_sym_double("z"));
    a->outgoing_particles_[i].set_4momentum(p);
    e += p.x0(), x += p.x1(), y += p.x2(), z += p.x3();
  }
  a->outgoing_particles_[n - 1].set_4momentum(FourVector(a->total_momentum().abs() - e, -x, -y, -z));
}
#endif
struct Pair {
  ParticleData a, b;
};
static Pair incoming() {
  install_types();
  ParticleData a(vc_type(T_P), 3), b(vc_type(T_PIM), 8);
  switch (vc_choose("motion", 3)) {
    case 0:
      a.set_4momentum(FourVector(1.2, 0, 0, 0.6));
      b.set_4momentum(FourVector(0.8, 0, 0, -0.6));
      break;
    case 1:
      a.set_4momentum(FourVector(1.5, 0.3, 0.2, 1.1));
      b.set_4momentum(FourVector(1, -0.3, -0.2, 0.4));
      break;
    case 2:
      a.set_4momentum(FourVector(1.5, 0.5, -0.4, 1));
      b.set_4momentum(FourVector(1, 0.4, 0.4, 0.2));
      break;
  }
  const double t = vc_double("t", 0, 20);
  a.set_4position(FourVector(t, vc_double("xa", -9, 9), vc_double("ya", -9, 9), vc_double("za", -9, 9)));
  b.set_4position(FourVector(t, vc_double("xb", -9, 9), vc_double("yb", -9, 9), vc_double("zb", -9, 9)));
  a.set_formation_time(0.);
  b.set_formation_time(0.);
  a.set_history(2, 5, ProcessType::Elastic, 0.5, {});
  b.set_history(0, 0, ProcessType::None, 0., {});
  if (vc_choose("core", 2)) b.fluidize();
  sampled = false;
  return {a, b};
}
static void conserved(const ScatterAction &s) {
  FourVector in = s.incoming_particles()[0].momentum() + s.incoming_particles()[1].momentum(), out;
  for (const auto &p : s.outgoing_particles()) out += p.momentum();
  for (int i = 0; i < 4; i++) VC_EQT(out[i], in[i], 1e-6, "energy and momentum are conserved");
}
static void at_interaction_point(const ScatterAction &s, bool core) {
  const FourVector a = s.incoming_particles()[0].position(), b = s.incoming_particles()[1].position();
  for (const auto &p : s.outgoing_particles()) {
    for (int i = 0; i < 4; i++) VC_EQ(p.position()[i], i == 0 ? a[0] + 0.5 : 0.5 * (a[i] + b[i] + 0.5 * (s.incoming_particles()[0].velocity()[i - 1] + s.incoming_particles()[1].velocity()[i - 1])), "products start at the interaction point");
    VC_ASSERT(p.is_core() == core, "products are in the core if an incoming particle is");
    VC_EQ(p.formation_time(), a[0] + 0.5, "products of formed hadrons are formed at once");
  }
}
VC_PROOF(elastic) {
  const Pair in = incoming();
  const double xs = vc_double("xs", 0.1, 100);
  ScatterAction s(in.a, in.b, 0.5);
  s.add_collision(std::make_unique<CollisionBranch>(in.a.type(), in.b.type(), xs, ProcessType::Elastic));
  s.generate_final_state();
  const ParticleList &out = s.outgoing_particles();
  VC_ASSERT(s.get_type() == ProcessType::Elastic, "type of the process");
  VC_ASSERT(out.size() == 2, "two particles");
  VC_ASSERT(out[0].type() == in.a.type() && out[1].type() == in.b.type(), "species are kept");
  VC_ASSERT(out[0].id() == 3 && out[1].id() == 8, "identities are kept");
  for (int i = 0; i < 4; i++)
    VC_ASSERT(out[0].position()[i] == in.a.position()[i] && out[1].position()[i] == in.b.position()[i], "positions are kept");
  VC_ASSERT(out[0].is_core() == in.a.is_core() && out[1].is_core() == in.b.is_core(), "core flags are kept");
  VC_ASSERT(out[0].get_history().collisions_per_particle == 2, "histories are kept");
  conserved(s);
#ifndef VC_NATIVE
  VC_EQ(w, (in.a.momentum() + in.b.momentum()).abs(), "angles are drawn with the whole energy");
  VC_ASSERT(ma == in.a.effective_mass() && mb == in.b.effective_mass(), "and the masses of the particles");
#endif
  VC_EQ(s.get_partial_weight(), xs, "weight of the channel");
  VC_EQ(s.get_total_weight(), xs, "weight of all channels");
}
VC_PROOF(formation_of_a_resonance) {
  const Pair in = incoming();
  ScatterAction s(in.a, in.b, 0.5);
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_DELTA), vc_double("xs", 0.1, 100), ProcessType::TwoToOne));
  s.generate_final_state();
  VC_ASSERT(s.outgoing_particles().size() == 1 && s.outgoing_particles()[0].type() == vc_type(T_DELTA), "the resonance");
  VC_ASSERT(s.get_type() == ProcessType::TwoToOne, "type of the process");
  VC_EQT(s.outgoing_particles()[0].effective_mass(), (in.a.momentum() + in.b.momentum()).abs(), 1e-6, "has the whole energy as its mass");
  conserved(s);
  at_interaction_point(s, in.b.is_core());
}
VC_PROOF(two_to_two) {
  const Pair in = incoming();
  ScatterAction s(in.a, in.b, 0.5);
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), vc_double("xs", 0.1, 100), ProcessType::TwoToTwo));
  s.generate_final_state();
  VC_ASSERT(s.outgoing_particles().size() == 2 && s.outgoing_particles()[0].type() == vc_type(T_N) && s.outgoing_particles()[1].type() == vc_type(T_PIZ), "the products");
  VC_ASSERT(s.get_type() == ProcessType::TwoToTwo, "type of the process");
#ifndef VC_NATIVE
  VC_EQ(w, (in.a.momentum() + in.b.momentum()).abs(), "angles are drawn with the whole energy");
  VC_ASSERT(available == w && ma + mb < w, "masses are drawn with it as well");
#endif
  conserved(s);
  at_interaction_point(s, in.b.is_core());
}
static void to_many(int n) {
  const Pair in = incoming();
  const ParticleType &N = vc_type(T_N), &z = vc_type(T_PIZ);
  CollisionBranchPtr b = n == 3 ? std::make_unique<CollisionBranch>(N, z, z, 1., ProcessType::TwoToThree)
                                : std::make_unique<CollisionBranch>(N, z, z, z, 1., ProcessType::TwoToFour);
  ScatterAction s(in.a, in.b, 0.5);
  s.add_collision(std::move(b));
  s.generate_final_state();
  VC_ASSERT(static_cast<int>(s.outgoing_particles().size()) == n, "number of products");
  conserved(s);
  at_interaction_point(s, in.b.is_core());
}
VC_PROOF(two_to_three) { to_many(3); }
VC_PROOF(two_to_four) { to_many(4); }
VC_PROOF(wrong_final_states) {
  const Pair in = incoming();
  const int k = vc_choose("k", 3);
  const ProcessType t[] = {ProcessType::Decay, ProcessType::Wall, ProcessType::MultiParticleThreeToTwo};
  ScatterAction s(in.a, in.b, 0.5);
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), 1., t[k]));
  VC_THROWS(s.generate_final_state(), ScatterAction::InvalidScatterAction, "only scatterings of two particles");
  ScatterAction r(in.a, in.b, 0.5);
  r.add_collision(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), 1., ProcessType::TwoToOne));
  VC_THROWS(r.generate_final_state(), Action::InvalidResonanceFormation, "resonances are single particles");
}
VC_PROOF(weights) {
  install_types();
  ParticleData a(vc_type(T_P)), b(vc_type(T_PIM));
  a.set_4momentum(a.pole_mass(), 0, 0, 1);
  b.set_4momentum(b.pole_mass(), 0, 0, -1);
  const double fa = vc_double("fa", 0, 1), fb = vc_double("fb", 0, 1), x = vc_double("x", 0, 50), y = vc_double("y", 0.1, 50);
  a.set_formation_time(10);
  b.set_formation_time(10);
  a.set_cross_section_scaling_factor(fa);
  b.set_cross_section_scaling_factor(fb);
  ScatterAction s(a, b, 0.);
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_P), vc_type(T_PIM), x, ProcessType::Elastic));
  CollisionBranchList more;
  more.push_back(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), y, ProcessType::TwoToTwo));
  more.push_back(std::make_unique<CollisionBranch>(vc_type(T_DELTA), 1., ProcessType::TwoToOne));
  s.add_collisions(std::move(more));
  VC_EQ(s.cross_section(), x + y + 1, "cross sections add up");
  VC_EQ(s.get_total_weight(), (x + y + 1) * fa * fb, "and are scaled for particles not formed yet");
  s.partial_cross_section_ = y;
  VC_EQ(s.get_partial_weight(), y * fa * fb, "so are those of channels");
}
VC_PROOF(rescaling) {
  install_types();
  // static members are not initialised by the verifier
  auto &warned = ScatterAction::warned_no_rescaling_available;
  new (&warned) std::remove_reference_t<decltype(warned)>();
  ParticleData a(vc_type(T_P)), b(vc_type(T_PIM));
  a.set_4momentum(a.pole_mass(), 0, 0, 1);
  b.set_4momentum(b.pole_mass(), 0, 0, -1);
  ScatterAction s(a, b, 0., false, 1., -1., true);
  const double x = vc_double("x", 0, 50), y = vc_double("y", 0, 50), total = vc_double("total", 0.1, 100);
  VC_ASSUME(x + y > 0.01 || (x == 0 && y == 0));
  s.parametrized_total_cross_section_ = total;
  VC_THROWS(s.rescale_outgoing_branches(), std::logic_error, "nothing to scale yet");
  s.were_processes_added_ = true;
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_P), vc_type(T_PIM), x, ProcessType::Elastic));
  s.add_collision(std::make_unique<CollisionBranch>(vc_type(T_N), vc_type(T_PIZ), y, ProcessType::TwoToTwo));
  const bool any = x + y > 0.01;
  s.rescale_outgoing_branches();
  double sum = 0;
  for (const auto &c : s.collision_channels_) sum += c->weight();
  VC_EQT(sum, total, 1e-6, "channels add up to the parametrised total");
  if (any && x > 0 && y > 0) {
    VC_ASSERT(s.collision_channels_.size() == 2, "no channel is added");
    VC_EQT(s.collision_channels_[0]->weight() * (x + y), x * total, 1e-6, "in proportion");
  }
  if (!any) VC_ASSERT(s.collision_channels_.back()->get_type() == ProcessType::Elastic && s.collision_channels_.back()->particle_types().size() == 2, "elastic if there is no other");
}
