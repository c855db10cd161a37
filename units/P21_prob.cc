// P21: probabilities of reactions of three to five particles, given phase space and cross sections; their final states
//@sources @types_support.cc @rbtree.cc scatteractionmulti.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
//@standin three_body_phase_space
#include <cmath>
#include <memory>
#include "types.h"
#include "smash/constants.h"
#include "smash/crosssections.h"
#include "smash/kinematics.h"
#include "smash/scatteractionmulti.h"
// any phase space, cross sections, widths and spectral functions
static double phase_space, xs, xs_elastic, width, spectral;
static double at;
static int outgoing[2];
namespace smash {
double CrossSections::two_to_three_xs(const ParticleType &a, const ParticleType &b, double w) {
  at = w;
  outgoing[0] = a.pdgcode().get_decimal();
  outgoing[1] = b.pdgcode().get_decimal();
  return xs;
}
double CrossSections::two_to_four_xs(const ParticleType &a, const ParticleType &b, double w) { return two_to_three_xs(a, b, w); }
double ppbar_total(double) { return xs; }
double ppbar_elastic(double) { return xs_elastic; }
}  // namespace smash
#ifndef VC_NATIVE
extern "C" double vcstub__ZNK5smash18ScatterActionMulti12calculate_I3Ed(const ScatterActionMulti *, double) { return phase_space; }
extern "C" double vcstub__ZNK5smash18ScatterActionMulti19parametrizaton_phi4Ed(const ScatterActionMulti *, double) { return phase_space; }
extern "C" double vcstub__ZNK5smash18ScatterActionMulti25parametrizaton_phi5_pionsEd(const ScatterActionMulti *, double) { return phase_space; }
extern "C" double vcstub__ZNK5smash12ParticleType17get_partial_widthEdSt6vectorINS_15ParticleTypePtrESaIS2_EE(const ParticleType *, double, ParticleTypePtrList *) { return width; }
extern "C" double vcstub__ZNK5smash12ParticleType17spectral_functionEd(const ParticleType *, double) { return spectral; }
// contract of sample_2body_phasespace: the whole energy, at rest in total
extern "C" void vcstub__ZN5smash6Action23sample_2body_phasespaceEv(Action *a) {
  const double e = vc_sym_double("e"), x = vc_sym_double("x"), y = vc_sym_double("y"), z = vc_sym_double("z");
  a->outgoing_particles_[0].set_4momentum(FourVector(e, x, y, z));
  a->outgoing_particles_[1].set_4momentum(FourVector(a->total_momentum().abs() - e, -x, -y, -z));
}
#endif
static ParticleData particle(int t, double e, double x, double y, double z) {
  ParticleData p(vc_type(t));
  p.set_4momentum(FourVector(e, x, y, z));
  p.set_formation_time(0.);
  return p;
}
static ParticleList several(int n) {
  install_types();
  const ParticleList all = {particle(T_P, 1.25, 0.5, 0.5, 0.5), particle(T_N, 1.5, -0.5, -0.5, 0), particle(n == 4 ? T_N : T_PIM, 0.75, 0, 0, -0.5), particle(T_PIP, 1, 0, 0, 0), particle(T_PIZ, 0.5, 0, 0, 0)};
  return ParticleList(all.begin(), all.begin() + n);
}
static double dt, vol, degen;
static void any() {
  dt = vc_double("dt", 0.01, 1);
  vol = vc_double("vol", 1, 30);
  degen = vc_double("degen", 0.1, 12);
  xs = vc_double("xs", 0, 100);
  xs_elastic = vc_double("elastic", 0, 100);
  phase_space = vc_double("phase_space", 0.01, 10);
  width = vc_double("width", 0, 1);
  spectral = vc_double("spectral", 0, 10);
}
// squared momentum of the pair times 4 s
static double lambda(double s, double a, double b) { return (s - (a + b) * (a + b)) * (s - (a - b) * (a - b)); }
// equal, given that constants are rounded
static void close(double a, double b, const char *label) {
  VC_LE(a, b * (1 + 1e-9), label);
  VC_LE(b, a * (1 + 1e-9), label);
}
VC_PROOF(three_to_two) {
  const ParticleList in = several(3);
  any();
  ScatterActionMulti a(in, 0.);
  const double w = a.sqrt_s();
  const double I3 = vc_symbolic() ? phase_space : a.calculate_I3(w);
  const double p = a.probability_three_to_two(vc_type(T_P), vc_type(T_N), dt, vol, degen);
  const double phi3 = I3 / (8 * M_PI * M_PI * M_PI * 16 * w * w);
  const double c = lambda(w * w, 0.938, 0.938) / (4 * 1.25 * 1.5 * 0.75 * 8 * M_PI * w * w) * hbarc * hbarc * hbarc * hbarc * hbarc / gev2_mb;
  close(p / c * vol * vol * phi3, dt * degen * xs, "probability of three particles in a cell to become two");
  VC_EQ(at, w, "cross section at the energy of the reaction");
  VC_ASSERT(outgoing[0] == 2212 && outgoing[1] == 2112, "of the inverse reaction");
}
VC_PROOF(four_to_two) {
  const ParticleList in = several(4);
  any();
  ScatterActionMulti a(in, 0.);
  const double w = a.sqrt_s();
#ifdef VC_NATIVE
  phase_space = a.parametrizaton_phi4(w * w);
  if (!(phase_space > 0)) return;
#endif
  const double p = a.probability_four_to_two(vc_type(T_P), vc_type(T_PIM), dt, vol, degen);
  const double c = lambda(w * w, 0.938, 0.138) / (16 * 1.25 * 1.5 * 0.75 * 1 * 4 * M_PI * w * w) * hbarc * hbarc * hbarc * hbarc * hbarc * hbarc * hbarc * hbarc / gev2_mb;
  close(p / c * vol * vol * vol * phase_space, dt * degen * xs, "probability of four particles in a cell to become two");
  VC_EQ(at, w, "cross section at the energy of the reaction");
  VC_ASSERT(outgoing[0] == 2212 && outgoing[1] == -211, "of the inverse reaction");
}
VC_PROOF(five_to_two) {
  const ParticleList in = several(5);
  any();
  ScatterActionMulti a(in, 0.);
  const double w = a.sqrt_s();
#ifdef VC_NATIVE
  phase_space = a.parametrizaton_phi5_pions(w * w);
#endif
  const double p = a.probability_five_to_two(0.938, dt, vol, degen);
  const double h2 = hbarc * hbarc, h4 = h2 * h2;
  const double c = lambda(w * w, 0.938, 0.938) / (32 * 1.25 * 1.5 * 0.75 * 1 * 0.5 * 4 * M_PI * w * w) * h4 * h4 * h2 * hbarc / gev2_mb;
  close(p / c * vol * vol * vol * vol * phase_space, dt * degen * (xs > xs_elastic ? xs - xs_elastic : 0), "probability of five particles in a cell to become two");
}
VC_PROOF(three_to_one) {
  const ParticleList in = several(3);
  any();
  if (!vc_symbolic()) return;
  ScatterActionMulti a(in, 0.);
  const double w = a.sqrt_s();
  const int d = vc_choose("d", 7);
  const double p = a.probability_three_to_one(vc_type(T_DELTA), dt, vol, d);
  const double phi3 = phase_space / (8 * M_PI * M_PI * M_PI * 16 * w * w);
  const double c = M_PI / (4 * 1.25 * 1.5 * 0.75) * hbarc * hbarc * hbarc * hbarc * hbarc;
  close(p / c * vol * vol * phi3, dt * d * width * spectral, "probability of three mesons in a cell to become one");
}
// the integral of the width of the second invariant mass over the first one
VC_PROOF(three_body_phase_space) {
  install_types();
  const int kinds[] = {T_PIP, T_PIZ, T_P, T_LAMBDA};
  const int k[] = {kinds[vc_choose("a", 4)], kinds[vc_choose("b", 4)], kinds[vc_choose("c", 4)]};
  const double gap = vc_double("gap", -0.5, 3);
  ParticleList in;
  double m[3], sum = 0;
  for (int i = 0; i < 3; i++) {
    in.push_back(particle(k[i], 2, 0, 0, 0));
    m[i] = vc_masses[k[i]];
    sum += m[i];
  }
  const ScatterActionMulti a(in, 0.);
  const double M = sum + gap;
  if (M < 0.1) return;
  const double I = a.calculate_I3(M);
  if (std::abs(gap) < 1e-9) return;
  if (gap < 0) {
    VC_ASSERT(I == 0, "no phase space below threshold");
    return;
  }
  if (gap < 0.01) return;
  const double lo = m[0] + m[1], hi = M - m[2];
  const int n = 400;
  double integral = 0;
  for (int i = 0; i < n; i++) {
    const double x = M_PI * (i + 0.5) / n, q = 0.5 * (lo + hi) - 0.5 * (hi - lo) * std::cos(x);
    integral += M_PI / n * 0.5 * (hi - lo) * std::sin(x) * 2 * q * std::sqrt(std::max(0., lambda(q * q, m[0], m[1]) * lambda(M * M, q, m[2]))) / (q * q);
  }
  VC_EQT(I / integral, 1, 1e-3, "three-body phase space");
}
static void conserved(const ScatterActionMulti &s) {
  FourVector in, out;
  for (const auto &p : s.incoming_particles()) in += p.momentum();
  for (const auto &p : s.outgoing_particles()) out += p.momentum();
  for (int i = 0; i < 4; i++) VC_EQT(out[i], in[i], 1e-6, "energy and momentum are conserved");
}
VC_PROOF(final_states) {
  install_types();
  const int n = 3 + vc_choose("n", 3), k = vc_choose("k", 4);
  ParticleList in;
  for (int i = 0; i < n; i++) {
    // 3: total (2.5, 0.9, 0, 1.2); then more at rest in total
    const double e[] = {1, 1, 0.5, 1, 1.5}, x[] = {0.5, 0.5, -0.1, 0, 0}, y[] = {0.5, -0.5, 0, 0, 0}, z[] = {0.5, 0.5, 0.2, 0, 0};
    in.push_back(particle(i % 2 ? T_PIP : T_PIM, e[i], x[i], y[i], z[i]));
    in.back().set_4position(FourVector(2, vc_double("x", -5, 5), vc_double("y", -5, 5), 1. * i));
  }
  ScatterActionMulti s(in, 0.);
  const ProcessType t[] = {ProcessType::MultiParticleThreeMesonsToOne, ProcessType::MultiParticleThreeToTwo, ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo};
  const ParticleType &A = vc_type(T_RHO), &B = vc_type(T_PIZ);
  s.add_reaction(k == 0 ? std::make_unique<CollisionBranch>(A, 0.3, t[k]) : std::make_unique<CollisionBranch>(B, B, 0.3, t[k]));
  s.generate_final_state();
  VC_ASSERT(s.get_type() == t[k], "type of the process");
  VC_ASSERT(static_cast<int>(s.outgoing_particles().size()) == (k == 0 ? 1 : 2), "number of products");
  conserved(s);
  VC_EQ(s.get_partial_weight(), 0.3, "probability of the channel");
  FourVector x;
  for (const auto &p : in) x += p.position();
  for (const auto &p : s.outgoing_particles()) {
    VC_ASSERT(p.type() == (k == 0 ? A : B), "species");
    for (int i = 1; i < 4; i++) VC_EQ(p.position()[i] * n, x[i], "products start at the interaction point");
    VC_EQ(p.position()[0], 2, "at the time of the reaction");
    VC_EQ(p.formation_time(), 2, "and are formed at once");
  }
}
VC_PROOF(wrong_channels) {
  const ParticleList in = several(3);
  const int k = vc_choose("k", 3);
  const ProcessType t[] = {ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::Decay};
  ScatterActionMulti s(in, 0.), r(in, 0.);
  s.add_reaction(std::make_unique<CollisionBranch>(vc_type(T_RHO), 0.3, t[k]));
  VC_THROWS(s.generate_final_state(), ScatterActionMulti::InvalidScatterActionMulti, "only reactions of several particles");
  r.add_reaction(std::make_unique<CollisionBranch>(vc_type(T_P), vc_type(T_N), 0.3, ProcessType::MultiParticleThreeMesonsToOne));
  VC_THROWS(r.generate_final_state(), ScatterActionMulti::InvalidScatterActionMulti, "one meson out of three");
}
VC_PROOF(scaled_weights) {
  install_types();
  ParticleList in;
  double f[3], all = 1;
  const char *names[] = {"fa", "fb", "fc"};
  for (int i = 0; i < 3; i++) {
    in.push_back(particle(T_PIP, 1, 0, 0, 0));
    in[i].set_formation_time(10);
    f[i] = vc_double(names[i], 0, 1);
    in[i].set_cross_section_scaling_factor(f[i]);
    all *= f[i];
  }
  ScatterActionMulti s(in, 0.);
  const double p = vc_double("p", 0.01, 1), q = vc_double("q", 0.01, 1);
  s.add_reaction(std::make_unique<CollisionBranch>(vc_type(T_RHO), p, ProcessType::MultiParticleThreeMesonsToOne));
  CollisionBranchList l;
  l.push_back(std::make_unique<CollisionBranch>(vc_type(T_RHO), q, ProcessType::MultiParticleThreeMesonsToOne));
  s.add_reactions(std::move(l));
  VC_EQ(s.get_total_weight(), (p + q) * all, "probabilities are scaled for particles not formed yet");
  s.partial_probability_ = q;
  VC_EQ(s.get_partial_weight(), q * all, "so are those of channels");
}
