// P19: when and whether two particles collide
//@sources @types_support.cc scatteractionsfinder.cc scatteraction.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "draws.h"
#include "smash/constants.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinder.h"
// a finder with the given parameters
struct Finder {
  alignas(ScatterActionsFinder) char mem[sizeof(ScatterActionsFinder)];
  ScatterActionsFinder &operator*() { return *reinterpret_cast<ScatterActionsFinder *>(mem); }
  ScatterActionsFinder *operator->() { return reinterpret_cast<ScatterActionsFinder *>(mem); }
  ScatterActionsFinderParameters &par() { return (**this).finder_parameters_; }
  Finder(CollisionCriterion c) {
    for (char &x : mem) x = 0;
    set(par().coll_crit, c);
    set(par().testparticles, 1);
    set(par().maximum_cross_section, 200.);
    set(par().total_xs_strategy, TotalCrossSectionStrategy::BottomUp);
    set(par().allow_collisions_within_nucleus, true);
    set((**this).box_length_, -1.);
  }
  template <typename T, typename U>
  static void set(const T &x, U v) { const_cast<T &>(x) = v; }
};
// any cross section for the pair (in mb)
static double given_xs, given_total;
static int asked, asked_total;
#ifndef VC_NATIVE
extern "C" void vcstub__ZN5smash13ScatterAction19add_all_scatteringsERKNS_30ScatterActionsFinderParametersE(ScatterAction *a, const ScatterActionsFinderParameters &) {
#else
void ScatterAction::add_all_scatterings(const ScatterActionsFinderParameters &) {
  ScatterAction *a = this;
#endif
  asked++;
  a->sum_of_partial_cross_sections_ = given_xs;
}
#ifndef VC_NATIVE
extern "C" void vcstub__ZN5smash13ScatterAction36set_parametrized_total_cross_sectionERKNS_30ScatterActionsFinderParametersE(ScatterAction *a, const ScatterActionsFinderParameters &) {
#else
void ScatterAction::set_parametrized_total_cross_section(const ScatterActionsFinderParameters &) {
  ScatterAction *a = this;
#endif
  asked_total++;
  a->parametrized_total_cross_section_ = given_total;
}
static ParticleData particle(int t, int id, const FourVector &x, const FourVector &p) {
  ParticleData d(vc_type(t), id);
  d.set_4momentum(p);
  d.set_4position(x);
  d.set_formation_time(0.);
  return d;
}
static FourVector momentum(const char *x, const char *y, double z, double e) { return FourVector(e, vc_double(x, -2, 2), vc_double(y, -2, 2), z); }
// in the computational frame particles collide at their closest approach
VC_PROOF(closest_approach) {
  install_types();
  Finder f(CollisionCriterion::Geometric);
  const double ea = vc_double("ea", 0.1, 5), eb = vc_double("eb", 0.1, 5);
  const ParticleData a = particle(T_P, 1, FourVector(3, vc_double("x", -5, 5), vc_double("y", -5, 5), 0.5), momentum("pax", "pay", 0.25, ea));
  const ParticleData b = particle(T_P, 2, FourVector(3, 1, vc_double("by", -5, 5), 0.25), momentum("pbx", "pby", -0.5, eb));
  const ThreeVector va = a.velocity(), vb = b.velocity(), dv = va - vb, dr = a.position().threevec() - b.position().threevec();
  const double t = f->collision_time(a, b, 1., {}), s = f->collision_time(b, a, 1., {});
  if (!vc_symbolic()) VC_ASSUME(dv.sqr() * ea * ea * eb * eb > 1e-4);
  if (dv.sqr() * ea * ea * eb * eb >= really_small) {
    VC_EQT(t * dv.sqr(), -(dr * dv), 1e-6, "closest approach");
    VC_EQT(s * dv.sqr(), -(dr * dv), 1e-6, "whichever comes first");
  } else {
    VC_ASSERT(t == -1 && s == -1, "particles at rest to each other do not meet");
  }
}
// the covariant criterion: closest approach in the frame of the pair, at the mean of the two times
VC_PROOF(covariant_approach) {
  install_types();
  Finder f(CollisionCriterion::Covariant);
  const FourVector pa(vc_double("ea", 2, 5), vc_double("pax", -1, 1), 0.5, 0.25), pb(vc_double("eb", 2, 5), vc_double("pbx", -1, 1), -0.5, 0.75);
  const FourVector xa(3, vc_double("x", -5, 5), vc_double("y", -5, 5), 0.5), xb(3, 1, vc_double("by", -5, 5), 0.25);
  const double t = f->collision_time(particle(T_P, 1, xa, pa), particle(T_P, 2, xb, pb), 1., {});
  const double D = pa.Dot(pb) * pa.Dot(pb) - pa.sqr() * pb.sqr();
  VC_ASSUME(D > (vc_symbolic() ? 1e-11 : 1e-2));
  // proper displacements that make the connection orthogonal to both momenta
  const FourVector x = xa - xb;
  const double sa = (pb.sqr() * pa.Dot(x) - pa.Dot(pb) * pb.Dot(x)) / D, sb = (pa.Dot(pb) * pa.Dot(x) - pa.sqr() * pb.Dot(x)) / D;
  const FourVector c = x + pa * sa - pb * sb;
  VC_EQT(c.Dot(pa), 0, 1e-5, "closest in the frame of the pair");
  VC_EQT(c.Dot(pb), 0, 1e-5, "closest in the frame of the pair");
  VC_EQT(2 * t, sa * pa.x0() + sb * pb.x0(), 1e-6, "mean of the times of both");
  VC_EQT(f->collision_time(particle(T_P, 1, xb, pb), particle(T_P, 2, xa, pa), 1., {}), t, 1e-6, "whichever comes first");
}
VC_PROOF(covariant_at_rest) {
  install_types();
  Finder f(CollisionCriterion::Covariant);
  const FourVector p(vc_double("e", 2, 5), vc_double("px", -1, 1), 0.5, 0.25);
  VC_ASSERT(f->collision_time(particle(T_P, 1, FourVector(3, vc_double("x", -5, 5), 0, 0), p), particle(T_P, 2, FourVector(3, 0, 0, 0), p), 1., {}) == -1, "particles at rest to each other do not meet");
}
VC_PROOF(stochastic_time) {
  install_types();
  Finder f(CollisionCriterion::Stochastic);
  const double dt = vc_double("dt", 0.001, 2), u = vc_draw(0);
  const double t = f->collision_time(particle(T_P, 1, FourVector(), FourVector(3, 0, 0, 1)), particle(T_P, 2, FourVector(), FourVector(3, 0, 0, -1)), dt, {});
  VC_EQ(t, dt * u, "uniform in the time step");
  VC_ASSERT(t >= 0 && t < dt, "within the time step");
}
// nucleons of the initial nuclei that did not collide move with the beam
VC_PROOF(frozen_fermi) {
  VC_CONFIG("merge=0");
  install_types();
  Finder f(vc_bool("covariant") ? CollisionCriterion::Covariant : CollisionCriterion::Geometric);
  const FourVector pa(vc_double("e", 2, 5), vc_double("pax", -1, 1), 0, 0), pb(3, -0.5, 0, 0);
  const FourVector xa(3, vc_double("x", -5, 5), 0.25, 0), xb(3, 1, 0, 0);
  const std::vector<FourVector> beam{FourVector(3, 0.25, 0, 1), FourVector(4, -0.25, 0, 2), FourVector(5, -0.125, 0, 1)};
  const int ia = vc_choose("ia", 4), ib = vc_choose("ib", 4);
  ParticleData a = particle(T_P, ia, xa, pa), b = particle(T_P, ib, xb, pb), a0 = a, b0 = b;
  a0.set_id(3), b0.set_id(3);
  const bool hit = vc_bool("a collided");
  if (hit) a.set_history(1, 1, ProcessType::Elastic, 1., {b, b});
  if (!hit && ia < 3) a0.set_4momentum(beam[ia]);
  if (ib < 3) b0.set_4momentum(beam[ib]);
  VC_EQT(f->collision_time(a, b, 1., beam), f->collision_time(a0, b0, 1., {}), 1e-6, "as if moving with the beam");
}
VC_PROOF(invalid_id) {
  install_types();
  Finder f(CollisionCriterion::Geometric);
  const ParticleData a = particle(T_P, -1, FourVector(), FourVector(3, 1, 0, 0)), b = particle(T_P, 1, FourVector(), FourVector(3, -1, 0, 0));
  if (vc_bool("which")) VC_THROWS(f->collision_time(a, b, 1., {}), std::runtime_error, "particles need ids");
  else VC_THROWS(f->collision_time(b, a, 1., {}), std::runtime_error, "particles need ids");
}
// the transverse distance in the frame of the pair
VC_PROOF(covariant_distance) {
  install_types();
  const FourVector pa(vc_double("ea", 2, 5), vc_double("pax", -1, 1), 0.5, 0.25), pb(vc_double("eb", 2, 5), vc_double("pbx", -1, 1), -0.5, 0.75);
  const FourVector xa(3, vc_double("x", -5, 5), vc_double("y", -5, 5), 0.5), xb(3, 1, vc_double("by", -5, 5), 0.25), x = xa - xb;
  const ParticleData a = particle(T_P, 1, xa, pa), b = particle(T_P, 2, xb, pb);
  const double d = ScatterAction(a, b, 1.).cov_transverse_distance_sqr(), D = pa.Dot(pb) * pa.Dot(pb) - pa.sqr() * pb.sqr();
  VC_ASSUME(D > (vc_symbolic() ? 1e-11 : 1e-2));
  const double sa = (pb.sqr() * pa.Dot(x) - pa.Dot(pb) * pb.Dot(x)) / D, sb = (pa.Dot(pb) * pa.Dot(x) - pa.sqr() * pb.Dot(x)) / D;
  const double c = -(x + pa * sa - pb * sb).sqr();
  if (c > 0) VC_EQT(d, c, 1e-5, "length of the connection orthogonal to both momenta");
  else VC_ASSERT(d >= 0 && d < 1e-9, "never negative");
  if (!vc_symbolic()) VC_EQT(ScatterAction(a, b, 1.).transverse_distance_sqr(), c, 1e-5, "the same in the frame of the pair");
}
VC_PROOF(distance_cm) {   // in their centre of mass frame
  install_types();
  const double p = vc_double("p", 0.01, 2), q = vc_double("q", -2, 2), ea = vc_double("ea", 3, 5), eb = vc_double("eb", 3, 5);
  const ThreeVector r(vc_double("x", -5, 5), vc_double("y", -5, 5), vc_double("z", -5, 5)), k(p, q, 0.25);
  const ParticleData a = particle(T_P, 1, FourVector(2, r), FourVector(ea, k)), b = particle(T_P, 2, FourVector(2, 0, 0, 0), FourVector(eb, -k));
  const double d = ScatterAction(a, b, 1.).transverse_distance_sqr();
  VC_EQT(d * k.sqr(), r.cross_product(k).sqr(), 1e-6, "distance from the line of flight");
}
VC_PROOF(distance_boosted) {   // boosted along their connection or across
  VC_CONFIG("merge=0");
  install_types();
  const double t = vc_double("t", -2, 2), x = vc_double("x", -5, 5), y = vc_double("y", -5, 5), m = vc_double("m", -1, 1);
  // velocity 0.6 of the pair along z, a and b moving along z in their frame
  const ParticleData a = particle(T_P, 1, FourVector(2 + t, x, y, m), FourVector(5, 0, 0, 4)), b = particle(T_P, 2, FourVector(2, 0, 0, 0), FourVector(5, 0, 0, 2));
  VC_EQT(ScatterAction(a, b, 1.).transverse_distance_sqr(), x * x + y * y, 1e-6, "transverse distances are not changed by boosts");
  VC_EQT(ScatterAction(a, b, 1.).cov_transverse_distance_sqr(), x * x + y * y, 1e-6, "transverse distances are not changed by boosts");
}
// kinematics of the pair
VC_PROOF(pair_kinematics) {
  install_types();
  const FourVector pa(vc_double("ea", 2, 5), vc_double("pax", -1, 1), 0.5, 0.25), pb(vc_double("eb", 2, 5), vc_double("pbx", -1, 1), -0.5, 0.75), P = pa + pb;
  const ParticleData a = particle(T_P, 1, FourVector(), pa), b = particle(T_P, 2, FourVector(), pb);
  const ScatterAction s(a, b, 1.);
  VC_EQT(s.mandelstam_s(), P.sqr(), 1e-6, "s");
  const double e = s.sqrt_s();
  VC_EQT(e * e, P.sqr(), 1e-6, "energy of the pair");
  for (int i = 1; i < 4; i++) VC_EQT(s.beta_cm()[i - 1] * P.x0(), P[i], 1e-6, "velocity of the pair");
  const double g = s.gamma_cm();
  VC_EQT(g * g * P.sqr(), P.x0() * P.x0(), 1e-5, "Lorentz factor");
  const double D = pa.Dot(pb) * pa.Dot(pb) - pa.sqr() * pb.sqr();
  if (!vc_symbolic()) VC_ASSUME(D > 1e-2);
  VC_EQT(s.cm_momentum_squared() * P.sqr(), D, 1e-5, "momentum in the centre of mass");
  const double v = s.relative_velocity();
  if (D >= 0) VC_EQT(v * v * pa.x0() * pa.x0() * pb.x0() * pb.x0(), D, 1e-5, "relative velocity");
}
// the decision whether a pair collides within the time step
static void decide(CollisionCriterion c, bool total) {
  VC_CONFIG("merge=0");
  install_types();
  Finder f(c);
  const int n = 1 + vc_choose("test particles", 3);
  Finder::set(f.par().testparticles, n);
  const double max = vc_double("max", 10, 300), dt = vc_double("dt", 0.01, 10);
  Finder::set(f.par().maximum_cross_section, max);
  if (total) Finder::set(f.par().total_xs_strategy, TotalCrossSectionStrategy::TopDown);
  given_xs = vc_double("xs", 0, 300);
  given_total = vc_double("total xs", 0, 300);
  const double x = vc_double("x", -10, 10), y = vc_double("y", -4, 4), factor = vc_double("factor", 0, 1);
  ParticleData a = particle(T_P, 1, FourVector(2, x, y, 0), FourVector(2, 1, 0, 0)), b = particle(T_PIP, 2, FourVector(2, 0, 0, 0), FourVector(2, -1, 0, 0));
  // a is not formed yet
  a.set_slow_formation_times(50, 60);
  a.set_cross_section_scaling_factor(factor);
  asked = asked_total = 0;
  const ActionPtr act = f->check_collision_two_part(a, b, dt, {}, 0.);
  const double t = -x, d = y * y, xs = (total ? given_total : given_xs) * fm2_mb * factor;
  const bool expected = t >= 0 && t < dt && d * n < max * fm2_mb * M_1_PI && d * n < xs * M_1_PI;
  if (!vc_symbolic()) VC_ASSUME(std::abs(t) > 1e-6 && std::abs(t - dt) > 1e-6 && std::abs(d * n - max * fm2_mb * M_1_PI) > 1e-6 && std::abs(d * n - xs * M_1_PI) > 1e-6);
  VC_ASSERT((act != nullptr) == expected, "they collide if they come close enough within the time step");
  if (act) {
    VC_EQT(act->time_of_execution(), 2 + t, 1e-6, "at the closest approach");
    VC_ASSERT(act->incoming_particles().size() == 2 && act->incoming_particles()[0].id() == 1 && act->incoming_particles()[1].id() == 2, "of these two");
    VC_ASSERT(asked == 1 && asked_total == (total ? 1 : 0), "with all their reactions");
  }
}
VC_PROOF(geometric) { decide(CollisionCriterion::Geometric, false); }
VC_PROOF(covariant) { decide(CollisionCriterion::Covariant, false); }
VC_PROOF(parametrized) { decide(CollisionCriterion::Geometric, true); }
VC_PROOF(elastic_box) {   // a single species with constant elastic cross section
  VC_CONFIG("merge=0");
  ParticleTypeList one;
  one.emplace_back("x", 0.138, 0., Parity::Neg, PdgCode(0x111));
  vc_set_types(&one);
  Finder f(CollisionCriterion::Geometric);
  const double el = vc_double("elastic", -5, 300), max = vc_double("max", 10, 300);
  const bool iso = vc_bool("isotropic"), res = vc_bool("resonances");
  Finder::set(f.par().maximum_cross_section, max);
  Finder::set(f.par().elastic_parameter, el);
  Finder::set(f.par().two_to_one, res);
  Finder::set((*f).isotropic_, iso);
  const int n = 1 + vc_choose("n", 4);
  const bool constant = iso && !res && el > 0;
  VC_ASSERT(f->is_constant_elastic_isotropic() == constant, "mode of constant cross sections");
  VC_EQT(f->max_transverse_distance_sqr(n) * n, (constant ? el : max) * fm2_mb * M_1_PI, 1e-6, "range of interactions");
}
// bans: nucleons of one nucleus that did not collide, partners of the last collision
VC_PROOF(bans) {
  VC_CONFIG("merge=0");
  install_types();
  Finder f(vc_bool("covariant") ? CollisionCriterion::Covariant : CollisionCriterion::Geometric);
  const bool allowed = vc_bool("allowed within nucleus");
  Finder::set(f.par().allow_collisions_within_nucleus, allowed);
  given_xs = 100;
  ParticleData a = particle(T_P, 1, FourVector(2, -1, 0, 0), FourVector(2, 1, 0, 0)), b = particle(T_P, 2, FourVector(2, 0, 0, 0), FourVector(2, -1, 0, 0));
  const int na = vc_choose("nucleus a", 3), nb = vc_choose("nucleus b", 3), pa = vc_choose("process a", 3), pb = vc_choose("process b", 3);
  const BelongsTo B[] = {BelongsTo::Nothing, BelongsTo::Projectile, BelongsTo::Target};
  a.set_belongs_to(B[na]);
  b.set_belongs_to(B[nb]);
  if (pa) a.set_history(1, pa, ProcessType::Elastic, 1., {b, b});
  if (pb) b.set_history(1, pb, ProcessType::Elastic, 1., {a, a});
  const bool banned = !allowed && na == nb && na && !pa && !pb;
  const ActionPtr act = f->check_collision_two_part(a, b, 5., {}, 0.);
  VC_ASSERT((act != nullptr) == !(banned || (pa && pa == pb)), "who may collide");
}
// stochastic rates
VC_PROOF(stochastic) {
  VC_CONFIG("merge=0");
  install_types();
  Finder f(CollisionCriterion::Stochastic);
  const int n = 1 + vc_choose("test particles", 2);
  const bool warn = vc_bool("warn only");
  Finder::set(f.par().testparticles, n);
  Finder::set(f.par().only_warn_for_high_prob, warn);
  given_xs = vc_double("xs", 0, 300);
  const double dt = vc_double("dt", 0.01, 1), vol = vc_double("volume", 0, 40), factor = vc_double("factor", 0, 1);
  const ParticleData a = particle(T_P, 1, FourVector(2, 5, 0, 0), FourVector(5, 3, 0, 0));
  ParticleData b = particle(T_PIP, 2, FourVector(2, 0, 0, 0), FourVector(5, -3, 0, 0));
  b.set_slow_formation_times(50, 60);
  b.set_cross_section_scaling_factor(factor);
  const double u = vc_draw(0), w = vc_draw(vc_symbolic() ? 1 : 2);   // (in between it draws one of the two places)
  bool refused = false;
  ActionPtr act;
  try {
    act = f->check_collision_two_part(a, b, dt, {}, vol);
  } catch (std::runtime_error &) {
    refused = true;
  }
  const double xs = given_xs * fm2_mb / n * factor, vrel = 1.2;
  if (!vc_symbolic()) VC_ASSUME(std::abs(xs * vrel * dt - vol) > 1e-6 && std::abs(w * vol - xs * vrel * dt) > 1e-6 && std::abs(vol - really_small) > 1e-9);
  if (vol < really_small) VC_ASSERT(!refused && !act, "only within cells");
  else {
    VC_ASSERT(refused == (!warn && xs * vrel * dt > vol), "probabilities above one are refused");
    if (!refused) {
      VC_ASSERT((act != nullptr) == (w * vol <= xs * vrel * dt), "collide with probability cross section times velocity times time over volume");
      if (act) VC_EQT(act->time_of_execution(), 2 + dt * u, 1e-6, "anywhere in the time step");
    }
  }
}
// every pair is looked at once
static ParticleData in_line(int i, int id) { return particle(T_P, id, FourVector(2, i, 0, 0), FourVector(4, 2 - i, 0, 0)); }
static bool has(const ActionList &l, int a, int b) {
  int n = 0;
  for (const auto &x : l) {
    const int i = x->incoming_particles()[0].id(), j = x->incoming_particles()[1].id();
    n += (i == a && j == b) || (i == b && j == a);
  }
  return n == 1;
}
VC_PROOF(in_cell) {
  VC_CONFIG("merge=0");
  install_types();
  Finder f(CollisionCriterion::Geometric);
  given_xs = 100;
  const int order = 2 * vc_choose("order", 3);
  static const int ids[6][3] = {{1, 5, 9}, {1, 9, 5}, {5, 1, 9}, {5, 9, 1}, {9, 1, 5}, {9, 5, 1}};
  const int *id = ids[order];
  const ParticleList l{in_line(0, id[0]), in_line(1, id[1]), in_line(2, id[2])};
  const ActionList found = f->ScatterActionsFinder::find_actions_in_cell(l, 50., 1., {});
  VC_ASSERT(found.size() == 3 && has(found, 1, 5) && has(found, 1, 9) && has(found, 5, 9), "every pair once");
  VC_ASSERT(f->ScatterActionsFinder::find_actions_in_cell({in_line(0, 3)}, 50., 1., {}).empty() && f->ScatterActionsFinder::find_actions_in_cell({}, 50., 1., {}).empty(), "nobody collides with himself");
}
VC_PROOF(with_neighbors) {
  VC_CONFIG("merge=0");
  install_types();
  const bool stochastic = vc_bool("stochastic");
  Finder f(stochastic ? CollisionCriterion::Stochastic : CollisionCriterion::Geometric);
  given_xs = 100;
  const ParticleList l{in_line(0, 1), in_line(1, 2)}, m{in_line(2, 7), in_line(3, 4)};
  const ActionList found = f->ScatterActionsFinder::find_actions_with_neighbors(l, m, 50., {});
  if (stochastic) VC_ASSERT(found.empty(), "stochastic collisions happen within cells");
  else VC_ASSERT(found.size() == 4 && has(found, 1, 7) && has(found, 1, 4) && has(found, 2, 7) && has(found, 2, 4), "every pair of neighbours once");
}
VC_PROOF(with_surrounding) {
  VC_CONFIG("merge=0");
  install_types();
  const bool stochastic = vc_bool("stochastic");
  Finder f(stochastic ? CollisionCriterion::Stochastic : CollisionCriterion::Geometric);
  given_xs = 100;
  Particles all;
  for (int i = 0; i < 4; i++) all.insert(in_line(i, i));
  ParticleList l;
  const int k = vc_choose("new", 4);
  for (const ParticleData &p : all)
    if (p.id() == k || p.id() == 2) l.push_back(p);
  const ActionList found = f->ScatterActionsFinder::find_actions_with_surrounding_particles(l, all, 50., {});
  if (stochastic) VC_ASSERT(found.empty(), "stochastic collisions happen within cells");
  else {
    size_t n = 0;
    for (const ParticleData &p : l)
      for (const ParticleData &q : all)
        if (q.id() != k && q.id() != 2) {
          n++;
          VC_ASSERT(has(found, p.id(), q.id()), "every pair with the others once");
        }
    VC_ASSERT(found.size() == n, "not among themselves");
  }
  VC_ASSERT(f->ScatterActionsFinder::find_final_actions(all).empty(), "no collisions after the end");
}
