// P16: decay modes and their mass-dependent widths
//@sources @types_support.cc decaymodes.cc decaytype.cc processbranch.cc action.cc particledata.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@thorough stable_width_2_any stable_width_3_any
//@native random.cc logging.cc isoparticletype.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc particles.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "draws.h"
#include "smash/action.h"
#include "smash/constants.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/formfactors.h"
#include "smash/kinematics.h"
namespace smash {
extern std::vector<DecayTypePtr> *all_decay_types;
}
static const char *const W[] = {"w0", "w1", "w2"};
struct AnyMode : DecayType {
  AnyMode() : DecayType({}, 0) {}
  unsigned particle_number() const override { return 0; }
  bool has_particles(ParticleTypePtrList) const override { return false; }
  double width(double, double, double) const override { return 0; }
  double in_width(double, double, double, double, double) const override { return 0; }
};
VC_PROOF(branching_ratios) {
  VC_CONFIG("merge=0");
  AnyMode t;
  DecayModes m;
  double w[3], sum = 0;
  for (int i = 0; i < 3; i++) {
    w[i] = vc_double(W[i], 0, 10);
    sum += w[i];
    m.add_mode(std::make_unique<DecayBranch>(t, w[i]));
  }
  VC_ASSUME(sum > 0.01);
  if (!vc_symbolic()) VC_ASSUME(std::abs(sum - 1) > 2e-6 && std::abs(std::abs(sum - 1) - 0.01) > 1e-9);
  const bool large = m.renormalize("x");
  VC_ASSERT(large == (sum > 1.01 || sum < 0.99), "large corrections are reported");
  const auto &l = m.decay_mode_list();
  VC_ASSERT(l.size() == 3u, "all modes stay");
  double now = 0;
  for (int i = 0; i < 3; i++) now += l[i]->weight();
  VC_ASSERT(now < 1 + 2 * really_small && now > 1 - 2 * really_small, "branching ratios add up to one");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) VC_EQT(l[i]->weight() * w[j], w[i] * l[j]->weight(), 1e-6, "their proportions stay");
}
VC_PROOF(adding_modes) {
  VC_CONFIG("merge=0");
  install_types();
  std::vector<DecayTypePtr> types;
  all_decay_types = &types;
  DecayModes m;
  const ParticleTypePtr d = &vc_type(T_DELTA), n = &vc_type(T_N), p = &vc_type(T_P), pi = &vc_type(T_PIP), rho = &vc_type(T_RHO), l = &vc_type(T_LAMBDA);
  const double a = vc_double("a", 0, 1), b = vc_double("b", 0, 1), c = vc_double("c", 0, 1);
  const int L = vc_choose("L", 3), k = vc_choose("second", 3);
  m.add_mode(d, a, 1, {p, pi});
  if (k == 0) m.add_mode(d, b, L, {p, pi});
  if (k == 1) m.add_mode(d, b, L, {pi, p});
  if (k == 2) m.add_mode(d, b, L, {n, pi});
  m.add_mode(d, c, 0, {n, rho});
  const auto &list = m.decay_mode_list();
  const bool same = k < 2 && L == 1;
  VC_ASSERT(list.size() == (same ? 2u : 3u), "the same products in the same wave are one mode");
  VC_EQ(list[0]->weight(), same ? a + b : a, "whose ratios add up");
  VC_ASSERT(list[0]->angular_momentum() == 1, "with its angular momentum");
  if (!same) {
    VC_ASSERT(list[1]->weight() == b && list[1]->angular_momentum() == L, "others are kept apart");
    VC_ASSERT(list[1]->type().has_particles({pi, k == 2 ? n : p}) && list[1]->type().has_particles({k == 2 ? n : p, pi}) && !list[1]->type().has_particles({pi, l}), "products in any order");
  }
  VC_ASSERT(list.back()->weight() == c && list.back()->type().has_particles({rho, n}), "resonances among the products");
  m.add_mode(d, c, 2, {n, pi, p});
  VC_ASSERT(list.back()->particle_number() == 3u && list.back()->type().has_particles({p, n, pi}) && !list.back()->type().has_particles({p, p, pi}), "three products");
  const size_t before = list.size();
  m.add_mode(d, c, 2, {p, n, pi});
  VC_ASSERT(list.size() == before && list.back()->weight() == 2 * c, "in any order");
  VC_THROWS(m.add_mode(d, c, 0, {n, pi, p, pi}), DecayModes::InvalidDecay, "four products are refused");
  VC_THROWS(m.add_mode(d, c, 0, {n}), DecayModes::InvalidDecay, "one product is refused");
  all_decay_types = nullptr;
}
VC_PROOF(kinds_of_modes) {
  VC_CONFIG("merge=0");
  install_types();
  const ParticleTypePtr n = &vc_type(T_N), rho = &vc_type(T_RHO), d = &vc_type(T_DELTA), pi = &vc_type(T_PIP);
  VC_THROWS(TwoBodyDecayStable({n, rho}, 0), std::runtime_error, "stable products only");
  VC_THROWS(TwoBodyDecaySemistable({n, pi}, 0), std::runtime_error, "one resonance");
  VC_THROWS(TwoBodyDecaySemistable({rho, d}, 0), std::runtime_error, "one resonance");
  VC_THROWS(TwoBodyDecayUnstable({n, rho}, 0), std::runtime_error, "two resonances");
  VC_THROWS(TwoBodyDecayStable({n, pi, n}, 0), std::runtime_error, "two products");
  VC_THROWS(ThreeBodyDecay({n, pi}, 0), std::runtime_error, "three products");
  VC_THROWS(TwoBodyDecayDilepton({n, pi}, 0), std::runtime_error, "a lepton pair");
}
// independent form of the squared barrier factors
static double barrier(double x, int L) {
  const double y = x * x;
  switch (L) {
    case 0: return 1;
    case 1: return y / (1 + y);
    case 2: return y * y / (9 + 3 * y + y * y);
    case 3: return y * y * y / (225 + 45 * y + 6 * y * y + y * y * y);
    default: return y * y * y * y / (11025 + 1575 * y + 135 * y * y + 10 * y * y * y + y * y * y * y);
  }
}
static void barriers(int L) {
  constexpr double R = 1. / hbarc;
  const double p = vc_double("p", 0.01, 5), f = blatt_weisskopf_sqr(p, L);
  VC_EQT(f, barrier(p * R, L), 1e-6, "Blatt-Weisskopf factor");
  VC_ASSERT(f > 0 && f <= 1, "between zero and one");
}
VC_PROOF(barrier_0) { barriers(0); }
VC_PROOF(barrier_1) { barriers(1); }
VC_PROOF(barrier_2) { barriers(2); }
VC_PROOF(barrier_3) { barriers(3); }
VC_PROOF(barrier_4) { barriers(4); }
VC_PROOF(barrier_grows) {
  const double p = vc_double("p", 0.01, 5), q = vc_double("q", 0.01, 5);
  const int L = vc_choose("L", 3);
  if (vc_symbolic() ? p < q : p < q * (1 - 1e-6)) VC_ASSERT(L == 0 || blatt_weisskopf_sqr(p, L) < blatt_weisskopf_sqr(q, L), "higher momenta are less suppressed");
}

static ParticleType &massive(int t, const char *m) {
  ParticleType &type = const_cast<ParticleType &>(vc_type(t));
  type.mass_ = type.min_mass_kinematic_ = type.min_mass_spectral_ = vc_double(m, 0.1, 2);
  return type;
}
static void stable_width(int L, bool any = true) {
  VC_CONFIG("merge=0");
  install_types();
  ParticleType &a = massive(T_P, "a"), &b = massive(T_PIP, "b");
  if (!any) {
    a.mass_ = a.min_mass_kinematic_ = a.min_mass_spectral_ = 0.9375;
    b.mass_ = b.min_mass_kinematic_ = b.min_mass_spectral_ = 0.140625;
  }
  const double m0 = any ? vc_double("m0", 0.3, 6) : 1.25, m = vc_double("m", 0.1, 8), G = vc_double("G", 0, 1), th = a.mass() + b.mass();
  VC_ASSUME(m0 > th + 0.05);
  if (!vc_symbolic()) VC_ASSUME(std::abs(m - th) > 1e-3);
  TwoBodyDecayStable t({&a, &b}, L);
  const double w = t.width(m0, G, m);
  VC_EQ(t.in_width(m0, G, m, a.mass(), b.mass()), w, "formation is the inverse of decay");
  VC_EQT(t.width(m0, G, m0), G, 1e-6, "the width at the pole is as given");
  if (m <= th) {
    VC_ASSERT(w == 0, "no decay below threshold");
    return;
  }
  constexpr double R = 1. / hbarc;
  const double p = pCM(m, a.mass(), b.mass()), p0 = pCM(m0, a.mass(), b.mass());
  VC_EQT(w * (p0 / m0 * barrier(p0 * R, L)), G * (p / m * barrier(p * R, L)), 1e-6, "width grows with phase space and barrier factor");
}
VC_PROOF(stable_width_0) { stable_width(0); }
VC_PROOF(stable_width_1) { stable_width(1); }
VC_PROOF(stable_width_2) { stable_width(2, false); }
VC_PROOF(stable_width_3) { stable_width(3, false); }
VC_PROOF(stable_width_2_any) { stable_width(2); }
VC_PROOF(stable_width_3_any) { stable_width(3); }
VC_PROOF(dilepton_width) {
  VC_CONFIG("merge=0");
  ParticleTypeList leptons;
  leptons.reserve(2);
  leptons.emplace_back("f", 0, 0, Parity::Pos, PdgCode(-0x11));
  leptons.emplace_back("e", 0, 0, Parity::Pos, PdgCode(0x11));
  vc_set_types(&leptons);
  ParticleType &e = leptons[1], &f = leptons[0];
  const double ml = vc_double("ml", 0.0001, 0.2), m0 = vc_double("m0", 0.5, 3), m = vc_double("m", 0.0001, 3), G = vc_double("G", 0, 1);
  e.mass_ = f.mass_ = e.min_mass_kinematic_ = f.min_mass_kinematic_ = e.min_mass_spectral_ = f.min_mass_spectral_ = ml;
  TwoBodyDecayDilepton t({&e, &f}, 1);
  VC_ASSERT(t.is_dilepton_decay() && !TwoBodyDecayStable({&e, &f}, 1).is_dilepton_decay(), "dileptons are told apart");
  if (!vc_symbolic()) VC_ASSUME(m > 2.001 * ml || m < 1.999 * ml);
  const double w = t.width(m0, G, m);
  if (m <= 2 * ml) {
    VC_ASSERT(w == 0, "no decay below threshold");
    return;
  }
  const double z = ml * ml / (m * m);
  VC_EQT(w * m * m * m, G * m0 * m0 * m0 * std::sqrt(1 - 4 * z) * (1 + 2 * z), 1e-6, "width of vector mesons into dileptons");
}
VC_PROOF(three_body_width) {
  install_types();
  const ParticleTypePtr n = &vc_type(T_N), pi = &vc_type(T_PIP);
  ThreeBodyDecay t({pi, n, pi}, 0);
  const double G = vc_double("G", 0, 1), m = vc_double("m", 1, 3);
  VC_ASSERT(t.width(1.2, G, m) == G && t.in_width(1.2, G, m, 1, 2) == G, "three-body widths are constant");
}
// resonances among the products: given the phase space integrals
#ifndef VC_NATIVE
static double rho_pole, rho_now, pole;
static double phase_space(double m) { return m == pole ? rho_pole : rho_now; }
extern "C" double vcstub__ZNK5smash22TwoBodyDecaySemistable3rhoEd(const TwoBodyDecaySemistable *, double m) { return phase_space(m); }
extern "C" double vcstub__ZNK5smash20TwoBodyDecayUnstable3rhoEd(const TwoBodyDecayUnstable *, double m) { return phase_space(m); }
#endif
// form factor of M. Post with its cut-off
static double cut(double m, double m0, double th, double L) {
  const double l = L * L * L * L, s = th * th, a = s - m0 * m0, b = 2 * m * m - s - m0 * m0, f = (4 * l + a * a) / (4 * l + b * b);
  return f * f;
}
static void resonance_width(int kind) {
  VC_CONFIG("merge=0");
  install_types();
  if (!vc_symbolic()) return;
  ParticleType &rho = massive(T_RHO, "m_rho"), &d = massive(T_DELTA, "m_delta"), &p = massive(T_P, "m_p"), &pi = massive(T_PIP, "m_pi");
  const ParticleType &a = kind == 0 ? p : kind == 1 ? pi : kind == 2 ? pi : d, &b = kind == 1 ? d : rho;
  const double cutoff = kind == 0 ? 1.6 : kind == 1 ? 2. : kind == 2 ? 0.8 : 0.6;
  std::unique_ptr<TwoBodyDecay> t;
  if (kind == 3) t = std::make_unique<TwoBodyDecayUnstable>(ParticleTypePtrList{&a, &b}, 1);
  else t = std::make_unique<TwoBodyDecaySemistable>(kind == 2 ? ParticleTypePtrList{&b, &a} : ParticleTypePtrList{&a, &b}, 1);
  const double th = a.mass() + b.mass(), m0 = vc_double("m0", 0.3, 6), m = vc_double("m", 0.3, 8), G = vc_double("G", 0, 1);
  VC_ASSUME(m0 > th && m > th);
#ifndef VC_NATIVE
  pole = m0;
  rho_pole = vc_double("rho_pole", 1e-6, 10);
  rho_now = vc_double("rho_now", 0, 10);
  VC_EQ(t->width(m0, G, m0), G, "the width at the pole is as given");
  VC_ASSUME(m != m0);
  VC_EQ(t->width(m0, G, m) * rho_pole, G * rho_now * cut(m, m0, th, cutoff), "width grows with phase space and is cut off");
  const double ma = vc_double("ma", 0.1, 2), mb = vc_double("mb", 0.1, 2);
  VC_ASSUME(m > ma + mb);
  constexpr double R = 1. / hbarc;
  const double q = pCM(m, ma, mb);
  VC_EQ(t->in_width(m0, G, m, ma, mb) * (m * rho_pole), G * q * barrier(q * R, 1) * cut(m, m0, th, cutoff), "formation from products of given masses");
#endif
}
VC_PROOF(semistable_meson) { resonance_width(0); }
VC_PROOF(semistable_baryon) { resonance_width(1); }
VC_PROOF(semistable_rho_pi) { resonance_width(2); }
VC_PROOF(unstable) { resonance_width(3); }
// channels are chosen according to their weights
struct Chooser : Action {
  using Action::Action;
  void generate_final_state() override {}
  double get_total_weight() const override { return 0; }
  double get_partial_weight() const override { return 0; }
  void format_debug_output(std::ostream &) const override {}
};
VC_PROOF(choice_of_channel) {
  VC_CONFIG("merge=0");
  install_types();
  const ParticleData p(vc_type(T_P));
  Chooser a(ParticleList{p}, 0.);
  AnyMode t;
  DecayBranchList l;
  double total = 0, w[3];
  Chooser b(ParticleList{p}, 0.);
  for (int i = 0; i < 3; i++) {
    w[i] = vc_double(W[i], 0, 10);
    auto branch = std::make_unique<DecayBranch>(t, w[i]);
    const size_t had = l.size();
    if (i == 1) {
      DecayBranchPtr one = std::move(branch);
      a.add_process<DecayBranch>(one, l, total);
    } else {
      DecayBranchList more;
      more.push_back(std::move(branch));
      a.add_processes<DecayBranch>(std::move(more), l, total);
    }
    (void)had;
  }
  VC_EQ(total, w[0] + w[1] + w[2], "the total weight is the sum");
  VC_EQ(total_weight<DecayBranch>(l), total, "of all channels");
  VC_ASSUME(total > 0.01);
  const double u = vc_draw(0) * total;
  VC_ASSUME(u > 0);
  const DecayBranch *c = a.choose_channel<DecayBranch>(l, total);
  double sum = 0;
  int chosen = -1, k = 0;
  for (int i = 0; i < 3; i++) {
    if (k < (int)l.size() && l[k]->weight() == w[i]) {
      if (c == l[k].get()) chosen = i;
      k++;
    }
  }
  VC_ASSERT(chosen >= 0, "one of the channels is chosen");
  for (int i = 0; i < chosen; i++) sum += w[i];
  if (!vc_symbolic()) VC_ASSUME(std::abs(u - sum) > 1e-9 && std::abs(u - sum - w[chosen]) > 1e-9);
  VC_ASSERT(u > sum && u <= sum + w[chosen], "with a probability in proportion to its weight");
}
