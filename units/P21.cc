// P21: reactions of three to five particles
//@sources @types_support.cc @rbtree.cc scatteractionmulti.cc action.cc processbranch.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc crosssections.cc scatteraction.cc parametrizations.cc isoparticletype.cc decaymodes.cc decaytype.cc decayaction.cc potentials.cc density.cc clebschgordan.cc clebschgordan_lookup.cc tabulation.cc stringfunctions.cc inputfunctions.cc sha256.cc fpenvironment.cc
#include <cmath>
#include <memory>
#include "types.h"
#include "smash/crosssections.h"
#include "smash/kinematics.h"
#include "smash/parametrizations.h"
#include "smash/scatteractionmulti.h"
// types taking part
enum { PIP, PIZ, PIM, ETA, ETAP, OMEGA, PHI, P, N, AP, AN, LA, ALA, D, AD, T, AT, HE, AHE, HT, AHT, COUNT };
static PdgCode code(int i) {
  switch (i) {
    case D: return pdg::deuteron;
    case AD: return pdg::antideuteron;
    case T: return pdg::triton;
    case AT: return pdg::antitriton;
    case HE: return pdg::he3;
    case AHE: return pdg::antihe3;
    case HT: return pdg::hypertriton;
    case AHT: return pdg::antihypertriton;
  }
  const std::int32_t c[] = {0x211, 0x111, -0x211, 0x221, 0x331, 0x223, 0x333, 0x2212, 0x2112, -0x2212, -0x2112, 0x3122, -0x3122};
  return PdgCode(c[i]);
}
static const double masses[COUNT] = {0.138, 0.138, 0.138, 0.548, 0.958, 0.783, 1.019, 0.938, 0.938, 0.938, 0.938, 1.116, 1.116, 1.8756, 1.8756, 2.8089, 2.8089, 2.8084, 2.8084, 2.991, 2.991};
static void install() {
  if (vc_types) delete vc_types;
  vc_types = new ParticleTypeList;
  vc_types->reserve(COUNT);
  for (int i = 0; i < COUNT; i++) vc_types->emplace_back("x", masses[i], 0., Parity::Pos, code(i));
  std::sort(vc_types->begin(), vc_types->end());
  vc_set_types(vc_types);
}
static const ParticleType &type(int i) { return ParticleType::find(code(i)); }
// probabilities: recorded with the degeneracy factor they are asked for
static int asked;
static double degeneracy[8];
#ifndef VC_NATIVE
// contract of the constructor from long codes (P03): digits 10LZZZAAAI
extern "C" void vcstub__ZN5smash7PdgCodeC2IlEET_NSt9enable_ifIXaasr3stdE13is_integral_vIS2_EltLi4EstS2_EbE4typeE(PdgCode *p, std::int64_t code, bool) {
  const std::int64_t c = code < 0 ? -code : code;
  const auto digit = [c](int i) { return static_cast<int>(c >> (4 * i) & 15); };
  p->dump_ = 0;
  p->nucleus_.is_nucleus_ = true;
  p->nucleus_.antiparticle_ = code < 0;
  p->nucleus_.I_ = digit(0);
  p->nucleus_.A_ = digit(1) + 10 * digit(2) + 100 * digit(3);
  p->nucleus_.Z_ = digit(4) + 10 * digit(5) + 100 * digit(6);
  p->nucleus_.n_Lambda_ = digit(7);
}
extern "C" double vcstub__ZNK5smash18ScatterActionMulti24probability_three_to_oneERKNS_12ParticleTypeEddi(const ScatterActionMulti *, const ParticleType &, double, double, int d) {
  degeneracy[asked++] = d;
  return 0.125;
}
extern "C" double vcstub__ZNK5smash18ScatterActionMulti24probability_three_to_twoERKNS_12ParticleTypeES3_ddd(const ScatterActionMulti *, const ParticleType &, const ParticleType &, double, double, double d) {
  degeneracy[asked++] = d;
  return 0.125;
}
extern "C" double vcstub__ZNK5smash18ScatterActionMulti23probability_four_to_twoERKNS_12ParticleTypeES3_ddd(const ScatterActionMulti *, const ParticleType &, const ParticleType &, double, double, double d) {
  degeneracy[asked++] = d;
  return 0.125;
}
extern "C" double vcstub__ZNK5smash18ScatterActionMulti23probability_five_to_twoEdddd(const ScatterActionMulti *, double, double, double, double d) {
  degeneracy[asked++] = d;
  return 0.125;
}
#endif
// reactions of the given species: conserve charges, are those expected and have the right degeneracy factor
static void reactions(const int *species, int n, IncludedMultiParticleReactions kind, ProcessType process, int expected) {
  ParticleList in;
  int charge = 0, baryon = 0, strange = 0, spins = 1, equal = 1;
  for (int i = 0; i < n; i++) {
    ParticleData p(type(species[i]), i);
    p.set_4momentum(p.pole_mass(), 0.1 * i, 0, 0.2);
    p.set_formation_time(0.);
    in.push_back(p);
    charge += p.type().charge();
    baryon += p.type().baryon_number();
    strange += p.type().strangeness();
    spins *= p.type().spin() + 1;
    int k = 1;
    for (int j = 0; j < i; j++) k += species[j] == species[i];
    equal *= k;
  }
  ScatterActionMulti s(in, 0.);
  MultiParticleReactionsBitSet bits;
  bits.set(kind);
  asked = 0;
  s.add_possible_reactions(0.1, 10., bits);
  const auto &channels = s.reaction_channels_;
#ifndef VC_NATIVE
  VC_ASSERT(static_cast<int>(channels.size()) == expected, "reactions possible");
  VC_EQ(s.get_total_weight(), 0.125 * expected, "probabilities add up");
#endif
  int k = 0;
  for (const auto &c : channels) {
    int q = charge, b = baryon, st = strange, spins_out = 1;
    for (const auto &t : c->particle_types()) {
      q -= t->charge();
      b -= t->baryon_number();
      st -= t->strangeness();
      spins_out *= t->spin() + 1;
    }
    VC_ASSERT(q == 0, "charge is conserved");
    VC_ASSERT(b == 0, "baryon number is conserved");
    VC_ASSERT(st == 0, "strangeness is conserved");
    VC_ASSERT(c->get_type() == process, "type of the process");
#ifndef VC_NATIVE
    VC_EQ(degeneracy[asked == 1 ? 0 : process == ProcessType::MultiParticleFiveToTwo ? 0 : k] * spins, spins_out * equal, "spin states of products over those of incoming ones, times permutations of equal ones");
#endif
    k++;
  }
}
static int count(const int *s, int n, int x) {
  int c = 0;
  for (int i = 0; i < n; i++) c += s[i] == x;
  return c;
}
// three mesons to one
static void mesons(int first) {
  VC_CONFIG("merge=0");
  install();
  const int kinds[] = {PIP, PIZ, PIM, ETA};
  int s[] = {kinds[first], kinds[vc_choose("b", 4)], kinds[vc_choose("c", 4)]};
#ifdef VC_NATIVE
  return;  // widths and spectral functions are not available
#endif
  const int p = count(s, 3, PIP), z = count(s, 3, PIZ), m = count(s, 3, PIM), e = count(s, 3, ETA);
  const int expected = p == 1 && z == 1 && m == 1 ? 2 : e == 1 && ((p == 1 && m == 1) || z == 2) ? 1 : 0;
  reactions(s, 3, IncludedMultiParticleReactions::Meson_3to1, ProcessType::MultiParticleThreeMesonsToOne, expected);
}
VC_PROOF(mesons_pip) { mesons(0); }
VC_PROOF(mesons_piz) { mesons(1); }
VC_PROOF(mesons_pim) { mesons(2); }
VC_PROOF(mesons_eta) { mesons(3); }
// deuterons: a proton and a neutron (or their antiparticles) with a pion or a nucleon of either kind
static void deuterons(int first) {
  VC_CONFIG("merge=0");
  install();
  const int kinds[] = {PIP, PIZ, P, N, AP, AN, LA};
  int s[] = {kinds[first], kinds[vc_choose("b", 7)], kinds[vc_choose("c", 7)]};
  const int p = count(s, 3, P), n = count(s, 3, N), ap = count(s, 3, AP), an = count(s, 3, AN), la = count(s, 3, LA);
  const int expected = la == 0 && ((p && n) || (ap && an)) ? 1 : 0;
  reactions(s, 3, IncludedMultiParticleReactions::Deuteron_3to2, ProcessType::MultiParticleThreeToTwo, expected);
}
VC_PROOF(deuterons_pip) { deuterons(0); }
VC_PROOF(deuterons_piz) { deuterons(1); }
VC_PROOF(deuterons_p) { deuterons(2); }
VC_PROOF(deuterons_n) { deuterons(3); }
VC_PROOF(deuterons_ap) { deuterons(4); }
VC_PROOF(deuterons_an) { deuterons(5); }
VC_PROOF(deuterons_la) { deuterons(6); }
// tritons, helium-3 and hypertritons with a nucleon of either kind or a pion
static void nuclei(int first) {
  VC_CONFIG("merge=0");
  install();
  const int kinds[] = {PIP, P, N, LA, AP, AN, ALA};
  const int b = first + vc_choose("b", 7 - first), c = b + vc_choose("c", 7 - b), d = c + vc_choose("d", 7 - c);
  int s[] = {kinds[c], kinds[first], kinds[d], kinds[b]};
  const int k[] = {count(s, 4, P), count(s, 4, N), count(s, 4, LA), count(s, 4, AP), count(s, 4, AN), count(s, 4, ALA)};
  const int parts[][3] = {{1, 2, 0}, {2, 1, 0}, {1, 1, 1}};
  int expected = 0;
  for (int anti = 0; anti < 2; anti++)
    for (const auto &x : parts) {
      bool ok = true;
      for (int i = 0; i < 3; i++) ok = ok && k[3 * anti + i] >= x[i];
      // what is left is a pion or a nucleon of either kind
      int left[6];
      for (int i = 0; i < 6; i++) left[i] = k[i] - (i / 3 == anti ? x[i % 3] : 0);
      if (ok && left[2] == 0 && left[5] == 0) expected++;
    }
  reactions(s, 4, IncludedMultiParticleReactions::A3_Nuclei_4to2, ProcessType::MultiParticleFourToTwo, expected);
}
VC_PROOF(nuclei_pip) { nuclei(0); }
VC_PROOF(nuclei_p) { nuclei(1); }
VC_PROOF(nuclei_n) { nuclei(2); }
VC_PROOF(nuclei_la) { nuclei(3); }
VC_PROOF(nuclei_anti) { nuclei(4); }
// two pions of either charge and a neutral one
VC_PROOF(five_pions) {
  VC_CONFIG("merge=0");
  install();
  const int kinds[] = {PIP, PIZ, PIM, P};
  int s[] = {kinds[vc_choose("a", 4)], kinds[vc_choose("b", 3)], kinds[vc_choose("c", 3)], kinds[vc_choose("d", 3)], kinds[vc_choose("e", 3)]};
  const int expected = count(s, 5, PIP) == 2 && count(s, 5, PIM) == 2 && count(s, 5, PIZ) == 1 ? 2 : 0;
  reactions(s, 5, IncludedMultiParticleReactions::NNbar_5to2, ProcessType::MultiParticleFiveToTwo, expected);
}
// nothing happens unless wanted, or in other numbers
VC_PROOF(nothing_else) {
  VC_CONFIG("merge=0");
  install();
  const int n = 2 + vc_choose("n", 5);
  const int wanted = vc_choose("wanted", 2);
  const int s[] = {PIP, PIM, P, N, PIZ, P};
  ParticleList in;
  for (int i = 0; i < n; i++) {
    in.push_back(ParticleData(type(n == 3 ? s[i + 1] : s[i])));
    in.back().set_formation_time(0.);
  }
  ScatterActionMulti a(in, 0.);
  MultiParticleReactionsBitSet bits;
  if (wanted) bits.set();
  asked = 0;
  if (!wanted || n == 2 || n == 6) {
    a.add_possible_reactions(0.1, 10., bits);
    VC_ASSERT(asked == 0 && a.reaction_channels_.empty() && a.get_total_weight() == 0, "none");
  }
}
