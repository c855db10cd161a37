// P08: conserved quantities are added up over particles, and an action that breaks one is refused
//@sources @types_support.cc action.cc quantumnumbers.cc processbranch.cc particles.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc
//@native random.cc logging.cc
//@bounded perform_replaces perform_updates
#include "types.h"
#include "smash/action.h"
#include "smash/potential_globals.h"
#include "smash/quantumnumbers.h"
#include "pdg_common.h"

class Act : public Action {
 public:
  Act(const ParticleList &in, const ParticleList &out, ProcessType t, double when) : Action(in, out, when, t) {}
  double get_total_weight() const override { return 1; }
  double get_partial_weight() const override { return 1; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &) const override {}
};
// numbers that are either equal or clearly different
static ParticleData any_particle(int type, const char *E, const char *x, const char *y, const char *z) {
  ParticleData p(vc_type(type));
  p.set_4momentum(FourVector(vc_double(E, -50, 50), vc_double(x, -50, 50), vc_double(y, -50, 50), vc_double(z, -50, 50)));
  return p;
}
// one more particle in the sum: any valid code, any totals so far
VC_PROOF(adding_a_particle) {
  install_types();
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!d.anti || !spec_selfconj(d));
  PdgCode code = make(d);
  ParticleType &type = const_cast<ParticleType &>(vc_type(T_DELTA));
  type.pdgcode_ = code;
  ParticleData p(type);
  p.set_4momentum(FourVector(vc_double("E", -50, 50), vc_double("px", -50, 50), vc_double("py", -50, 50), vc_double("pz", -50, 50)));
  int q = vc_int("q", -9999, 9999), i3 = vc_int("i3", -9999, 9999), s = vc_int("s", -9999, 9999), c = vc_int("c", -9999, 9999),
      b = vc_int("b", -9999, 9999), B = vc_int("B", -9999, 9999);
  FourVector P(vc_double("E0", -50, 50), vc_double("px0", -50, 50), vc_double("py0", -50, 50), vc_double("pz0", -50, 50));
  QuantumNumbers n(P, q, i3, s, c, b, B);
  n.add_values(p);
  for (int i = 0; i < 4; i++) VC_EQ(n.momentum()[i], P[i] + p.momentum()[i], "four-momentum is added");
  VC_ASSERT(n.charge() == q + code.charge(), "charge is added");
  VC_ASSERT(n.isospin3() == i3 + code.isospin3(), "isospin is added");
  VC_ASSERT(n.strangeness() == s + code.strangeness(), "strangeness is added");
  VC_ASSERT(n.charmness() == c + code.charmness(), "charm is added");
  VC_ASSERT(n.bottomness() == b + code.bottomness(), "bottomness is added");
  VC_ASSERT(n.baryon_number() == B + code.baryon_number(), "baryon number is added");
}
VC_PROOF(empty_totals) {
  QuantumNumbers n, m{ParticleList{}};
  for (int i = 0; i < 4; i++) VC_ASSERT(n.momentum()[i] == 0 && m.momentum()[i] == 0, "no particles, no momentum");
  VC_ASSERT(n.charge() == 0 && n.isospin3() == 0 && n.strangeness() == 0 && n.charmness() == 0 && n.bottomness() == 0 && n.baryon_number() == 0,
            "no particles, no quantum numbers");
  VC_ASSERT(m == n && !(m != n), "no particles, equal totals");
}
static QuantumNumbers any_numbers(int *v, const char *const *nm, const FourVector &P) {
  for (int i = 0; i < 6; i++) v[i] = vc_int(nm[i], -2, 2);
  return QuantumNumbers(P, v[0], v[1], v[2], v[3], v[4], v[5]);
}
// 0: equal, else clearly different
static double shifted(double x, bool same) { return same ? x : x + 1; }
VC_PROOF(comparison) {
  static const char *const na[] = {"q", "i", "s", "c", "b", "B"};
  static const char *const nb[] = {"q2", "i2", "s2", "c2", "b2", "B2"};
  int a[6], b[6];
  bool k0 = vc_bool("k0"), k1 = vc_bool("k1"), k2 = vc_bool("k2"), k3 = vc_bool("k3");
  double E = vc_double("E", 0, 50), x = vc_double("px", 0, 50), y = vc_double("py", 0, 50), z = vc_double("pz", 0, 50);
  QuantumNumbers A = any_numbers(a, na, FourVector(E, x, y, z));
  QuantumNumbers B = any_numbers(b, nb, FourVector(shifted(E, k0), shifted(x, k1), shifted(y, k2), shifted(z, k3)));
  bool same = k0 && k1 && k2 && k3;
  for (int i = 0; i < 6; i++) same = same && a[i] == b[i];
  VC_ASSERT((A == B) == same, "totals are equal when every one is");
  VC_ASSERT((A != B) == !same, "and differ when any one does");
  QuantumNumbers D = A - B;
  VC_ASSERT(D.charge() == a[0] - b[0] && D.isospin3() == a[1] - b[1] && D.strangeness() == a[2] - b[2] && D.charmness() == a[3] - b[3] &&
            D.bottomness() == a[4] - b[4] && D.baryon_number() == a[5] - b[5], "differences are taken number by number");
  VC_EQ(D.momentum()[0], E - shifted(E, k0), "also of the energy");
}
// every process type; particles of the table with any momenta
static bool conserved(const ParticleList &in, const ParticleList &out, bool k0, bool k3) {
  int d[6] = {0, 0, 0, 0, 0, 0};
  for (int s = 0; s < 2; s++)
    for (const auto &p : s ? in : out) {
      int g = s ? 1 : -1;
      d[0] += g * p.pdgcode().charge();
      d[1] += g * p.pdgcode().isospin3();
      d[2] += g * p.pdgcode().strangeness();
      d[3] += g * p.pdgcode().charmness();
      d[4] += g * p.pdgcode().bottomness();
      d[5] += g * p.pdgcode().baryon_number();
    }
  for (int i = 0; i < 6; i++)
    if (d[i] != 0) return false;
  return k0 && k3;
}
static const ProcessType all_types[] = {
    ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::TwoToThree, ProcessType::TwoToFour,
    ProcessType::TwoToFive, ProcessType::Decay, ProcessType::Wall, ProcessType::Thermalization, ProcessType::Fluidization,
    ProcessType::FluidizationNoRemoval, ProcessType::Bremsstrahlung, ProcessType::MultiParticleThreeMesonsToOne,
    ProcessType::MultiParticleThreeToTwo, ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo,
    ProcessType::StringSoftSingleDiffractiveAX, ProcessType::StringSoftSingleDiffractiveXB, ProcessType::StringSoftDoubleDiffractive,
    ProcessType::StringSoftAnnihilation, ProcessType::StringSoftNonDiffractive, ProcessType::StringHard, ProcessType::FailedString,
    ProcessType::Freeforall};
static const int n_types = sizeof(all_types) / sizeof(*all_types);
static bool tolerated(ProcessType t, const ParticleData &first) {
  switch (t) {
    case ProcessType::StringSoftSingleDiffractiveAX:
    case ProcessType::StringSoftSingleDiffractiveXB:
    case ProcessType::StringSoftDoubleDiffractive:
    case ProcessType::StringSoftAnnihilation:
    case ProcessType::StringSoftNonDiffractive:
    case ProcessType::StringHard:
    case ProcessType::Freeforall:
      return true;
    case ProcessType::Decay:
      return first.type().is_stable();
    default:
      return false;
  }
}
static void refusal(int ta, int tb, int tc, int td) {
  VC_CONFIG("strings=0");
  install_types();
  bool k0 = vc_bool("k0"), k3 = vc_bool("k3");
  ParticleList in{any_particle(ta, "E1", "x1", "y1", "z1"), any_particle(tb, "E2", "x2", "y2", "z2")};
  ParticleList out{ParticleData(vc_type(tc)), ParticleData(vc_type(td))};
  FourVector P = in[0].momentum() + in[1].momentum();
  FourVector give(vc_double("E3", -50, 50), vc_double("x3", -50, 50), vc_double("y3", -50, 50), vc_double("z3", -50, 50));
  if (!vc_symbolic()) VC_ASSUME(std::abs(P.x0()) > 0.01 && std::abs(P.x1()) > 0.01 && std::abs(P.x2()) > 0.01 && std::abs(P.x3()) > 0.01);
  out[0].set_4momentum(give);
  out[1].set_4momentum(FourVector(shifted(P[0], k0) - give[0], P[1] - give[1], P[2] - give[2], shifted(P[3], k3) - give[3]));
  VC_ASSUME(std::abs(P[0]) < 40 && std::abs(P[3]) < 40);
  ProcessType type = all_types[vc_choose("type", n_types)];
  Act a(in, out, type, 1.);
  bool threw = false;
  double dE = 0;
  try {
    dE = a.check_conservation(vc_u32("id"));
  } catch (const std::runtime_error &) {
    threw = true;
  }
  bool ok = conserved(in, out, k0, k3);
  VC_ASSERT(threw == (!ok && !tolerated(type, in[0])), "refused exactly if a conserved quantity changes and the process may not change it");
  bool is_string = type == ProcessType::StringHard || is_string_soft_process(type);
  if (!threw) VC_EQT(dE, (is_string && !ok && !k0) ? 1. : 0., 1e-6, "the energy violation of string processes is reported");
}
VC_PROOF(refusal_same) { refusal(T_P, T_PIM, T_P, T_PIM); }
VC_PROOF(refusal_exchange) { refusal(T_P, T_PIM, T_N, T_PIZ); }
VC_PROOF(refusal_charge) { refusal(T_P, T_PIM, T_P, T_PIZ); }
VC_PROOF(refusal_strange) { refusal(T_LAMBDA, T_PIZ, T_N, T_PIZ); }
VC_PROOF(refusal_baryon) { refusal(T_RHO, T_PIP, T_DELTA, T_PIM); }
VC_PROOF(refusal_resonance) { refusal(T_DELTA, T_PIM, T_P, T_PIP); }

// carrying out an action on a list of three particles, the first two of which interact
static ParticleData list_member(Particles &P, int type, const char *E, const char *x, const char *y, const char *z, const char *n) {
  ParticleData p = any_particle(type, E, x, y, z);
  HistoryData h;
  h.collisions_per_particle = vc_int(n, 0, 1000);
  h.id_process = 7;
  h.process_type = ProcessType::TwoToOne;
  h.p1 = PdgCode(0x111);
  p.set_history(std::move(h));
  return P.insert(p);
}
static bool same_particle(const ParticleData &a, const ParticleData &b) {
  bool r = a.id() == b.id() && a.pdgcode() == b.pdgcode() && a.get_history().collisions_per_particle == b.get_history().collisions_per_particle &&
           a.get_history().id_process == b.get_history().id_process;
  for (int i = 0; i < 4; i++) r = r && a.momentum()[i] == b.momentum()[i] && a.position()[i] == b.position()[i];
  return r;
}
static void performing(ProcessType type, int tc, int td) {
  install_types();
  Particles P;
  ParticleData a = list_member(P, T_P, "E1", "x1", "y1", "z1", "n1"), b = list_member(P, T_PIM, "E2", "x2", "y2", "z2", "n2"),
               c = list_member(P, T_PIZ, "E3", "x3", "y3", "z3", "n3");
  ParticleList out{ParticleData(vc_type(tc)), ParticleData(vc_type(td))};
  bool collision = type != ProcessType::Wall && type != ProcessType::FluidizationNoRemoval;
  bool in_place = type == ProcessType::Elastic || !collision;
  if (in_place) out = {a, b};
  FourVector give(vc_double("E4", -50, 50), vc_double("x4", -50, 50), vc_double("y4", -50, 50), vc_double("z4", -50, 50));
  out[0].set_4momentum(give);
  out[1].set_4momentum(a.momentum() + b.momentum() - give);
  FourVector at(vc_double("t5", 0, 50), vc_double("x5", -50, 50), vc_double("y5", -50, 50), vc_double("z5", -50, 50));
  out[0].set_4position(at);
  out[1].set_4position(at);
  double when = vc_double("when", 0, 100);
  Act act({a, b}, out, type, when);
  uint32_t id = vc_u32("id");
  VC_ASSUME(id > 0 && id != 7);
  VC_ASSERT(act.is_valid(P), "the action is valid before");
  act.perform(&P, id);
  VC_ASSERT(P.size() == 3, "as many particles as before");
  int seen = 0;
  for (const ParticleData &p : P) {
    if (p.id() == c.id()) {
      seen += 100;
      VC_ASSERT(same_particle(p, c), "a bystander is left alone");
      continue;
    }
    int k = -1;
    for (int i = 0; i < 2; i++)
      if (act.outgoing_particles()[i].id() == p.id()) k = i;
    VC_ASSERT(k >= 0, "the particles in the list are those the action returned");
    if (k < 0) continue;
    seen += k == 0 ? 1 : 10;
    VC_ASSERT(p.pdgcode() == out[k].pdgcode(), "with their species");
    for (int i = 0; i < 4; i++) {
      VC_EQ(p.momentum()[i], out[k].momentum()[i], "with their momenta");
      VC_EQ(p.position()[i], at[i], "at their positions");
    }
    if (in_place)
      VC_ASSERT(p.id() == (k == 0 ? a : b).id(), "scattered particles keep their identity");
    else
      VC_ASSERT(p.id() > c.id(), "new particles have new identities");
    const HistoryData h = p.get_history();
    const ParticleData &old = k == 0 ? a : b;
    if (collision) {
      int before = in_place ? old.get_history().collisions_per_particle : out[k].get_history().collisions_per_particle;
      VC_ASSERT(h.collisions_per_particle == before + 1, "one more collision is counted");
      VC_ASSERT(h.id_process == id && h.process_type == type, "the history names the process");
      VC_EQ(h.time_last_collision, when, "and its time");
    } else {
      VC_ASSERT(h.collisions_per_particle == old.get_history().collisions_per_particle && h.id_process == old.get_history().id_process,
                "crossing a wall is no collision");
    }
    if (type == ProcessType::TwoToTwo) VC_ASSERT(h.p1 == a.pdgcode() && h.p2 == b.pdgcode(), "the parents are recorded");
    if (in_place) VC_ASSERT(h.p1 == PdgCode(0x111), "scattering does not change the parents");
  }
  VC_ASSERT(seen == 1 + 10 + 100, "each is there once");
  VC_ASSERT(!act.is_valid(P) == collision, "an action cannot be carried out twice");
}
VC_PROOF(perform_replaces) { performing(ProcessType::TwoToTwo, T_N, T_PIZ); }
VC_PROOF(perform_updates) {
  int k = vc_choose("kind", 3);
  performing(k == 0 ? ProcessType::Elastic : k == 1 ? ProcessType::Wall : ProcessType::FluidizationNoRemoval, T_P, T_PIM);
}
