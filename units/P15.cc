// P15: formation of hadrons and the history they carry
//@sources @types_support.cc action.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc
//@bounded assign_two assign_three
#include <cmath>
#include "types.h"
#include "smash/action.h"
#include "smash/constants.h"
static const double NaN = smash_NaN<double>;
static double scaled(double begin, double end, double initial, double now, double dt) {
  ParticleData p(vc_type(T_PIP));
  p.set_4position(FourVector(now, 1, 2, 3));
  p.set_slow_formation_times(begin, end);
  p.set_cross_section_scaling_factor(initial);
  return p.xsec_scaling_factor(dt);
}
struct Power {
  double old = ParticleData::formation_power_;
  explicit Power(double p) { ParticleData::formation_power_ = p; }
  ~Power() { ParticleData::formation_power_ = old; }
};
VC_PROOF(step_function) {
  install_types();
  Power w(0.);
  double begin = vc_double("begin", 0, 50), end = vc_double("end", 0, 50), f = vc_double("f", 0, 1), now = vc_double("now", 0, 50), dt = vc_double("dt", 0, 10);
  if (!vc_symbolic()) VC_ASSUME(std::abs(now + dt - end) > 1e-9);
  double s = scaled(begin, end, f, now, dt);
  VC_ASSERT(s == (now + dt < end ? f : 1.), "cross sections are scaled until the hadron is formed");
}
VC_PROOF(gradual) {
  install_types();
  Power w(vc_double("power", 0.1, 4));
  double begin = vc_double("begin", 0, 50), end = vc_double("end", 0, 50), f = vc_double("f", 0, 1), t = vc_double("t", 0, 50), dt = vc_double("dt", 0, 10);
  VC_ASSUME(begin <= end);
  if (!vc_symbolic()) VC_ASSUME(std::abs(t - end) > 1e-6 && std::abs(t - begin) > 1e-6 && (t < begin || t > end || (t - begin > 0.02 * (end - begin) && end - t > 1e-6 * (end - begin))));
  double s = scaled(begin, end, f, t, 0.);
  VC_LE(f, s, "never less than the initial factor");
  VC_LE(s, 1, "never more than one");
  if (t <= begin && t < end) VC_ASSERT(s == f, "nothing happens before formation begins");
  if (t >= end) VC_ASSERT(s == 1, "formed in the end");
  if (t > begin && t < end && f < 1 - 1e-3) VC_ASSERT(s > f && s < 1, "growing in between");
  VC_EQ(scaled(begin, end, f, t - dt, dt), s, "time steps are added to the present time");
}
VC_PROOF(growing) {
  install_types();
  Power w(vc_double("power", 0.1, 4));
  double begin = vc_double("begin", 0, 50), end = vc_double("end", 0, 50), f = vc_double("f", 0, 1), t = vc_double("t", 0, 50), dt = vc_double("dt", 0, 10);
  VC_ASSUME(begin <= end);
  double s = scaled(begin, end, f, t, 0.), later = scaled(begin, end, f, t, dt);
  VC_LE(s, later, "cross sections never shrink during formation");
}
VC_PROOF(linear_growth) {
  install_types();
  Power w(1.);
  double begin = vc_double("begin", 0, 50), end = vc_double("end", 0, 50), f = vc_double("f", 0, 1), t = vc_double("t", 0, 50);
  VC_ASSUME(begin + 0.1 < t && t < end - 0.1);
  VC_EQ(scaled(begin, end, f, t, 0.), f + (1 - f) * (t - begin) / (end - begin), "linearly for power one");
}
VC_PROOF(unset_times) {
  install_types();
  Power w(vc_choose("power", 2));
  ParticleData p(vc_type(T_PIP));
  p.set_4position(FourVector(vc_double("t", 0, 50), 1, 2, 3));
  double s = p.xsec_scaling_factor(0.1);
  VC_ASSERT(s != s, "no scaling factor without formation time");
  VC_ASSERT(p.initial_xsec_scaling_factor() == 1., "hadrons are formed unless told otherwise");
}
VC_PROOF(setting_times) {
  install_types();
  double t = vc_double("t", 0, 50), b = vc_double("b", 0, 50), e = vc_double("e", 0, 50);
  ParticleData p(vc_type(T_PIP)), q(vc_type(T_P));
  p.set_formation_time(t);
  VC_ASSERT(p.formation_time() == t && p.begin_formation_time() == t, "a single formation time");
  VC_ASSERT(p.get_history().time_last_collision == t, "takes the place of a missing collision time");
  q.set_slow_formation_times(b, e);
  VC_ASSERT(q.formation_time() == e && q.begin_formation_time() == b, "two times");
  VC_ASSERT(q.get_history().time_last_collision == e, "takes the place of a missing collision time");
  p.set_history(3, 7, ProcessType::Elastic, 1.25, {q, q});
  p.set_formation_time(e);
  VC_ASSERT(p.get_history().time_last_collision == 1.25, "a known collision time stays");
  p.set_slow_formation_times(b, t);
  VC_ASSERT(p.get_history().time_last_collision == 1.25, "a known collision time stays");
}
// an action whose products get their formation times
struct Process : Action {
  using Action::Action;
  void generate_final_state() override {}
  double get_total_weight() const override { return 0; }
  double get_partial_weight() const override { return 0; }
  void format_debug_output(std::ostream &) const override {}
};
static ParticleData incoming(int type, double begin, double end, double f) {
  ParticleData p(vc_type(type));
  p.set_4position(FourVector(1., 0, 0, 0));
  p.set_4momentum(0.138, 0, 0, 0);
  p.set_slow_formation_times(begin, end);
  p.set_cross_section_scaling_factor(f);
  return p;
}
static const char *const NB[] = {"b0", "b1", "b2"}, *const NE[] = {"e0", "e1", "e2"}, *const NF[] = {"f0", "f1", "f2"};
static void assign(int n) {
  VC_CONFIG("merge=0");
  install_types();
  double b[3], e[3], f[3];
  ParticleList in;
  for (int i = 0; i < n; i++) {
    b[i] = vc_double(NB[i], 0, 50), e[i] = vc_double(NE[i], 0, 50), f[i] = vc_double(NF[i], 0, 1);
    in.push_back(incoming(i ? T_PIP : T_P, b[i], e[i], f[i]));
  }
  double t = vc_double("t", 0, 50), fo = vc_double("fo", 0, 1), eo = vc_double("eo", 0, 50), bo = vc_double("bo", 0, 50);
  if (!vc_symbolic())
    for (int i = 0; i < n; i++) {
      VC_ASSUME(std::abs(e[i] - t) > 1e-5);
      for (int j = 0; j < i; j++) VC_ASSUME(std::abs(e[i] - e[j]) > 1e-5 || e[i] == e[j]);
    }
  else
    for (int i = 0; i < n; i++)   // (times that agree within 1e-6 fm count as equal)
      for (int j = 0; j < i; j++) VC_ASSUME(e[i] == e[j] || e[i] > e[j] + really_small || e[j] > e[i] + really_small);
  // an ordinary product and a string fragment
  ParticleList out{ParticleData(vc_type(T_PIM)), incoming(T_PIZ, bo, eo, fo)};
  Process a(in, out, t, ProcessType::TwoToTwo);
  a.assign_formation_time_to_outgoing_particles();
  // the one that forms last, of several the one that is least formed
  int last = 0;
  for (int i = 1; i < n; i++)
    if (e[i] > e[last]) last = i;
  bool same = true;
  for (int i = 0; i < n; i++) same = same && e[i] == e[0];
  bool unique = true;
  for (int i = 0; i < n; i++) unique = unique && (i == last || e[i] < e[last]);
  if (same) {
    for (int i = 0; i < n; i++)
      if (f[i] < f[last]) last = i;
    unique = true;
    for (int i = 0; i < n; i++) unique = unique && (i == last || f[i] > f[last]);
  }
  const ParticleData &p = a.outgoing_particles()[0], &s = a.outgoing_particles()[1];
  if (e[last] <= t) {
    VC_ASSERT(p.formation_time() == t && p.begin_formation_time() == t, "products of formed hadrons are formed at once");
    VC_ASSERT(p.initial_xsec_scaling_factor() == 1., "with their full cross section");
    if (fo < 1) {
      VC_ASSERT(s.formation_time() == eo && s.begin_formation_time() == bo && s.initial_xsec_scaling_factor() == fo, "string fragments keep their own times");
    } else {
      VC_ASSERT(s.formation_time() == t, "products of formed hadrons are formed at once");
    }
    return;
  }
  VC_ASSERT(p.formation_time() == e[last], "products of unformed hadrons form when the last of them would have");
  if (unique) {
    VC_ASSERT(p.begin_formation_time() == b[last], "begin included");
    VC_ASSERT(p.initial_xsec_scaling_factor() == f[last], "and inherit its scaling factor");
  }
  if (fo < 1) {
    if (unique) VC_EQ(s.initial_xsec_scaling_factor(), f[last] * fo, "string fragments multiply the factors");
    VC_ASSERT(s.formation_time() == (e[last] > eo ? e[last] : eo), "string fragments form not before the later of the two times");
    VC_ASSERT(s.begin_formation_time() == (e[last] > eo ? t : bo), "from the collision on");
  } else {
    VC_ASSERT(s.formation_time() == e[last], "products of unformed hadrons form when the last of them would have");
    if (unique) VC_ASSERT(s.initial_xsec_scaling_factor() == f[last], "and inherit its scaling factor");
  }
}
VC_PROOF(assign_one) { assign(1); }
VC_PROOF(assign_two) { assign(2); }
VC_PROOF(assign_three) { assign(3); }
// what a particle remembers of its last process
VC_PROOF(history) {
  install_types();
  ParticleData p(vc_type(T_LAMBDA));
  const ParticleList parents{ParticleData(vc_type(T_P)), ParticleData(vc_type(T_PIM)), ParticleData(vc_type(T_PIP))};
  HistoryData before;
  before.collisions_per_particle = 5, before.id_process = 11, before.process_type = ProcessType::TwoToTwo;
  before.time_last_collision = 0.5, before.p1 = PdgCode(0x22), before.p2 = PdgCode(0x3122);
  p.set_history(HistoryData(before));
  int n = vc_int("n", 0, 1000);
  uint32_t id = vc_u32("id");
  double t = vc_double("t", 0, 100);
  static const ProcessType types[] = {ProcessType::Decay, ProcessType::Wall, ProcessType::Elastic, ProcessType::FailedString, ProcessType::Fluidization,
                                      ProcessType::FluidizationNoRemoval, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::TwoToThree,
                                      ProcessType::TwoToFour, ProcessType::TwoToFive, ProcessType::StringSoftSingleDiffractiveAX, ProcessType::StringSoftSingleDiffractiveXB,
                                      ProcessType::StringSoftDoubleDiffractive, ProcessType::StringSoftAnnihilation, ProcessType::StringSoftNonDiffractive,
                                      ProcessType::StringHard, ProcessType::Bremsstrahlung, ProcessType::Thermalization, ProcessType::MultiParticleThreeMesonsToOne,
                                      ProcessType::MultiParticleThreeToTwo, ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo,
                                      ProcessType::Freeforall, ProcessType::None};
  const int k = vc_choose("type", 25);
  const ProcessType pt = types[k];
  p.set_history(n, id, pt, t, parents);
  const HistoryData h = p.get_history();
  VC_ASSERT(h.id_process == id && h.process_type == pt && p.id_process() == id, "the process is remembered");
  if (pt == ProcessType::Wall || pt == ProcessType::FluidizationNoRemoval) {
    VC_ASSERT(h.collisions_per_particle == 5 && h.time_last_collision == 0.5, "walls and tagging are no collisions");
  } else {
    VC_ASSERT(h.collisions_per_particle == n && h.time_last_collision == t, "number and time of collisions are remembered");
  }
  if (k < 2) VC_ASSERT(h.p1 == PdgCode(0x2212) && h.p2 == PdgCode(0x0), "one parent");
  else if (k < 6) VC_ASSERT(h.p1 == PdgCode(0x22) && h.p2 == PdgCode(0x3122), "elastic processes leave the parents alone");
  else if (k < 18) VC_ASSERT(h.p1 == PdgCode(0x2212) && h.p2 == PdgCode(-0x211), "two parents");
  else VC_ASSERT(h.p1 == PdgCode(0x0) && h.p2 == PdgCode(0x0), "no parents");
}
VC_PROOF(kinematics_of_particles) {
  install_types();
  ParticleData p(vc_type(T_P));
  double m = vc_double("m", 0.1, 10), x = vc_double("px", -10, 10), y = vc_double("py", -10, 10), z = vc_double("pz", -10, 10);
  ThreeVector q(x, y, z);
  p.set_4momentum(m, q);
  VC_EQT(p.momentum().sqr(), m * m, 1e-6, "on the mass shell");
  VC_EQT(p.effective_mass() * p.effective_mass(), m * m, 1e-6, "effective mass");
  ParticleData r(vc_type(T_P));
  r.set_4momentum(m, x, y, z);
  for (int i = 0; i < 4; i++) VC_EQ(r.momentum()[i], p.momentum()[i], "both forms agree");
  VC_EQT(p.inverse_gamma() * p.momentum().x0(), m, 1e-5, "Lorentz factor");
  const double energy = r.momentum()[0];
  r.set_3momentum(ThreeVector(y, z, x));
  VC_ASSERT(r.momentum()[0] == energy && r.momentum()[1] == y && r.momentum()[2] == z && r.momentum()[3] == x, "changing the direction keeps the energy");
  ParticleData g(vc_type(T_PHOTON));
  g.set_4momentum(FourVector(1, x, y, z));
  VC_ASSERT(g.effective_mass() == 0, "photons have no mass");
  p.set_4position(FourVector(m, x, y, z));
  ParticleData s = p.translated(q);
  for (int i = 0; i < 4; i++) {
    VC_EQ(s.position()[i], i == 0 ? m : 2 * p.position()[i], "translation in space");
    VC_ASSERT(s.momentum()[i] == p.momentum()[i], "only");
  }
  s.set_3position(ThreeVector(y, z, x));
  VC_ASSERT(s.position()[0] == m && s.position()[1] == y && s.position()[2] == z && s.position()[3] == x, "changing the place keeps the time");
}
VC_PROOF(boosting_particles) {
  install_types();
  ParticleData p(vc_type(T_P));
  FourVector k(vc_double("E", 1, 20), vc_double("px", -10, 10), vc_double("py", -10, 10), vc_double("pz", -10, 10)), r(1, vc_double("x", -10, 10), 2, 3);
  p.set_4momentum(k);
  p.set_4position(r);
  ThreeVector v(vc_double("vx", -0.5, 0.5), vc_double("vy", -0.5, 0.5), vc_double("vz", -0.5, 0.5));
  ParticleData q = p;
  p.boost(v);
  q.boost_momentum(v);
  for (int i = 0; i < 4; i++) {
    VC_EQ(p.momentum()[i], k.lorentz_boost(v)[i], "momentum is boosted");
    VC_EQ(q.momentum()[i], k.lorentz_boost(v)[i], "momentum is boosted");
    VC_EQ(p.position()[i], r.lorentz_boost(v)[i], "and the position with it");
    VC_EQ(q.position()[i], r[i], "or not");
  }
}
