// P13: free streaming, cosmological expansion and forces between collisions
//@sources @types_support.cc propagation.cc potentials.cc particles.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc
//@native random.cc logging.cc
//@bounded free_streaming back_to_start expansion forces_on_proton forces_on_neutron forces_on_antiproton forces_on_lambda forces_on_delta forces_on_pion skyrme_only symmetry_only coulomb_only
#include "types.h"
#include "smash/clock.h"
#include "smash/experimentparameters.h"
#include "smash/lattice.h"
#include "smash/particles.h"
#include "smash/potentials.h"
#include "smash/propagation.h"

static ParticleData any(int type, const char *const *n) {
  ParticleData p(vc_type(type));
  double E = vc_double(n[0], 0.1, 50);
  p.set_4momentum(FourVector(E, vc_double(n[1], -50, 50), vc_double(n[2], -50, 50), vc_double(n[3], -50, 50)));
  p.set_4position(FourVector(vc_double(n[4], 0, 50), vc_double(n[5], -50, 50), vc_double(n[6], -50, 50), vc_double(n[7], -50, 50)));
  p.set_formation_time(0.25);
  return p;
}
static const char *const names[2][8] = {{"E1", "px1", "py1", "pz1", "t1", "x1", "y1", "z1"}, {"E2", "px2", "py2", "pz2", "t2", "x2", "y2", "z2"}};
static bool same_momentum(const FourVector &a, const FourVector &b) {
  return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3];
}
// every particle moves on a straight line; nucleons of the initial nuclei with the beam until they collide
VC_PROOF(free_streaming) {
  install_types();
  Particles P;
  ParticleData p[2];
  for (int k = 0; k < 2; k++) {
    ParticleData a = any(k ? T_PIP : T_P, names[k]);
    HistoryData h;
    h.collisions_per_particle = vc_int(k ? "n2" : "n1", 0, 100);
    a.set_history(std::move(h));
    p[k] = P.insert(a);
  }
  std::vector<FourVector> beam(vc_choose("beams", 3));
  double Eb = vc_double("Eb", 0.1, 50), vb = vc_double("vb", -1, 1);
  for (size_t k = 0; k < beam.size(); k++) beam[k] = FourVector(Eb, 0.5 * k * Eb, 0, Eb * vb);
  double T = vc_double("T", 0, 200);
  VC_ASSUME(T >= p[0].position().x0() && T >= p[1].position().x0());
  double dt = propagate_straight_line(&P, T, beam);
  int k = 0;
  for (const ParticleData &q : P) {
    const ParticleData &o = p[k];
    bool frozen = o.id() < static_cast<int>(beam.size()) && o.get_history().collisions_per_particle == 0;
    double step = T - o.position().x0();
    const ThreeVector v = frozen ? beam[k].velocity() : o.velocity();
    VC_ASSERT(q.id() == o.id() && same_momentum(q.momentum(), o.momentum()), "momenta do not change");
    VC_ASSERT(q.position()[0] == T, "all particles arrive at the same time");
    for (int i = 0; i < 3; i++) VC_EQ(q.position()[i + 1], o.position()[i + 1] + v[i] * step, "positions move with the velocity");
    VC_ASSERT(q.formation_time() == 0.25 && q.xsec_scaling_factor() == o.xsec_scaling_factor(T - o.position().x0()), "formation is not touched");
    VC_EQ(dt, T - p[1].position().x0(), "the time step of the last particle");
    k++;
  }
  VC_ASSERT(k == 2, "no particle is lost");
}
VC_PROOF(back_to_start) {
  install_types();
  Particles P;
  ParticleData p[2];
  for (int k = 0; k < 2; k++) p[k] = P.insert(any(k ? T_PIP : T_P, names[k]));
  double T = vc_double("T", -50, 50);
  VC_ASSUME(T <= p[0].position().x0() && T <= p[1].position().x0());
  backpropagate_straight_line(&P, T);
  int k = 0;
  for (const ParticleData &q : P) {
    const FourVector &o = p[k].position();
    VC_ASSERT(q.position()[0] == T, "all particles start at the same time");
    for (int i = 0; i < 3; i++) VC_EQ(q.position()[i + 1] + p[k].velocity()[i] * (o[0] - T), o[i + 1], "free streaming leads back to where it was");
    VC_ASSERT(same_momentum(q.momentum(), p[k].momentum()), "momenta do not change");
    VC_ASSERT(q.formation_time() == o[0] && q.begin_formation_time() == o[0], "it is formed where it was given");
    VC_ASSERT(q.initial_xsec_scaling_factor() == 0., "and does not interact before");
    k++;
  }
  VC_ASSERT(k == 2, "no particle is lost");
}
// H(t) of scale factors (bt+1)^(1/2), (bt+1)^(2/3)
VC_PROOF(hubble) {
  double t = vc_double("t", 0, 200), b = vc_double("b", 1e-3, 10);
  VC_EQ(calc_hubble(t, ExpansionProperties(ExpansionMode::NoExpansion, b)), 0., "no expansion");
  VC_EQ(calc_hubble(t, ExpansionProperties(ExpansionMode::MasslessFRW, b)) * (2 * (b * t + 1)), b, "radiation dominated");
  VC_EQ(calc_hubble(t, ExpansionProperties(ExpansionMode::MassiveFRW, b)) * (3 * (b * t + 1)), 2 * b, "matter dominated");
}
VC_PROOF(expansion) {
  install_types();
  Particles P;
  ParticleData p[2];
  for (int k = 0; k < 2; k++) p[k] = P.insert(any(k ? T_PIP : T_P, names[k]));
  alignas(ExperimentParameters) static char mem[sizeof(ExperimentParameters)];
  ExperimentParameters &par = reinterpret_cast<ExperimentParameters &>(mem);
  UniformClock clock(0., 0.1, 100.);
  for (int i = vc_choose("ticks", 2); i > 0; i--) ++clock;
  new (&par.labclock) std::unique_ptr<Clock>(&clock);
  int m = vc_choose("mode", 3);
  ExpansionProperties metric(m == 0 ? ExpansionMode::NoExpansion : m == 1 ? ExpansionMode::MasslessFRW : ExpansionMode::MassiveFRW, vc_double("b", 1e-3, 1));
  const double h = calc_hubble(clock.current_time(), metric), dt = clock.timestep_duration();
  expand_space_time(&P, par, metric);
  par.labclock.release();
  int k = 0;
  for (const ParticleData &q : P) {
    const FourVector &x = p[k].position(), &mom = p[k].momentum();
    VC_EQ(q.position()[0], x[0], "expansion takes no time of its own");
    double p2 = 0;
    for (int i = 1; i < 4; i++) {
      VC_EQ(q.position()[i], x[i] + h * dt * x[i], "distances grow");
      VC_EQ(q.momentum()[i], mom[i] - h * dt * mom[i], "momenta are redshifted");
      p2 += q.momentum()[i] * q.momentum()[i];
    }
    const double mass = k ? 0.138 : 0.938;
    VC_ASSERT(q.momentum()[0] > 0, "positive energies");
    VC_EQT(q.momentum()[0] * q.momentum()[0], mass * mass + p2, 1e-9, "particles stay on their mass shells");
    k++;
  }
  VC_ASSERT(k == 2, "no particle is lost");
}
// forces: any fields on a lattice of one cell around the origin
typedef std::pair<ThreeVector, ThreeVector> Fields;
typedef RectangularLattice<Fields> FieldLattice;
static ThreeVector field(const char *x, const char *y, const char *z) { return ThreeVector(vc_double(x, -1, 1), vc_double(y, -1, 1), vc_double(z, -1, 1)); }
extern "C" char _ZTVN5smash10PotentialsE[];
static bool asked_directly;
#ifndef VC_NATIVE
static ThreeVector direct[4];
struct Four {
  ThreeVector d, c, b, a;  // layout of std::tuple
};
extern "C" Four vcstub__ZNK5smash10Potentials10all_forcesERKNS_11ThreeVectorERKSt6vectorINS_12ParticleDataESaIS5_EE(const Potentials *, const ThreeVector &, const ParticleList &plist) {
  VC_ASSERT(plist.size() == 2, "all particles are sources");
  asked_directly = true;
  return {direct[3], direct[2], direct[1], direct[0]};
}
#endif
static void forces(int kind, const bool skyrme, const bool symmetry, const bool coulomb) {
  install_types();
  static const int kinds[] = {T_P, T_N, T_PBAR, T_LAMBDA, T_DELTA, T_PIZ};
  static const int charge[] = {1, 0, -1, 0, 2, 0}, baryon[] = {1, 1, -1, 1, 1, 0}, strange[] = {0, 0, 0, -1, 0, 0};
  static const double iso[] = {1, -1, -1, 0, 1, 0};
  static const int twice_isospin[] = {1, 1, 1, 0, 3, 2};
  const_cast<ParticleType &>(vc_type(kinds[kind])).isospin_ = twice_isospin[kind];
  std::vector<Particles> ensembles(1);
  ParticleData a = any(kinds[kind], names[0]);
  a.set_4position(FourVector(1, vc_double("x", -50, 50), 2, -3));
  VC_ASSUME(a.momentum().sqr() > 1e-4);
  const ParticleData meson = ensembles[0].insert(any(T_PIP, names[1])), p = ensembles[0].insert(a);
  alignas(Potentials) static char mem[sizeof(Potentials)];
  Potentials &pot = reinterpret_cast<Potentials &>(mem);
  *reinterpret_cast<char **>(mem) = _ZTVN5smash10PotentialsE + 2 * sizeof(void *);
  const bool outside = vc_bool("outside"), lattice = vc_bool("lattice");
  if (!vc_symbolic()) VC_ASSUME(lattice && !outside);
  pot.use_skyrme_ = skyrme;
  pot.use_symmetry_ = symmetry;
  pot.use_coulomb_ = coulomb;
  pot.use_vdf_ = pot.use_momentum_dependence_ = false;
  pot.use_potentials_outside_lattice_ = outside;
  FieldLattice FB({20, 20, 20}, {1, 1, 1}, {-10, -10, -10}, false, LatticeUpdate::EveryTimestep), FI3(FB), EM(FB);
  FB[0] = {field("ex", "ey", "ez"), field("bx", "by", "bz")};
  FI3[0] = {field("iex", "iey", "iez"), field("ibx", "iby", "ibz")};
  EM[0] = {field("cex", "cey", "cez"), field("cbx", "cby", "cbz")};
  Fields fb = FB[0], fi = FI3[0], fe = EM[0];
  double dt = vc_double("dt", 1e-3, 1);
#ifndef VC_NATIVE
  direct[0] = field("dx", "dy", "dz");
  direct[1] = field("gx", "gy", "gz");
  direct[2] = field("jx", "jy", "jz");
  direct[3] = field("kx", "ky", "kz");
#endif
  asked_directly = false;
  update_momenta(ensembles, dt, pot, lattice ? &FB : nullptr, lattice ? &FI3 : nullptr, &EM, nullptr);
  const bool inside = p.position()[1] >= -10 && p.position()[1] < 10;
  const bool fields_known = (!skyrme && !symmetry) || (lattice && inside);
  VC_ASSERT(!(fields_known && asked_directly), "fields are taken from the lattice where it has them");
  const ParticleData *q = nullptr;
  int count = 0;
  for (const ParticleData &r : ensembles[0]) {
    if (r.id() == meson.id())
      VC_ASSERT(same_momentum(r.momentum(), meson.momentum()), "mesons feel no potential");
    else
      q = &r;
    for (int i = 0; i < 4; i++) VC_ASSERT(r.position()[i] == (q == &r ? p : meson).position()[i], "forces do not move particles");
    count++;
  }
  VC_ASSERT(count == 2 && q, "no particle is lost");
  if (kind == 5 || (!fields_known && !outside)) {
    VC_ASSERT(same_momentum(q->momentum(), p.momentum()), "no force on mesons, nor where it is not known");
    return;
  }
  ThreeVector zero, eB = skyrme ? fb.first : zero, bB = skyrme ? fb.second : zero, eI = symmetry ? fi.first : zero, bI = symmetry ? fi.second : zero;
#ifndef VC_NATIVE
  if (!fields_known) {
    eB = direct[0];
    bB = direct[1];
    eI = direct[2];
    bI = direct[3];
  }
#endif
  const ThreeVector v = p.velocity();
  const double s = (3 - std::abs(strange[kind])) / 3. * baryon[kind], t = baryon[kind] * iso[kind];
  ThreeVector F;
  for (int i = 0; i < 3; i++) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    F[i] = s * (eB[i] + v[j] * bB[k] - v[k] * bB[j]) + t * (eI[i] + v[j] * bI[k] - v[k] * bI[j]);
    if (coulomb && inside) F[i] += hbarc * elementary_charge * charge[kind] * (fe.first[i] + v[j] * fe.second[k] - v[k] * fe.second[j]);
    VC_LEMMA_EQT(q->momentum()[i + 1], p.momentum()[i + 1] + F[i] * dt, 1e-6, "the force changes the momentum");
  }
  VC_EQT(q->momentum().sqr(), p.momentum().sqr(), 1e-4, "and leaves the mass");
  VC_ASSERT(q->momentum().x0() >= 0, "with a positive energy");
}
VC_PROOF(forces_on_proton) { forces(0, true, true, true); }
VC_PROOF(forces_on_neutron) { forces(1, true, true, true); }
VC_PROOF(forces_on_antiproton) { forces(2, true, true, true); }
VC_PROOF(forces_on_lambda) { forces(3, true, true, true); }
VC_PROOF(forces_on_delta) { forces(4, true, true, true); }
VC_PROOF(forces_on_pion) { forces(5, true, true, true); }
VC_PROOF(skyrme_only) { forces(0, true, false, false); }
VC_PROOF(symmetry_only) { forces(1, false, true, false); }
VC_PROOF(coulomb_only) { forces(4, false, false, true); }
