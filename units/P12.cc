// P12: periodic boundaries
//@sources @types_support.cc wallcrossingaction.cc action.cc boxmodus.cc particles.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc
//@native random.cc logging.cc
//@bounded two_particles boundary_conditions interaction_point stochastic_point
#include <array>
#include "types.h"
#include "smash/action.h"
#include "smash/algorithms.h"
#include "smash/boxmodus.h"
#include "smash/constants.h"
#include "smash/outputinterface.h"
#include "smash/wallcrossingaction.h"

static double length() { return vc_double("L", 0.1, 1e3); }
// x is taken to r, up to a whole number (-1, 0, 1) of periods
static bool wrapped(double r, double x, double L) {
  return x < 0 ? r == x + L : x >= L ? r == x - L : r == x;
}
VC_PROOF(wrapping) {
  double L = length();
  std::array<double, 3> x{vc_double("x", -1e3, 2e3), vc_double("y", -1e3, 2e3), vc_double("z", -1e3, 2e3)}, r = x;
  for (int i = 0; i < 3; i++) VC_ASSUME(x[i] >= -L && x[i] < 2 * L);
  bool moved = enforce_periodic_boundaries(r.begin(), r.end(), L);
  bool outside = false;
  for (int i = 0; i < 3; i++) {
    outside = outside || x[i] < 0 || x[i] >= L;
    VC_ASSERT(wrapped(r[i], x[i], L), "coordinates change by whole box lengths only");
    if (vc_symbolic()) VC_ASSERT(r[i] >= 0 && r[i] < L, "coordinates end up inside the box");
  }
  VC_ASSERT(moved == outside, "a move is reported exactly when a coordinate was outside");
}
static ParticleData boxed(double L, const char *x, const char *y, const char *z, const char *px, const char *py, const char *pz) {
  ParticleData p(vc_type(T_PIP));
  double a = vc_double(x, 0, 1e3), b = vc_double(y, 0, 1e3), c = vc_double(z, 0, 1e3);
  VC_ASSUME(a <= L && b <= L && c <= L);
  p.set_4position(FourVector(vc_double("now", 0, 100), a, b, c));
  // momentum in units of the energy; the velocity is the same for any energy (energy_drops_out)
  p.set_4momentum(FourVector(1, vc_double(px, -1, 1), vc_double(py, -1, 1), vc_double(pz, -1, 1)));
  return p;
}
// contract of one crossing
static void check_crossing(const ParticleData &p, const ActionPtr &a, double L, double t_max) {
  const ThreeVector v = p.velocity(), r = p.position().threevec();
  const FourVector &now = p.position();
  double dt = a->time_of_execution() - now.x0();
  VC_LE(0, dt, "crossings lie in the future");
  VC_LE(dt, t_max, "crossings lie within the time step");
  const ParticleList &in = a->incoming_particles(), &out = a->outgoing_particles();
  VC_ASSERT(in.size() == 1 && out.size() == 1 && a->get_type() == ProcessType::Wall, "one particle crosses a wall");
  for (int i = 0; i < 4; i++) VC_ASSERT(out[0].momentum()[i] == p.momentum()[i], "crossing leaves the momentum");
  VC_EQ(out[0].position()[0], now[0] + dt, "the time of the crossing");
  int crossed = 0;
  for (int i = 0; i < 3; i++) {
    double there = r[i] + v[i] * dt, got = out[0].position()[i + 1];
    // natively the sums may be rounded differently; walls are L apart
    if (vc_symbolic() ? got != there : std::abs(got - there) > 0.5 * L) {
      crossed++;
      VC_EQT(there, v[i] > 0 ? L : 0., 1e-5, "it is at the wall it flies towards");
      VC_EQ(got, v[i] > 0 ? 0. : L, "and reappears at the opposite wall");
    }
    // (directions with less than 1e-6 of the speed of light are ignored)
    if (!(v[i] <= 0 && v[i] >= -really_small)) VC_LE(0., there, "inside the box until then");
    if (!(v[i] >= 0 && v[i] <= really_small)) VC_LE(there, L, "inside the box until then");
  }
  VC_ASSERT(crossed <= 1, "one wall at a time");
}
// natively v[i] dt and the distance to the wall must not be lost in rounding
static bool tame(const ThreeVector &v) {
  for (int i = 0; i < 3; i++)
    if (!vc_symbolic() && std::abs(v[i]) < 1e-3) return false;
  return true;
}
VC_PROOF(crossings) {
  install_types();
  double L = length(), t_max = vc_double("t_max", 1e-3, 100);
  ParticleData p = boxed(L, "x", "y", "z", "vx", "vy", "vz");
  const ThreeVector v = p.velocity(), r = p.position().threevec();
  VC_ASSUME(tame(v));
  WallCrossActionsFinder f(L);
  ActionList as = f.find_actions_in_cell({p}, t_max, 0., {});
  VC_ASSERT(as.size() <= 1, "at most one crossing at a time");
  if (as.size() == 1) {
    check_crossing(p, as[0], L, t_max);
  } else {
    for (int i = 0; i < 3; i++) {
      double there = r[i] + v[i] * t_max;
      // directions with less than 1e-6 of the speed of light are ignored
      if (v[i] > really_small) VC_LE(there, L, "a particle without crossing stays inside");
      if (v[i] < -really_small) VC_LE(0., there, "a particle without crossing stays inside");
    }
  }
  VC_ASSERT(f.find_actions_with_neighbors({p}, {p}, t_max, {}).empty(), "walls are found once, not for each neighbour cell");
}
VC_PROOF(energy_drops_out) {
  install_types();
  ParticleData p(vc_type(T_PIP));
  double E = vc_double("E", 1e-3, 1e3), v[3] = {vc_double("vx", -1, 1), vc_double("vy", -1, 1), vc_double("vz", -1, 1)};
  p.set_4momentum(FourVector(E, E * v[0], E * v[1], E * v[2]));
  for (int i = 0; i < 3; i++) VC_EQ(p.velocity()[i], v[i], "velocity is momentum over energy");
}
VC_PROOF(two_particles) {
  VC_CONFIG("merge=0");
  install_types();
  double L = length(), t_max = vc_double("t_max", 1e-3, 100);
  ParticleData p(vc_type(T_PIP)), q(vc_type(T_P));
  double x = vc_double("x", 0, 1e3), y = vc_double("y", 0, 1e3), u = vc_double("u", 0.01, 0.5), w = vc_double("w", 0.01, 0.5);
  VC_ASSUME(x <= L && y <= L);
  p.set_4position(FourVector(1., x, 0.5 * L, 0.5 * L));
  q.set_4position(FourVector(1., 0.5 * L, y, 0.5 * L));
  p.set_4momentum(FourVector(1., u, 0, 0));
  q.set_4momentum(FourVector(1., 0, -w, 0));
  WallCrossActionsFinder f(L);
  ActionList as = f.find_actions_in_cell({p, q}, t_max, 0., {});
  bool cp = L - x < u * t_max, cq = y < w * t_max;
  if (!vc_symbolic()) VC_ASSUME(std::abs(L - x - u * t_max) > 1e-6 && std::abs(y - w * t_max) > 1e-6);
  VC_ASSERT(as.size() == (cp ? 1u : 0u) + (cq ? 1u : 0u), "every particle that leaves has its crossing");
  size_t k = 0;
  if (cp) VC_EQT(as[k++]->time_of_execution(), 1. + (L - x) / u, 1e-6, "of the first");
  if (cq) VC_EQT(as[k++]->time_of_execution(), 1. + y / w, 1e-6, "of the second");
}
// all particles of a box are moved back inside, others are not touched
VC_PROOF(boundary_conditions) {
  install_types();
  double L = length();
  alignas(BoxModus) static char mem[sizeof(BoxModus)];
  BoxModus &box = reinterpret_cast<BoxModus &>(mem);
  const_cast<double &>(box.length_) = L;
  Particles P;
  FourVector at[2];
  static const char *const nx[] = {"x1", "x2"}, *const ny[] = {"y1", "y2"}, *const nz[] = {"z1", "z2"};
  int outside = 0;
  for (int k = 0; k < 2; k++) {
    ParticleData p(vc_type(k ? T_P : T_PIP));
    at[k] = FourVector(3., vc_double(nx[k], -1e3, 2e3), vc_double(ny[k], -1e3, 2e3), vc_double(nz[k], -1e3, 2e3));
    for (int i = 1; i < 4; i++) VC_ASSUME(at[k][i] >= -L && at[k][i] < 2 * L);
    p.set_4position(at[k]);
    p.set_4momentum(0.138, 0.1, 0.2, 0.3);
    P.insert(p);
    bool o = false;
    for (int i = 1; i < 4; i++) o = o || at[k][i] < 0 || at[k][i] >= L;
    outside += o ? 1 : 0;
  }
  int n = box.impose_boundary_conditions(&P, {});
  VC_ASSERT(n == outside, "the particles moved are counted");
  int k = 0;
  for (const ParticleData &p : P) {
    VC_ASSERT(p.position()[0] == 3., "wrapping takes no time");
    for (int i = 1; i < 4; i++) VC_ASSERT(wrapped(p.position()[i], at[k][i], L), "every particle is back in the box");
    VC_ASSERT(p.momentum().x3() == 0.3, "wrapping leaves the momentum");
    k++;
  }
  VC_ASSERT(k == 2, "no particle is lost");
}
class Meet : public Action {
 public:
  Meet(const ParticleList &in, double when) : Action(in, {}, when, ProcessType::Elastic) {}
  double get_total_weight() const override { return 1; }
  double get_partial_weight() const override { return 1; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &) const override {}
};
// Where two particles interact: midway on the shortest connection through the boundaries
VC_PROOF(interaction_point) {
  install_types();
  double L = length(), t = vc_double("t", 0, 10), when = vc_double("when", 0, 100);
  const bool box = vc_bool("box");
  ParticleData p[2] = {ParticleData(vc_type(T_PIP)), ParticleData(vc_type(T_P))};
  double r[2][3];
  static const char *const nr[2][3] = {{"x1", "y1", "z1"}, {"x2", "y2", "z2"}}, *const nv[2][3] = {{"vx1", "vy1", "vz1"}, {"vx2", "vy2", "vz2"}};
  for (int k = 0; k < 2; k++) {
    double v[3], x[3];
    for (int i = 0; i < 3; i++) {
      v[i] = vc_double(nv[k][i], -1, 1);
      r[k][i] = vc_double(nr[k][i], 0, 1e3);
      VC_ASSUME(r[k][i] <= L);  // the place where it is when they meet
      x[i] = r[k][i] - v[i] * (when - t);
    }
    p[k].set_4position(FourVector(t, x[0], x[1], x[2]));
    p[k].set_4momentum(FourVector(1, v[0], v[1], v[2]));
  }
  Meet a({p[0], p[1]}, when);
  if (box) a.box_length_ = L;
  const FourVector at = a.get_interaction_point();
  VC_EQ(at[0], when, "they interact at the time of the action");
  {
    const int i = vc_choose("i", 3);
    const double d = r[0][i] - r[1][i], mid = (r[0][i] + r[1][i]) / 2, D = d < 0 ? -d : d;
    if (!vc_symbolic()) VC_ASSUME(std::abs(D - 0.5 * L) > 1e-6 * L && std::abs(mid - 0.5 * L) > 1e-6 * L);
    if (!box || D <= 0.5 * L) {
      VC_EQ(at[i + 1], mid, "halfway between them");
    } else {
      VC_EQ(at[i + 1], mid >= 0.5 * L ? mid - 0.5 * L : mid + 0.5 * L, "halfway through the boundary");
    }
    if (vc_symbolic()) VC_ASSERT(at[i + 1] >= 0 && at[i + 1] <= L, "inside the box");
  }
}
// stochastic collisions happen at one of the particles
VC_PROOF(stochastic_point) {
  install_types();
  double L = length(), when = vc_double("when", 0, 100);
  ParticleData p[2] = {ParticleData(vc_type(T_PIP)), ParticleData(vc_type(T_P))};
  FourVector r[2] = {FourVector(when, vc_double("x1", 0, 9), vc_double("y1", 0, 9), 3), FourVector(when, vc_double("x2", 0, 9), 2, vc_double("z2", 0, 9))};
  for (int k = 0; k < 2; k++) {
    p[k].set_4position(r[k]);
    p[k].set_4momentum(FourVector(1, 0.1, 0.2, 0.3));
  }
  Meet a({p[0], p[1]}, 0);
  if (vc_bool("box")) a.box_length_ = L;
  int k = vc_int("k", 0, 1);
  a.stochastic_position_idx_ = k;
  const FourVector at = a.get_interaction_point();
  for (int i = 0; i < 4; i++) VC_ASSERT(at[i] == r[k][i], "at the particle drawn");
}
