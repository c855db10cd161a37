// P18: currents from smeared particles, given the contract of the smearing function
//@sources @types_support.cc density.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc isoparticletype.cc
//@thorough triangular_y
//@native random.cc logging.cc
#include <cmath>
#include "types.h"
#include "smash/density.h"
#include "smash/constants.h"
struct Params {
  alignas(DensityParameters) char mem[sizeof(DensityParameters)];
  DensityParameters &operator*() { return *reinterpret_cast<DensityParameters *>(mem); }
  DensityParameters *operator->() { return reinterpret_cast<DensityParameters *>(mem); }
  Params() {
    DensityParameters &p = **this;
    set(p.ntest_, 1);
    set(p.nensembles_, 1);
    set(p.derivatives_, DerivativesMode::Off);
    set(p.rho_derivatives_, RestFrameDensityDerivativesMode::Off);
    set(p.smearing_, SmearingMode::CovariantGaussian);
    p.only_participants_ = false;
    p.two_sig_sqr_inv_ = 0.5;
    p.r_cut_sqr_ = 16;
    set(p.r_cut_, 4.);
    p.norm_factor_sf_ = vc_double("norm", 0.01, 2);
  }
  template <typename T, typename U>
  static void set(const T &x, U v) { const_cast<T &>(x) = v; }
};
typedef std::pair<double, ThreeVector> Smear;
static int calls;
// any smearing function of the distance and the momentum
static Smear given(const ThreeVector &r, const FourVector &p, double m_inv, bool grad) {
  const double f = (1 + 0.1 * r[0] + 0.02 * r[1] * r[1] + 0.03 * r[2]) * p.x0() * m_inv;
  return {f * f + 0.01, grad ? ThreeVector(f, 2 * f + r[0], f - r[1]) : ThreeVector(0, 0, 0)};
}
#ifndef VC_NATIVE
extern "C" Smear vcstub__ZN5smash28unnormalized_smearing_factorERKNS_11ThreeVectorERKNS_10FourVectorEdRKNS_17DensityParametersEb(
    const ThreeVector &r, const FourVector &p, double m_inv, const DensityParameters &, bool grad) {
  calls++;
  VC_ASSERT(p.sqr() * m_inv * m_inv == 1, "smearing takes the inverse mass");
  return given(r, p, m_inv, grad);
}
static Smear smear(const ThreeVector &r, const FourVector &p, double m_inv, const DensityParameters &, bool grad) { return given(r, p, m_inv, grad); }
#else
static Smear smear(const ThreeVector &r, const FourVector &p, double m_inv, const DensityParameters &par, bool grad) {
  return unnormalized_smearing_factor(r, p, m_inv, par, grad);
}
#endif
static ParticleData particle(int t, const char *m, const char *x, const char *p, double at) {
  ParticleData d(vc_type(t));
  if (p) {
    const double q = vc_double(p, -2, 2), mass = vc_double(m, 0.1, 2);
    d.set_4momentum(mass, q, 0.5, -0.25);
  } else {
    d.set_4momentum(FourVector(3, t == T_P ? 1 : -2, t == T_P ? 2 : 1, 0));
  }
  d.set_4position(FourVector(3, vc_double(x, -2, 2), at, -at));
  return d;
}
static void current(DensityType type, double qa, double qb, bool smearing, bool grad, bool participants, bool momenta = true) {
  VC_CONFIG("merge=0");
  install_types();
  Params par;
  par->only_participants_ = participants;
  ParticleData a = particle(T_P, "ma", "xa", momenta ? "pa" : nullptr, 0.5), b = particle(T_PBAR, "mb", "xb", nullptr, 0.25), neutral = particle(T_PIZ, "mc", "xc", nullptr, 0.125);
  const bool hit = vc_bool("b collided");
  a.set_history(1, 1, ProcessType::Elastic, 1., {b, b});
  neutral.set_history(1, 1, ProcessType::Elastic, 1., {b, b});
  if (hit) b.set_history(2, 1, ProcessType::Elastic, 1., {a, a});
  const ThreeVector r(vc_double("x", -2, 2), 0.25, 0);
  const bool both = !participants || hit;
  const auto t = current_eckart(r, ParticleList{neutral, a, b}, *par, type, grad, smearing);
  FourVector ja, jb, d[4];
  int i = 0;
  for (const ParticleData *p : {&a, &b}) {
    const double q = i ? both ? qb : 0 : qa;
    const FourVector k = p->momentum();
    const Smear s = smear(p->position().threevec() - r, k, 1 / k.abs(), *par, grad);
    FourVector flow = FourVector(1, k[1] / k[0], k[2] / k[0], k[3] / k[0]) * q;
    (i ? jb : ja) = flow * (smearing ? s.first * par->norm_factor_sf_ : 1);
    for (int j = 0; j < 3; j++) {
      d[j + 1] += flow * s.second[j] * par->norm_factor_sf_;
      d[0] -= flow * s.second[j] * (k[j + 1] / k[0]) * par->norm_factor_sf_;
    }
    i++;
  }
  const FourVector j = std::get<1>(t);
  for (int k = 0; k < 4; k++) VC_EQT(j[k], ja[k] + jb[k], 1e-6, "the current is the sum of the charges times their velocities");
  if (grad) {
    const FourVector g[] = {std::get<4>(t), std::get<5>(t), std::get<6>(t), std::get<7>(t)};
    for (int n = 0; n < 4; n++)
      for (int k = 0; k < 4; k++) VC_EQT(g[n][k], d[n][k], 1e-6, "derivatives of the current");
    for (int k = 0; k < 3; k++) VC_EQT(std::get<2>(t)[k], d[k + 1][0], 1e-6, "gradient of the density");
    VC_EQT(std::get<3>(t)[0], d[2][3] - d[3][2], 1e-6, "curl of the current");
    VC_EQT(std::get<3>(t)[1], d[3][1] - d[1][3], 1e-6, "curl of the current");
    VC_EQT(std::get<3>(t)[2], d[1][2] - d[2][1], 1e-6, "curl of the current");
  } else {
    for (int k = 0; k < 3; k++) VC_ASSERT(std::get<2>(t)[k] == 0 && std::get<3>(t)[k] == 0 && std::get<5>(t)[k] == 0, "no derivatives unless asked for");
  }
  // rest frame density: positive and negative charges apart
  if (smearing && (!momenta || !vc_symbolic())) {
    const double rho = std::get<0>(t), p = ja.sqr(), n = jb.sqr();
    if (!both) {
      VC_EQT(rho * rho, p, 1e-6, "density in the rest frame of the charges");
      VC_ASSERT(rho >= 0, "positive");
    } else {   // rho = sqrt(p) - sqrt(n)
      VC_EQT((rho * rho - p - n) * (rho * rho - p - n), 4 * p * n, 1e-5, "density in the rest frame of the charges");
      if (p > n) VC_ASSERT(rho >= 0, "of the sign of the larger");
      VC_LE(rho * rho, p + n, "the charges taken apart");
    }
  }
}
VC_PROOF(baryon_current) { current(DensityType::Baryon, 1, -1, true, false, false); }
VC_PROOF(baryon_gradients) { current(DensityType::Baryon, 1, -1, true, true, false, false); }
VC_PROOF(rest_frame) { current(DensityType::Baryon, 1, -1, true, false, false, false); }
VC_PROOF(participants_only) { current(DensityType::Baryon, 1, -1, true, false, true); }
VC_PROOF(without_smearing) { current(DensityType::Charge, 1, -1, false, false, false); }
// the same on a lattice
static void on_lattice(bool gradients, bool two) {
  VC_CONFIG("merge=0");
  install_types();
  Params par;
  if (gradients) Params::set(par->derivatives_, DerivativesMode::CovariantGaussian);
  DensityLattice L({3., 2., 2.}, {2, 2, 1}, {-1.5, -1., -1.}, false, LatticeUpdate::EveryTimestep);
  L[0].add_to_jmu_pos(FourVector(1, 2, 3, 4));
  ParticleData a = particle(T_P, "ma", "xa", gradients ? nullptr : "pa", 0.5), b = particle(T_PBAR, "mb", "xb", nullptr, 0.25), c = particle(T_PIZ, "mc", "xc", nullptr, 0);
  ParticleList l{a, c};
  if (two) l.push_back(b);
  update_lattice_with_list_of_particles(&L, LatticeUpdate::EveryTimestep, DensityType::Baryon, *par, l, gradients);
  for (int i = 0; i < 4; i++) {
    const ThreeVector r = L.cell_center(i);
    FourVector j, d[4], pos, neg;
    for (const ParticleData &p : l) {
      const double q = p.type().baryon_number();
      if (q == 0) continue;
      const FourVector k = p.momentum();
      const Smear s = smear(p.position().threevec() - r, k, 1 / k.abs(), *par, gradients);
      const FourVector flow = FourVector(1, k[1] / k[0], k[2] / k[0], k[3] / k[0]) * q * par->norm_factor_sf_;
      j += flow * s.first;
      (q > 0 ? pos : neg) += flow * s.first;
      for (int n = 0; n < 3; n++) {
        d[n + 1] += flow * s.second[n];
        d[0] -= flow * s.second[n] * (k[n + 1] / k[0]);
      }
    }
    for (int k = 0; k < 4; k++) VC_EQT(L[i].jmu_net()[k], j[k], 1e-6, "current at the centre of each cell");
    if (!vc_symbolic()) VC_EQT(L[i].rho(2.), 2 * (pos.abs() - neg.abs()), 1e-6, "rest frame density");
    if (gradients) {
      for (int n = 0; n < 4; n++)
        for (int k = 0; k < 4; k++) VC_EQT(L[i].djmu_dxnu()[n][k], d[n][k], 1e-6, "derivatives at the centre of each cell");
      for (int n = 0; n < 3; n++) {
        VC_EQT(L[i].grad_j0(3.)[n], 3 * d[n + 1][0], 1e-6, "gradient of the density");
        VC_EQT(L[i].dvecj_dt(3.)[n], 3 * d[0][n + 1], 1e-6, "time derivative of the current");
        const int o = (n + 1) % 3, w = (n + 2) % 3;
        VC_EQT(L[i].curl_vecj(3.)[n], 3 * (d[o + 1][w + 1] - d[w + 1][o + 1]), 1e-6, "curl of the current");
      }
    }
  }
}
VC_PROOF(lattice_current) { on_lattice(false, false); }
VC_PROOF(lattice_two_charges) { on_lattice(false, true); }
VC_PROOF(lattice_gradients) { on_lattice(true, false); }
VC_PROOF(lattice_not_due) {
  VC_CONFIG("merge=0");
  install_types();
  Params par;
  DensityLattice L({3., 2., 2.}, {3, 2, 2}, {-1.5, -1., -1.}, false, LatticeUpdate::AtOutput);
  L[0].add_to_jmu_pos(FourVector(1, 2, 3, 4));
  update_lattice_with_list_of_particles(&L, LatticeUpdate::EveryTimestep, DensityType::Baryon, *par, {particle(T_P, "ma", "xa", "pa", 0.5)}, false);
  update_lattice_with_list_of_particles<DensityOnLattice>(nullptr, LatticeUpdate::EveryTimestep, DensityType::Baryon, *par, {}, false);
  VC_ASSERT(L[0].jmu_net()[3] == 4 && L[5].jmu_net()[0] == 0, "lattices are updated when due");
}
// smearing on neighbouring cells and triangular smearing keep the charge
static void conserved(SmearingMode mode, int range, int axis) {
  VC_CONFIG("merge=0");
  install_types();
  Params par;
  Params::set(par->smearing_, mode);
  Params::set(par->ntest_, 2);
  Params::set(par->nensembles_, 5);
  const double weight = vc_double("weight", 1. / 7, 1);
  Params::set(par->central_weight_, weight);
  Params::set(par->triangular_range_, double(range));
  // a periodic lattice with cells of three different sizes
  const std::array<int, 3> n = {range == 2 ? 5 : 3, range == 2 ? 5 : 3, range == 2 ? 5 : 3};
  const std::array<double, 3> cell = {0.5, 1., 2.};
  DensityLattice L({cell[0] * n[0], cell[1] * n[1], cell[2] * n[2]}, n, {0., 0., 0.}, true, LatticeUpdate::EveryTimestep);
  ParticleData a(vc_type(T_DELTA));
  a.set_4momentum(FourVector(3, 1, 2, 0));
  double x[3] = {0.4, 1.7, 2.2};
  x[axis] = vc_double("x", 0, 2.4) * cell[axis];
  if (!vc_symbolic()) VC_ASSUME(std::abs(x[axis] / cell[axis] - std::round(x[axis] / cell[axis])) > 1e-6 && std::abs(x[axis] / cell[axis] - 0.5 - std::round(x[axis] / cell[axis] - 0.5)) > 1e-6);
  a.set_4position(FourVector(3, x[0], x[1], x[2]));
  update_lattice_with_list_of_particles(&L, LatticeUpdate::EveryTimestep, DensityType::Charge, *par, {a}, false);
  FourVector sum;
  const FourVector k = a.momentum();
  for (auto &node : L) {
    sum += node.jmu_net();
    VC_ASSERT(node.jmu_net()[0] >= 0, "no negative density of positive charges");
  }
  const FourVector total = sum * (cell[0] * cell[1] * cell[2] * 10);
  VC_EQT(total[0], 2, 1e-6, "all of the charge is on the lattice");
  for (int i = 1; i < 4; i++) VC_EQT(total[i] * k[0], 2 * k[i], 1e-6, "and flows with its velocity");
}
VC_PROOF(discrete_x) { conserved(SmearingMode::Discrete, 1, 0); }
VC_PROOF(discrete_y) { conserved(SmearingMode::Discrete, 1, 1); }
VC_PROOF(discrete_z) { conserved(SmearingMode::Discrete, 1, 2); }
VC_PROOF(triangular_x) { conserved(SmearingMode::Triangular, 1, 0); }
VC_PROOF(triangular_y) { conserved(SmearingMode::Triangular, 2, 1); }
VC_PROOF(triangular_z) { conserved(SmearingMode::Triangular, 1, 2); }
// all ensembles together, with gradients from finite differences and those of the rest frame density
VC_PROOF(ensembles) {
  VC_CONFIG("merge=0");
  install_types();
  Params par;
  Params::set(par->derivatives_, DerivativesMode::FiniteDifference);
  Params::set(par->rho_derivatives_, RestFrameDensityDerivativesMode::On);
  const std::array<double, 3> l{3., 2., 2.}, o{-1.5, -1., -1.};
  const std::array<int, 3> n{3, 2, 2};
  DensityLattice L(l, n, o, false, LatticeUpdate::EveryTimestep);
  RectangularLattice<FourVector> before(l, n, o, false, LatticeUpdate::EveryTimestep), after(before);
  RectangularLattice<std::array<FourVector, 4>> four(l, n, o, false, LatticeUpdate::EveryTimestep);
  const double u = vc_double("u", 0, 1), dt = vc_double("dt", 0.01, 1);
  for (int i = 0; i < 12; i++) L[i].add_to_jmu_pos(FourVector(2 * u + i, u, 0, 0));
  std::vector<Particles> e(2);
  ParticleData a(vc_type(T_P));
  a.set_4momentum(FourVector(3, 1, 2, 0));
  a.set_4position(FourVector(3, 0.25, 0.5, -0.5));
  e[0].insert(a);
  e[1].insert(a);
  update_lattice(&L, &before, &after, &four, LatticeUpdate::EveryTimestep, DensityType::Baryon, *par, e, dt, false);
  FourVector j[12];
  const FourVector k = a.momentum(), flow(1, k[1] / k[0], k[2] / k[0], k[3] / k[0]);
  for (int i = 0; i < 12; i++) {
    j[i] = flow * (2 * par->norm_factor_sf_ * smear(a.position().threevec() - L.cell_center(i), k, 1 / k.abs(), *par, false).first);
    for (int m = 0; m < 4; m++) VC_EQT(L[i].jmu_net()[m], j[i][m], 1e-6, "the ensembles add up");
  }
  if (!vc_symbolic()) VC_ASSUME(j[1].abs() > 1e-3);
  const auto d = L[1].djmu_dxnu();
  for (int m = 0; m < 4; m++) {
    const FourVector old(2 * u + 1, u, 0, 0);
    VC_EQT(d[0][m], (j[1][m] - old[m]) / dt, 1e-5, "time derivatives are changes since the last step");
    VC_EQT(d[1][m], (j[2][m] - j[0][m]) / 2, 1e-5, "spatial derivatives are differences of neighbours");
    VC_EQT(d[2][m], j[4][m] - j[1][m], 1e-5, "one-sided at the edges");
  }
  FourVector grad = L[1].drho_dxnu();
  for (int m = 0; m < 4; m++)
    VC_EQT(grad[m] * L[1].rho(), j[1][0] * d[m][0] - j[1][1] * d[m][1] - j[1][2] * d[m][2] - j[1][3] * d[m][3], 1e-5, "derivatives of the rest frame density");
  const ThreeVector c = L[1].grad_rho_cross_vecj();
  VC_EQT(c[0], grad[2] * j[1][3] - grad[3] * j[1][2], 1e-5, "cross product with the current");
}
