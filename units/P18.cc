// P18: densities and currents of particles
//@sources @types_support.cc density.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc isoparticletype.cc
//@native random.cc logging.cc
#include <cmath>
#include "types.h"
#include "smash/density.h"
#include "smash/constants.h"
struct Params {
  alignas(DensityParameters) char mem[sizeof(DensityParameters)];
  DensityParameters &operator*() { return *reinterpret_cast<DensityParameters *>(mem); }
  DensityParameters *operator->() { return reinterpret_cast<DensityParameters *>(mem); }
  Params() {
    DensityParameters &p = **this;
    set(p.ntest_, 1);
    set(p.nensembles_, 1);
    set(p.derivatives_, DerivativesMode::Off);
    set(p.rho_derivatives_, RestFrameDensityDerivativesMode::Off);
    set(p.smearing_, SmearingMode::CovariantGaussian);
    p.only_participants_ = false;
  }
  template <typename T, typename U>
  static void set(const T &x, U v) { const_cast<T &>(x) = v; }
};
VC_PROOF(charges) {
  VC_CONFIG("merge=0");
  install_types();
  // what each type of the table contributes to each density
  static const int types[] = {T_PIP, T_PIZ, T_PIM, T_P, T_N, T_PBAR, T_LAMBDA, T_DELTA, T_RHO, T_PHOTON};
  static const double hadron[] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 0}, baryon[] = {0, 0, 0, 1, 1, -1, 1, 1, 0, 0}, pion[] = {1, 1, 1, 0, 0, 0, 0, 0, 0, 0},
                      charge[] = {1, 0, -1, 1, 0, -1, 0, 2, 0, 0}, strange[] = {0, 0, 0, 0, 0, 0, -1, 0, 0, 0}, i3[] = {2, 0, -2, 1, -1, -1, 0, 3, 0, 0};
  const int k = vc_choose("type", 10);
  const ParticleType &t = vc_type(types[k]);
  VC_ASSERT(density_factor(t, DensityType::Hadron) == hadron[k], "hadrons");
  VC_ASSERT(density_factor(t, DensityType::Baryon) == baryon[k], "baryon number");
  VC_ASSERT(density_factor(t, DensityType::Pion) == pion[k], "pions");
  VC_ASSERT(density_factor(t, DensityType::Charge) == charge[k], "charge");
  VC_ASSERT(density_factor(t, DensityType::Strangeness) == strange[k], "strangeness");
  VC_ASSERT(density_factor(t, DensityType::Isospin3_tot) == i3[k], "isospin projection");
  t.isospin_ = vc_choose("isospin", 4);
  VC_EQ(density_factor(t, DensityType::BaryonicIsospin) * t.isospin_, baryon[k] != 0 ? i3[k] * (t.isospin_ != 0) : 0, "isospin of baryons in units of the total isospin");
  if (t.isospin_ == 0) VC_ASSERT(density_factor(t, DensityType::BaryonicIsospin) == 0, "singlets");
  VC_ASSERT(density_factor(t, DensityType::None) == 0, "nothing");
}
// the smearing function
static void kernel(bool moving) {
  Params par;
  const double sigma = vc_double("sigma", 0.2, 3), cut = vc_double("cut", 0.5, 10);
  par->two_sig_sqr_inv_ = 1. / (2 * sigma * sigma);
  par->r_cut_sqr_ = cut * cut;
  const double m = vc_double("m", 0.1, 3);
  FourVector p(m, 0, 0, 0);
  if (moving) {
    const double x = vc_double("px", -3, 3), y = vc_double("py", -3, 3), z = vc_double("pz", -3, 3);
    p = FourVector(std::sqrt(m * m + x * x + y * y + z * z), x, y, z);
  }
  const ThreeVector r(vc_double("x", -5, 5), vc_double("y", -5, 5), vc_double("z", -5, 5));
  const ThreeVector u = p.threevec() * (1 / m);
  const double along = r[0] * u[0] + r[1] * u[1] + r[2] * u[2], rest = r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + along * along;
  if (!vc_symbolic()) VC_ASSUME(std::abs(rest - cut * cut) > 1e-6);
  const bool grad = vc_bool("gradient");
  const auto s = unnormalized_smearing_factor(r, p, 1 / m, *par, grad);
  if (rest > cut * cut) {
    VC_ASSERT(s.first == 0 && s.second[0] == 0 && s.second[1] == 0 && s.second[2] == 0, "nothing beyond the cut-off in the rest frame");
    return;
  }
  VC_ASSERT(s.first > 0 || (!vc_symbolic() && s.first == 0), "positive within");
  VC_LE(s.first, p.x0() / m, "at most the Lorentz factor");
  VC_EQ(s.first, std::exp(-rest * par->two_sig_sqr_inv_) * p.x0() / m, "a Gaussian of the distance in the rest frame");
  for (int i = 0; i < 3; i++) {
    // derivative of the distance in the rest frame with respect to the point
    const double d = 2 * (r[i] + u[i] * along);
    VC_EQ(s.second[i], grad ? s.first * d * par->two_sig_sqr_inv_ : 0, "its gradient");
  }
}
VC_PROOF(kernel_at_rest) { kernel(false); }
VC_PROOF(kernel_moving) { kernel(true); }
VC_PROOF(normalisation) {
  const double sigma = vc_double("sigma", 0.2, 3);
  const double n = smearing_factor_norm(2 * sigma * sigma);
  const double t = 2 * sigma * sigma * M_PI;
  VC_EQT(n * n, t * t * t, 1e-6, "norm of a Gaussian in three dimensions");
  VC_ASSERT(n > 0, "positive");
}
