// P04: Lorentz boosts
//@sources fourvector.cc
#include "geom.h"

VC_PROOF(invariant_square) {
  ThreeVector v = any_velocity();
  FourVector p = any4("E", "px", "py", "pz");
  FourVector q = p.lorentz_boost(v);
  VC_EQT(q.sqr(), p.sqr(), 1e-4, "the invariant square is preserved");
}
VC_PROOF(invariant_product) {
  ThreeVector v = any_velocity();
  FourVector p = any4("E", "px", "py", "pz"), k = any4("F", "kx", "ky", "kz");
  VC_EQT(p.lorentz_boost(v).Dot(k.lorentz_boost(v)), p.Dot(k), 1e-4, "scalar products are preserved");
}
VC_PROOF(round_trip) {
  ThreeVector v = any_velocity();
  FourVector p = any4("E", "px", "py", "pz");
  FourVector r = p.lorentz_boost(v).lorentz_boost(-v);
  for (int i = 0; i < 4; i++) VC_EQT(r[i], p[i], 1e-4, "boosting there and back is the identity");
}
VC_PROOF(linear) {
  ThreeVector v = any_velocity();
  FourVector p = any4("E", "px", "py", "pz"), k = any4("F", "kx", "ky", "kz");
  double a = vc_double("a", -1e3, 1e3);
  FourVector l = (p + a * k).lorentz_boost(v), r = p.lorentz_boost(v) + k.lorentz_boost(v) * a;
  for (int i = 0; i < 4; i++) VC_EQT(l[i], r[i], 1e-4, "boosts are linear");
}
VC_PROOF(rest_frame) {
  double m = vc_double("m", 1e-3, 1e3);
  ThreeVector k = any3("px", "py", "pz");
  double E = std::sqrt(m * m + k * k);
  FourVector p(E, k);
  ThreeVector v = p.velocity();
  if (!vc_symbolic()) VC_ASSUME(v.sqr() < 0.9999);
  FourVector q = p.lorentz_boost(v);
  VC_EQT(q.x1(), 0, 1e-4, "a massive particle is at rest in its own frame");
  VC_EQT(q.x2(), 0, 1e-4, "a massive particle is at rest in its own frame");
  VC_EQT(q.x3(), 0, 1e-4, "a massive particle is at rest in its own frame");
  VC_EQT(q.x0(), m, 1e-4, "its energy there is its mass");
}
VC_PROOF(to_moving) {
  double m = vc_double("m", 1e-3, 1e3);
  ThreeVector v = any_velocity();
  FourVector q = FourVector(m, 0, 0, 0).lorentz_boost(v);
  double g = 1 / std::sqrt(1 - v.sqr());
  VC_EQ(q.x0(), g * m, "energy of a particle at rest seen from a moving frame");
  VC_EQ(q.x1(), -g * m * v.x1(), "momentum along x");
  VC_EQ(q.x2(), -g * m * v.x2(), "momentum along y");
  VC_EQ(q.x3(), -g * m * v.x3(), "momentum along z");
}
// velocities arbitrarily close to that of light
VC_PROOF(ultrarelativistic) {
  double m = vc_double("m", 1e-3, 1e3), eps = vc_double("eps", 1e-9, 0.5), c = vc_double("c", -1., 1.);
  ThreeVector v = (1. - eps) * ThreeVector(std::sqrt(1 - c * c), 0, c);
  FourVector q = FourVector(m, 0, 0, 0).lorentz_boost(v);
  double g = 1 / std::sqrt(1 - v.sqr());
  VC_EQT(q.x0(), g * m, 1e-5, "energy of a particle at rest seen from a fast frame");
  VC_EQT(q.x1(), -g * m * v.x1(), 1e-5, "momentum along x seen from a fast frame");
  VC_EQT(q.x3(), -g * m * v.x3(), 1e-5, "momentum along z seen from a fast frame");
}
VC_PROOF(zero_boost) {
  FourVector p = any4("E", "px", "py", "pz");
  FourVector q = p.lorentz_boost(ThreeVector(0, 0, 0));
  for (int i = 0; i < 4; i++) VC_EQ(q[i], p[i], "no velocity, no change");
}
VC_PROOF(transverse) {
  ThreeVector v = any_velocity();
  FourVector p = any4("E", "px", "py", "pz");
  FourVector q = p.lorentz_boost(v);
  ThreeVector a = v.cross_product(q.threevec()), b = v.cross_product(p.threevec());
  for (int i = 0; i < 3; i++) VC_EQT(a[i], b[i], 1e-5, "components across the boost are kept");
}
VC_PROOF(forward_energy) {
  ThreeVector v = any_velocity();
  double m = vc_double("m", 1e-3, 1e3);
  ThreeVector k = any3("px", "py", "pz");
  FourVector p(std::sqrt(m * m + k * k), k);
  double kv = k * v;
  VC_LEMMA(kv * kv <= (k * k) * (v * v) + (vc_symbolic() ? 0 : 1e-3), "Cauchy-Schwarz");
  FourVector q = p.lorentz_boost(v);
  VC_ASSERT(q.x0() > 0, "energies stay positive");
}
VC_PROOF(algebra) {
  FourVector p = any4("E", "px", "py", "pz"), k = any4("F", "kx", "ky", "kz");
  double a = vc_double("a", -1e3, 1e3);
  FourVector s = p + k, d = p - k, m = p * a, m2 = a * p;
  for (int i = 0; i < 4; i++) {
    VC_EQ(s[i], p[i] + k[i], "sum by components");
    VC_EQ(d[i], p[i] - k[i], "difference by components");
    VC_EQ(m[i], a * p[i], "product with a number");
    VC_EQ(m2[i], a * p[i], "product with a number");
  }
  VC_EQ(p.Dot(k), p[0] * k[0] - p[1] * k[1] - p[2] * k[2] - p[3] * k[3], "Minkowski product");
  VC_EQ(p.sqr(), p.Dot(p), "square");
  VC_EQ(p.sqr3(), p[1] * p[1] + p[2] * p[2] + p[3] * p[3], "three-momentum square");
  VC_ASSUME(a > 1e-3);
  FourVector q = p / a;
  for (int i = 0; i < 4; i++) VC_EQ(q[i] * a, p[i], "division by a number");
}
VC_PROOF(invariant_mass) {
  FourVector p = any4("E", "px", "py", "pz");
  VC_ASSUME(p.sqr() > 1e-9);
  double m = p.abs();
  VC_ASSERT(m >= 0, "invariant mass is not negative");
  VC_EQ(m * m, p.sqr(), "its square is the invariant square");
  double m3 = p.abs3();
  VC_ASSERT(m3 >= 0, "momentum magnitude is not negative");
  VC_EQ(m3 * m3, p.sqr3(), "its square is the momentum square");
}
VC_PROOF(spacelike_refused) {
  FourVector p = any4("E", "px", "py", "pz");
  VC_ASSUME(p.sqr() < -1e-5);
  VC_THROWS(p.abs(), std::runtime_error, "no invariant mass for space-like vectors");
}
