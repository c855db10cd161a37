// P05: rotations and directions
//@sources threevector.cc
//@native random.cc
#include "geom.h"
#include "smash/angles.h"

VC_PROOF(euler_rotation) {
  ThreeVector a = any3("ax", "ay", "az"), b = any3("bx", "by", "bz");
  double phi = vc_double("phi", -10, 10), th = vc_double("theta", -10, 10), psi = vc_double("psi", -10, 10);
  ThreeVector ra = a, rb = b;
  ra.rotate(phi, th, psi);
  rb.rotate(phi, th, psi);
  VC_EQ(ra * rb, a * b, "rotations preserve scalar products");
  VC_EQ(ra.sqr(), a.sqr(), "rotations preserve lengths");
  ThreeVector rc = a.cross_product(b), c = ra.cross_product(rb);
  rc.rotate(phi, th, psi);
  for (int i = 0; i < 3; i++) VC_EQ(rc[i], c[i], "rotations preserve orientation");
}
VC_PROOF(axis_rotations) {
  ThreeVector a = any3("ax", "ay", "az");
  double t = vc_double("t", -10, 10);
  double c = std::cos(t), s = std::sin(t);
  ThreeVector y = a, z = a;
  y.rotate_around_y(t);
  z.rotate_around_z(t);
  VC_EQ(y.x2(), a.x2(), "rotation about y keeps y");
  VC_EQ(y.x1(), c * a.x1() + s * a.x3(), "x after rotation about y");
  VC_EQ(y.x3(), c * a.x3() - s * a.x1(), "z after rotation about y");
  VC_EQ(z.x3(), a.x3(), "rotation about z keeps z");
  VC_EQ(z.x1(), c * a.x1() - s * a.x2(), "x after rotation about z");
  VC_EQ(z.x2(), c * a.x2() + s * a.x1(), "y after rotation about z");
  VC_EQ(y.sqr(), a.sqr(), "length after rotation about y");
  VC_EQ(z.sqr(), a.sqr(), "length after rotation about z");
}
VC_PROOF(euler_decomposition) {
  ThreeVector a = any3("ax", "ay", "az");
  double phi = vc_double("phi", -10, 10), psi = vc_double("psi", -10, 10);
  ThreeVector r = a;
  r.rotate(phi, 0., psi);
  ThreeVector z = a;
  z.rotate_around_z(psi);
  z.rotate_around_z(phi);
  for (int i = 0; i < 3; i++) VC_EQ(r[i], z[i], "without tilt the Euler rotation is about z");
}
VC_PROOF(z_axis_to) {
  ThreeVector r = any3("rx", "ry", "rz");
  VC_ASSUME(r.x1() * r.x1() + r.x2() * r.x2() > 1e-6);
  VC_ASSUME(std::abs(r.x1()) > 1e-3 || std::abs(r.x2()) > 1e-3);
  ThreeVector e(0, 0, 1);
  e.rotate_z_axis_to(r);
  double n = r.abs();
  VC_EQ(e.x3() * n, r.x3(), "z component of the new axis");
  double st = std::sin(r.get_theta());
  double h = std::sqrt(r.x1() * r.x1() + r.x2() * r.x2());
  VC_EQ(e.x1() * h, st * r.x1(), "x component of the new axis");
  VC_EQ(e.x2() * h, st * r.x2(), "y component of the new axis");
  VC_LEMMA(n > 0, "length");
  VC_LEMMA(h > 0, "transverse length");
  VC_EQ((n * st) * (n * st), h * h, "transverse length");
}
VC_PROOF(angles_of_vector) {
  ThreeVector r = any3("rx", "ry", "rz");
  VC_ASSUME(r.x1() > 1e-3 || r.x1() < -1e-3);
  double th = r.get_theta(), ph = r.get_phi();
  VC_ASSERT(th >= 0 && th <= 3.14159265359, "polar angle in [0, pi]");
  VC_EQ(std::cos(th) * r.abs(), r.x3(), "polar angle");
  double h = std::sqrt(r.x1() * r.x1() + r.x2() * r.x2());
  VC_EQ(std::cos(ph) * h, r.x1(), "azimuth, x");
  VC_EQ(std::sin(ph) * h, r.x2(), "azimuth, y");
  VC_EQ(ThreeVector(0, 0, 0).get_theta(), 0, "polar angle of the null vector");
  VC_EQ(ThreeVector(0, 0, r.x3()).get_phi(), 0, "azimuth on the axis");
}
VC_PROOF(vector_algebra) {
  ThreeVector a = any3("ax", "ay", "az"), b = any3("bx", "by", "bz");
  double k = vc_double("k", -1e3, 1e3);
  ThreeVector s = a + b, d = a - b, m = a * k, m2 = k * a, n = -a, x = a.cross_product(b);
  for (int i = 0; i < 3; i++) {
    VC_EQ(s[i], a[i] + b[i], "sum");
    VC_EQ(d[i], a[i] - b[i], "difference");
    VC_EQ(m[i], a[i] * k, "product with a number");
    VC_EQ(m2[i], a[i] * k, "product with a number");
    VC_EQ(n[i], -a[i], "opposite");
  }
  VC_EQ(a * b, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "scalar product");
  VC_EQT(x * a, 0, 1e-4, "cross product is orthogonal to the first factor");
  VC_EQT(x * b, 0, 1e-4, "cross product is orthogonal to the second factor");
  VC_EQ(x.sqr() + (a * b) * (a * b), a.sqr() * b.sqr(), "cross product length");
  VC_EQ(ThreeVector(1, 0, 0).cross_product(ThreeVector(0, 1, 0)).x3(), 1, "right-handed");
  double l = a.abs();
  VC_ASSERT(l >= 0, "length is not negative");
  VC_EQ(l * l, a.sqr(), "length");
}
VC_PROOF(unit_directions) {
  double ph = vc_double("phi", -100, 100), c = vc_double("cos", -1, 1);
  Angles a;
  a.set_phi(ph);
  a.set_costheta(c);
  ThreeVector u = a.threevec();
  VC_EQ(u.sqr(), 1, "directions are unit vectors");
  VC_EQ(u.x3(), c, "z is the cosine of the polar angle");
  VC_EQ(a.sintheta() * a.sintheta() + c * c, 1, "sine and cosine of the polar angle");
  VC_ASSERT(a.sintheta() >= 0, "sine is not negative");
}
VC_PROOF(azimuth_range) {
  double ph = vc_double("phi", -1e6, 1e6);
  Angles a;
  a.set_phi(ph);
  VC_ASSERT(a.phi() >= 0, "azimuth is not negative");
  VC_LE(a.phi(), 6.2831853072, "azimuth is at most a full turn");
  double turns = (ph - a.phi()) / 6.283185307179586477;
  VC_EQT(turns, std::floor(turns + 0.5), 1e-6, "whole turns are taken off");
}
VC_PROOF(costheta_range) {
  double c = vc_double("cos", -10, 10);
  Angles a(0., 0.5);
  bool threw = false;
  try {
    a.set_costheta(c);
  } catch (const Angles::InvalidTheta &) {
    threw = true;
  }
  VC_ASSERT(threw == (c < -1 - 1e-6 || c > 1 + 1e-6), "refused exactly outside [-1, 1]");
  if (!threw) {
    VC_ASSERT(a.costheta() >= -1 && a.costheta() <= 1, "stored cosine is in [-1, 1]");
    VC_ASSERT(!(c >= -1 && c <= 1) || a.costheta() == c, "valid cosines are stored as given");
  }
}
VC_PROOF(isotropic) {
  Angles a;
  a.distribute_isotropically();
  VC_ASSERT(a.phi() >= 0 && a.phi() <= 6.2831853071795865, "azimuth in a full turn");
  VC_ASSERT(a.costheta() >= -1 && a.costheta() <= 1, "cosine in [-1, 1]");
  ThreeVector u = a.threevec();
  VC_EQ(u.sqr(), 1, "unit vector");
}
