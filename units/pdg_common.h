// Independent reading of the PDG numbering scheme (the oracle).
#ifndef PDG_COMMON_H
#define PDG_COMMON_H
#include "vc.h"
#include "smash/pdgcode.h"

struct Digits {
  int n, nR, nL, q1, q2, q3, J;
  bool anti;
};
// all codes made of proper digits; J is 2J+1 (up to hexadecimal f)
inline Digits vc_digits() {
  Digits d;
  d.n = vc_u8("n") & 15;
  d.nR = vc_u8("nR") & 15;
  d.nL = vc_u8("nL") & 15;
  d.q1 = vc_u8("q1") & 7;
  d.q2 = vc_u8("q2") & 7;
  d.q3 = vc_u8("q3") & 7;
  d.J = vc_u8("J") & 15;
  d.anti = vc_bool("anti");
  VC_ASSUME(d.n <= 9);
  VC_ASSUME(d.nR <= 9);
  VC_ASSUME(d.nL <= 9);
  VC_ASSUME(d.q1 <= 6);
  VC_ASSUME(d.q2 <= 6);
  VC_ASSUME(d.q3 <= 6);
  return d;
}
inline uint32_t hexcode(const Digits &d) {
  return static_cast<uint32_t>(d.J) | static_cast<uint32_t>(d.q3) << 4 | static_cast<uint32_t>(d.q2) << 8 | static_cast<uint32_t>(d.q1) << 12 |
         static_cast<uint32_t>(d.nL) << 16 | static_cast<uint32_t>(d.nR) << 20 | static_cast<uint32_t>(d.n) << 24;
}
inline bool spec_hadron(const Digits &d) { return d.q2 != 0 && d.q3 != 0; }
inline bool spec_baryon(const Digits &d) { return spec_hadron(d) && d.q1 != 0; }
inline bool spec_meson(const Digits &d) { return spec_hadron(d) && d.q1 == 0; }
inline bool spec_selfconj(const Digits &d) {
  return spec_baryon(d) ? false : spec_meson(d) ? d.q2 == d.q3 : d.q3 != 1;
}
// which digit strings denote a particle
inline bool spec_valid(const Digits &d) {
  if (spec_baryon(d)) {
    if (d.J == 0 || d.J % 2 != 0) return false;
  } else if (spec_meson(d)) {
    uint32_t low = hexcode(d);
    bool kl = low == 0x130 || low == 0x310;
    // K0_L and K0_S carry no spin digit (and exist without sign only)
    if (d.J % 2 == 0 && !(kl && !d.anti)) return false;
  } else {
    if (d.J == 0 && !(hexcode(d) == 0 && !d.anti)) return false;
  }
  return true;
}
inline smash::PdgCode make(const Digits &d) {
  int32_t c = static_cast<int32_t>(hexcode(d));
  return smash::PdgCode(d.anti ? -c : c);
}
// number of quarks minus antiquarks of one flavour
inline int spec_net(const Digits &d, int f) {
  int s = d.anti ? -1 : 1;
  if (spec_baryon(d)) {
    int k = 0;
    if (d.q1 == f) k++;
    if (d.q2 == f) k++;
    if (d.q3 == f) k++;
    return s * k;
  }
  if (!spec_meson(d) || d.q2 == d.q3) return 0;
  int heavy = d.q2 > d.q3 ? d.q2 : d.q3;
  int light = d.q2 > d.q3 ? d.q3 : d.q2;
  // an up-type heavy quark is the quark, a down-type one the antiquark
  int quark = heavy % 2 == 0 ? heavy : light;
  int antiquark = heavy % 2 == 0 ? light : heavy;
  if (f == quark) return s;
  if (f == antiquark) return -s;
  return 0;
}
struct Nuc {
  int L, Z1, Z2, Z3, A1, A2, A3, I;
  bool anti;
  int Z() const { return 100 * Z1 + 10 * Z2 + Z3; }
  int A() const { return 100 * A1 + 10 * A2 + A3; }
};
inline int vc_digit(const char *n) {
  int d = vc_u8(n) & 15;
  VC_ASSUME(d <= 9);
  return d;
}
inline Nuc vc_nuc() {
  Nuc n;
  n.L = vc_digit("L");
  n.Z1 = vc_digit("Z1");
  n.Z2 = vc_digit("Z2");
  n.Z3 = vc_digit("Z3");
  n.A1 = vc_digit("A1");
  n.A2 = vc_digit("A2");
  n.A3 = vc_digit("A3");
  n.I = vc_digit("I");
  n.anti = vc_bool("anti");
  return n;
}
inline smash::PdgCode make(const Nuc &n) {
  char b[12];
  int i = 0;
  b[i++] = n.anti ? '-' : '+';
  b[i++] = '1';
  b[i++] = '0';
  b[i++] = static_cast<char>('0' + n.L);
  b[i++] = static_cast<char>('0' + n.Z1);
  b[i++] = static_cast<char>('0' + n.Z2);
  b[i++] = static_cast<char>('0' + n.Z3);
  b[i++] = static_cast<char>('0' + n.A1);
  b[i++] = static_cast<char>('0' + n.A2);
  b[i++] = static_cast<char>('0' + n.A3);
  b[i++] = static_cast<char>('0' + n.I);
  return smash::PdgCode(std::string(b, 11));
}
#endif
