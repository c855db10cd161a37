// P03: code round trips and refusal of malformed codes
//@sources pdgcode.cc
#include "pdg_common.h"
using namespace smash;

// decimal digits of the code; 2J+1 above nine spills into an eighth digit
static int dec_of(const Digits &d) {
  int j1 = d.J > 9 ? d.J - 9 : 0, j2 = d.J > 9 ? 9 : d.J;
  int v = j2 + 10 * d.q3 + 100 * d.q2 + 1000 * d.q1 + 10000 * d.nL + 100000 * d.nR + 1000000 * d.n + 10000000 * j1;
  return d.anti ? -v : v;
}
VC_PROOF(to_decimal) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  PdgCode p = make(d);
  VC_ASSERT(p.get_decimal() == dec_of(d), "decimal code");
  int32_t h = static_cast<int32_t>(hexcode(d));
  VC_ASSERT(p.code() == (d.anti ? -h : h), "hexadecimal code");
}
VC_PROOF(nucleus_to_decimal) {
  VC_CONFIG("strings=1");
  Nuc n = vc_nuc();
  n.anti = false;
  PdgCode p = make(n);
  VC_LEMMA(p.nucleus_A() == n.A(), "mass number");
  VC_LEMMA(p.nucleus_p() == n.Z(), "proton number");
  int v = n.I + 10 * n.A() + 10000 * n.Z() + 10000000 * n.L + 1000000000;
  VC_ASSERT(p.get_decimal() == v, "decimal code of a nucleus");
  VC_ASSERT(p.get_antiparticle().get_decimal() == -p.get_decimal(), "decimal code of an antinucleus");
}
// integers: accepted exactly when the digits denote a particle
VC_PROOF(accepts_int) {
  uint32_t h = vc_u32("hex") & 0x0fffffff;
  bool anti = vc_bool("anti");
  Digits d;
  d.J = h & 15, d.q3 = h >> 4 & 15, d.q2 = h >> 8 & 15, d.q1 = h >> 12 & 15, d.nL = h >> 16 & 15, d.nR = h >> 20 & 15, d.n = h >> 24 & 15;
  d.anti = anti;
  bool digits_ok = d.q1 <= 6 && d.q2 <= 6 && d.q3 <= 6 && d.n <= 9 && d.nR <= 9 && d.nL <= 9;
  bool KLS = h == 0x130 || h == 0x310;
  bool ok = digits_ok && (spec_valid(d) || KLS) && !(anti && h != 0 && spec_selfconj(d));
  VC_ASSUME(!(anti && h == 0));
  VC_ASSUME(!(anti && KLS));
  bool got = true;
  try {
    PdgCode p(anti ? -static_cast<int32_t>(h) : static_cast<int32_t>(h));
    VC_ASSERT(p.dump() == (h | (anti ? 0x80000000u : 0u)), "accepted codes are stored digit by digit");
  } catch (const PdgCode::InvalidPdgCode &) {
    got = false;
  }
  VC_ASSERT(got == ok, "accepted exactly when valid");
  VC_COVER("reached");
}
static bool isdig(int c) { return c >= '0' && c <= '9'; }
static int hexval(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}
// strings of up to seven digits without sign / with sign
static void string_contract(int len, int sign) {
  VC_CONFIG("strings=1");
  char b[12];
  static const char *nm[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"};
  int v[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  bool ok = len > 0;
  int o = 0;
  if (sign) b[o++] = sign > 0 ? '+' : '-';
  for (int i = 0; i < len; i++) {
    unsigned char c = vc_u8(nm[i]);
    b[o++] = static_cast<char>(c);
    int x = c < 128 ? hexval(c) : -1;
    if (x < 0) ok = false;
    v[len - 1 - i] = x;
  }
  // a sign in place of the first digit is another form, covered separately
  if (!sign) VC_ASSUME(b[0] != '+' && b[0] != '-');
  Digits d;
  d.J = v[0], d.q3 = v[1], d.q2 = v[2], d.q1 = v[3], d.nL = v[4], d.nR = v[5], d.n = v[6], d.anti = sign < 0;
  // letters are meant for the last (spin) digit only
  VC_ASSUME(d.nL <= 9);
  VC_ASSUME(d.nR <= 9);
  VC_ASSUME(d.n <= 9);
  if (len == 8) {
    VC_ASSUME(v[7] <= 6);
    VC_ASSUME(d.J <= 9);
    d.J += v[7];
  }
  bool KLS = false;
  if (ok) {
    if (d.q1 > 6 || d.q2 > 6 || d.q3 > 6) {
      ok = false;
    } else {
      uint32_t h = hexcode(d);
      KLS = h == 0x130 || h == 0x310;
      VC_ASSUME(!(d.anti && (h == 0 || KLS)));
      ok = (spec_valid(d) || KLS) && !(d.anti && spec_selfconj(d));
    }
  }
  bool got = true;
  try {
    PdgCode p(std::string(b, o));
    VC_ASSERT(ok, "only valid strings are accepted");
    VC_ASSERT(p.dump() == (hexcode(d) | (d.anti ? 0x80000000u : 0u)), "string is read digit by digit");
  } catch (const PdgCode::InvalidPdgCode &) {
    got = false;
  }
  VC_ASSERT(got == ok, "accepted exactly when valid");
}
VC_PROOF(string_0) { string_contract(0, 1); }
VC_PROOF(string_1) { string_contract(1, 0); }
VC_PROOF(string_2) { string_contract(2, 1); }
VC_PROOF(string_3) { string_contract(3, 0); }
VC_PROOF(string_4) { string_contract(4, -1); }
VC_PROOF(string_5) { string_contract(5, 0); }
VC_PROOF(string_6) { string_contract(6, -1); }
VC_PROOF(string_7) { string_contract(7, 0); }
VC_PROOF(string_8) { string_contract(8, -1); }
VC_PROOF(string_empty) {
  VC_CONFIG("strings=1");
  VC_THROWS(PdgCode(std::string("")), PdgCode::InvalidPdgCode, "empty string");
}
VC_PROOF(string_long) {
  VC_CONFIG("strings=1");
  int len = vc_symbolic() ? 0 : 0;
  (void)len;
  char b[16];
  for (int i = 0; i < 12; i++) b[i] = static_cast<char>(vc_u8("c"));
  VC_ASSUME(b[0] != '+' && b[0] != '-');
  VC_THROWS(PdgCode(std::string(b, 9)), PdgCode::InvalidPdgCode, "nine digits");
  VC_THROWS(PdgCode(std::string(b, 11)), PdgCode::InvalidPdgCode, "eleven digits");
  VC_THROWS(PdgCode(std::string(b, 12)), PdgCode::InvalidPdgCode, "twelve digits");
  VC_ASSUME(!(b[0] == '1' && b[1] == '0'));
  VC_THROWS(PdgCode(std::string(b, 10)), PdgCode::InvalidPdgCode, "ten digits not starting with 10");
}
