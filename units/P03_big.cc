// P03: from_decimal for codes of eight and ten digits (through the string form).
// std::to_string is replaced by its contract: the decimal digits of its argument.
//@sources pdgcode.cc
#include "pdg_common.h"
using namespace smash;
static int g_expect, g_len, g_anti;
static char g_chars[12];
#ifndef VC_NATIVE
extern "C" void vcstub__ZNSt7__cxx119to_stringEi(std::string *r, int v) {
  VC_ASSERT(v == g_expect, "the given number is spelled out");
  new (r) std::string();
  if (g_anti) r->push_back('-');
  for (int i = 0; i < g_len; i++) r->push_back(g_chars[i]);
}
#endif
static void nuclear(bool anti) {
  VC_CONFIG("strings=1");
  Nuc n = vc_nuc();
  n.anti = anti;
  VC_ASSUME(n.A() >= n.Z() + n.L);
  VC_ASSUME(n.L <= 9);
  int v = 1000000000 + 10000000 * n.L + 1000000 * n.Z1 + 100000 * n.Z2 + 10000 * n.Z3 + 1000 * n.A1 + 100 * n.A2 + 10 * n.A3 + n.I;
  g_expect = anti ? -v : v;
  g_anti = anti;
  g_len = 10;
  int d[10] = {1, 0, n.L, n.Z1, n.Z2, n.Z3, n.A1, n.A2, n.A3, n.I};
  for (int i = 0; i < 10; i++) g_chars[i] = static_cast<char>('0' + d[i]);
  PdgCode p = PdgCode::from_decimal(g_expect);
  VC_ASSERT(p == make(n), "nucleus of the same digits");
}
VC_PROOF(nucleus_dec) { nuclear(false); }
VC_PROOF(nucleus_dec_anti) { nuclear(true); }
static void highspin(bool anti) {
  VC_CONFIG("strings=1");
  Digits d = vc_digits();
  d.anti = anti;
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  VC_ASSUME(d.J > 9);
  int x[8] = {d.J - 9, d.n, d.nR, d.nL, d.q1, d.q2, d.q3, 9};
  int v = 10000000 * x[0] + 1000000 * d.n + 100000 * d.nR + 10000 * d.nL + 1000 * d.q1 + 100 * d.q2 + 10 * d.q3 + 9;
  g_expect = anti ? -v : v;
  g_anti = anti;
  g_len = 8;
  for (int i = 0; i < 8; i++) g_chars[i] = static_cast<char>('0' + x[i]);
  PdgCode p = PdgCode::from_decimal(g_expect);
  VC_ASSERT(p == make(d), "same particle");
}
VC_PROOF(highspin_dec) { highspin(false); }
VC_PROOF(highspin_dec_anti) { highspin(true); }
