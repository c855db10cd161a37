// P03: from_decimal.  The hexadecimal constructor and std::to_string are
// replaced by their contracts (the former is proved in P03.cc).
//@sources pdgcode.cc
#include "pdg_common.h"
using namespace smash;
static int g_hex, g_called, g_str, g_expect, g_len;
static char g_chars[12];
#ifndef VC_NATIVE
extern "C" void vcstub__ZN5smash7PdgCodeC2Ei(void *p, int h) {
  g_hex = h;
  g_called++;
  *static_cast<uint32_t *>(p) = 0;
}
#endif
static int pow10(int k) { return k == 0 ? 1 : 10 * pow10(k - 1); }
static void short_code(int len, bool anti) {
  VC_CONFIG("ints=int,merge=0");
  static const char *nm[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6"};
  int dec = 0, hex = 0, p16 = 1, p10 = 1;
  for (int i = 0; i < len; i++) {
    int d = vc_int(nm[i], i == len - 1 ? 1 : 0, 9);
    if (i >= 1 && i <= 3) VC_ASSUME(d <= 6);
    dec += d * p10;
    hex += d * p16;
    p10 *= 10;
    p16 *= 16;
  }
  if (anti) dec = -dec, hex = -hex;
#ifdef VC_NATIVE
  PdgCode want, got;
  try {
    want = PdgCode(hex);
  } catch (...) {
    VC_ASSUME(false);
  }
  VC_NO_THROW(got = PdgCode::from_decimal(dec), "no exception");
  VC_ASSERT(got == want, "same digits in base 16");
#else
  PdgCode::from_decimal(dec);
  VC_ASSERT(g_called == 1 && g_hex == hex, "same digits in base 16");
#endif
}
VC_PROOF(dec1) { short_code(1, false); }
VC_PROOF(dec2) { short_code(2, false); }
VC_PROOF(dec3) { short_code(3, false); }
VC_PROOF(dec4) { short_code(4, false); }
VC_PROOF(dec5) { short_code(5, false); }
VC_PROOF(dec6) { short_code(6, false); }
VC_PROOF(dec7) { short_code(7, false); }
VC_PROOF(dec1m) { short_code(1, true); }
VC_PROOF(dec2m) { short_code(2, true); }
VC_PROOF(dec3m) { short_code(3, true); }
VC_PROOF(dec4m) { short_code(4, true); }
VC_PROOF(dec5m) { short_code(5, true); }
VC_PROOF(dec6m) { short_code(6, true); }
VC_PROOF(dec7m) { short_code(7, true); }
