#include "vc.h"
#include "smash/pdgcode.h"
#include "smash/fourvector.h"
using namespace smash;
VC_PROOF(pdg_charge) {
  uint32_t c = vc_u32("code");
  PdgCode p;
  VC_ASSERT(p.charge() == 0, "zero");
  FourVector a(vc_double("a0"),vc_double("a1"),vc_double("a2"),vc_double("a3"));
  ThreeVector v(vc_double("v1"),vc_double("v2"),vc_double("v3"));
  VC_ASSUME(v.sqr() < 1);
  FourVector b = a.lorentz_boost(v);
  VC_EQ(b.sqr(), a.sqr(), "inv");
}
