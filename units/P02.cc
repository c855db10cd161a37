// P02: charge conjugation
//@sources pdgcode.cc
#include "pdg_common.h"
using namespace smash;

static void conj_contract(const PdgCode &p, bool self) {
  VC_ASSERT(p.has_antiparticle() == !self, "who has an antiparticle");
  if (self) return;
  PdgCode q = p.get_antiparticle();
  VC_ASSERT(q != p, "the antiparticle is a different particle");
  VC_ASSERT(q.get_antiparticle() == p, "conjugation is an involution");
  VC_ASSERT(q.charge() == -p.charge(), "charge flips");
  VC_ASSERT(q.baryon_number() == -p.baryon_number(), "baryon number flips");
  VC_ASSERT(q.strangeness() == -p.strangeness(), "strangeness flips");
  VC_ASSERT(q.charmness() == -p.charmness(), "charm flips");
  VC_ASSERT(q.bottomness() == -p.bottomness(), "bottomness flips");
  VC_ASSERT(q.isospin3() == -p.isospin3(), "isospin projection flips");
  VC_ASSERT(q.antiparticle_sign() == -p.antiparticle_sign(), "sign flips");
  VC_ASSERT(q.is_baryon() == p.is_baryon() && q.is_meson() == p.is_meson() && q.is_lepton() == p.is_lepton() && q.is_nucleus() == p.is_nucleus(),
            "family is kept");
  VC_ASSERT(q.has_antiparticle(), "the antiparticle has an antiparticle");
  VC_ASSERT(q.quarks() == p.quarks(), "quark digits are kept");
  VC_ASSERT(q.get_decimal() == -p.get_decimal(), "decimal code flips sign");
}
VC_PROOF(elementary) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  // neutral kaons written as K_L, K_S are mixtures, without an antiparticle of their own
  VC_ASSUME(!(spec_meson(d) && d.J == 0));
  PdgCode p = make(d);
  conj_contract(p, spec_selfconj(d));
  if (!spec_selfconj(d)) {
    PdgCode q = p.get_antiparticle();
    Digits e = d;
    e.anti = !d.anti;
    VC_ASSERT(q == make(e), "same code with the other sign");
    VC_ASSERT(p.is_antiparticle_of(q) && q.is_antiparticle_of(p), "recognised as antiparticles of each other");
    VC_ASSERT(q.spin() == p.spin() && q.spin_degeneracy() == p.spin_degeneracy(), "spin is kept");
    VC_COVER("conjugate");
  }
}
VC_PROOF(relation) {
  Digits d = vc_digits(), e = vc_digits();
  VC_ASSUME(spec_valid(d) && spec_valid(e));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  VC_ASSUME(!(e.anti && spec_selfconj(e)));
  VC_ASSUME(hexcode(d) != 0);
  PdgCode p = make(d), q = make(e);
  bool conj = hexcode(d) == hexcode(e) && d.anti != e.anti;
  VC_ASSERT(p.is_antiparticle_of(q) == conj, "antiparticle relation is exact");
  VC_ASSERT((p == q) == (hexcode(d) == hexcode(e) && d.anti == e.anti), "equality is exact");
}
static void nucleus_contract(bool anti) {
  VC_CONFIG("strings=1");
  Nuc n = vc_nuc();
  n.anti = anti;
  VC_ASSUME(n.A() >= n.Z() + n.L);
  PdgCode p = make(n);
  conj_contract(p, false);
  PdgCode q = p.get_antiparticle();
  VC_ASSERT(q.nucleus_A() == p.nucleus_A(), "mass number is kept");
  VC_ASSERT(q.nucleus_p() == p.nucleus_ap() && q.nucleus_ap() == p.nucleus_p(), "protons become antiprotons");
  VC_ASSERT(q.nucleus_n() == p.nucleus_an() && q.nucleus_an() == p.nucleus_n(), "neutrons become antineutrons");
  VC_ASSERT(q.nucleus_La() == p.nucleus_aLa() && q.nucleus_aLa() == p.nucleus_La(), "Lambdas become anti-Lambdas");
}
VC_PROOF(nucleus_matter) { nucleus_contract(false); }
VC_PROOF(nucleus_antimatter) { nucleus_contract(true); }
