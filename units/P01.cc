// P01: additive quantum numbers = sums over the quark (nucleon) content
//@sources pdgcode.cc
#include "pdg_common.h"
using namespace smash;

VC_PROOF(hadron_content) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  VC_ASSUME(spec_hadron(d));
  PdgCode p = make(d);
  int Q3 = 0;
  for (int f = 1; f <= 6; f++) {
    int net = spec_net(d, f);
    Q3 += (f == 2 || f == 4 || f == 6 ? 2 : -1) * net;
    VC_ASSERT(p.net_quark_number(f) == net, "net quark number per flavour");
  }
  VC_ASSERT(3 * p.charge() == Q3, "charge is the sum of the quark charges");
  int B = spec_baryon(d) ? (d.anti ? -1 : 1) : 0;
  VC_ASSERT(p.baryon_number() == B, "baryon number");
  VC_ASSERT(p.strangeness() == -spec_net(d, 3), "strangeness");
  VC_ASSERT(p.charmness() == spec_net(d, 4), "charm");
  VC_ASSERT(p.bottomness() == -spec_net(d, 5), "bottomness");
  VC_ASSERT(p.isospin3() == spec_net(d, 2) - spec_net(d, 1), "isospin projection");
  VC_COVER("reached");
}
VC_PROOF(hadron_spin) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  VC_ASSUME(spec_hadron(d));
  PdgCode p = make(d);
  VC_ASSERT(static_cast<int>(p.spin()) == (d.J == 0 ? 0 : d.J - 1), "twice the spin");
  VC_ASSERT(static_cast<int>(p.spin_degeneracy()) == (d.J == 0 ? 1 : d.J), "spin degeneracy");
}
VC_PROOF(quark_list) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  VC_ASSUME(spec_hadron(d));
  VC_ASSUME(spec_baryon(d) || d.q2 >= d.q3);   // PDG order, leaves out K0_L
  PdgCode p = make(d);
  std::array<int, 3> q = p.quark_content();
  for (int f = 1; f <= 6; f++) {
    int net = 0;
    for (int i = 0; i < 3; i++) {
      if (q[i] == f) net++;
      if (q[i] == -f) net--;
    }
    VC_ASSERT(net == spec_net(d, f), "listed quarks reproduce the net content");
  }
  int s = spec_baryon(d) && d.anti ? -1 : 1;
  if (spec_baryon(d)) {
    VC_ASSERT(q[0] == s * d.q1 && q[1] == s * d.q2 && q[2] == s * d.q3, "baryon quarks in order");
  } else {
    VC_ASSERT(q[0] == 0, "two constituents");
    VC_ASSERT((q[1] == d.q2 && q[2] == -d.q3) || (q[1] == -d.q2 && q[2] == d.q3), "one quark and one antiquark");
  }
}
VC_PROOF(hidden_fraction) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  PdgCode p = make(d);
  int n = spec_baryon(d) ? 3 : 2;
  int ks = 0, kc = 0, kb = 0;
  if (spec_hadron(d)) {
    int q[3] = {d.q1, d.q2, d.q3};
    for (int i = 0; i < 3; i++) {
      if (q[i] == 3) ks++;
      if (q[i] == 4) kc++;
      if (q[i] == 5) kb++;
    }
  }
  VC_EQ(n * p.frac_strange(), ks, "fraction of strange quarks");
  VC_EQ(n * p.frac_charm(), kc, "fraction of charm quarks");
  VC_EQ(n * p.frac_bottom(), kb, "fraction of bottom quarks");
  VC_ASSERT(p.is_heavy_flavor() == (kc + kb > 0), "heavy flavour flag");
}
VC_PROOF(non_hadron) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d) && !(d.q3 == 2 && d.J == 4)));
  VC_ASSUME(d.q1 == 0 && d.q2 == 0 && d.n == 0 && d.nR == 0 && d.nL == 0);
  bool W = d.q3 == 2 && d.J == 4;
  VC_ASSUME(!(W && d.anti));  // W- is not representable
  PdgCode p = make(d);
  int s = d.anti ? -1 : 1;
  int Q = 0;
  if (d.q3 == 1) Q = d.J % 2 == 1 ? -s : 0;
  if (W) Q = 1;
  VC_ASSERT(p.charge() == Q, "charge of leptons and bosons");
  VC_ASSERT(p.baryon_number() == 0 && p.strangeness() == 0 && p.charmness() == 0 && p.bottomness() == 0 && p.isospin3() == 0,
            "no hadronic quantum numbers");
  for (int f = 1; f <= 6; f++) VC_ASSERT(p.net_quark_number(f) == 0, "no quarks");
  VC_ASSERT(p.is_lepton() == (d.q3 == 1), "lepton");
  VC_ASSERT(p.is_neutrino() == (d.q3 == 1 && d.J % 2 == 0), "neutrino");
}
static void nucleus_contract(bool anti) {
  VC_CONFIG("strings=1");
  Nuc n = vc_nuc();
  n.anti = anti;
  VC_ASSUME(n.A() >= n.Z() + n.L);
  PdgCode p = make(n);
  int s = n.anti ? -1 : 1;
  int N = n.A() - n.Z() - n.L;
  VC_ASSERT(p.is_nucleus() && !p.is_hadron() && !p.is_baryon() && !p.is_meson() && !p.is_lepton(), "classified as a nucleus");
  VC_ASSERT(p.charge() == s * n.Z(), "charge");
  VC_ASSERT(p.baryon_number() == s * n.A(), "baryon number");
  VC_ASSERT(p.strangeness() == -s * n.L, "strangeness");
  VC_ASSERT(p.charmness() == 0 && p.bottomness() == 0, "no charm, no bottom");
  VC_ASSERT(p.isospin3() == s * (n.Z() - N), "isospin projection");
  VC_ASSERT(p.net_quark_number(1) == s * (2 * N + n.Z() + n.L), "down quarks");
  VC_ASSERT(p.net_quark_number(2) == s * (N + 2 * n.Z() + n.L), "up quarks");
  VC_ASSERT(p.nucleus_A() == n.A(), "mass number");
  VC_ASSERT(p.nucleus_p() == (n.anti ? 0 : n.Z()) && p.nucleus_ap() == (n.anti ? n.Z() : 0), "protons");
  VC_ASSERT(p.nucleus_n() == (n.anti ? 0 : N) && p.nucleus_an() == (n.anti ? N : 0), "neutrons");
  VC_ASSERT(p.nucleus_La() == (n.anti ? 0 : n.L) && p.nucleus_aLa() == (n.anti ? n.L : 0), "Lambdas");
}
VC_PROOF(nucleus_matter) { nucleus_contract(false); }
VC_PROOF(nucleus_antimatter) { nucleus_contract(true); }
VC_PROOF(flavour_range) {
  Digits d = vc_digits();
  VC_ASSUME(spec_valid(d));
  VC_ASSUME(!(d.anti && spec_selfconj(d)));
  PdgCode p = make(d);
  int f = static_cast<int>(vc_u32("flavour"));
  VC_ASSUME(f < 1 || f > 6);
  VC_THROWS(p.net_quark_number(f), std::invalid_argument, "unknown flavours are refused");
}
