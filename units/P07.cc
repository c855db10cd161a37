// P07: decays and two-body final states conserve four-momentum and are on shell
//@sources @types_support.cc action.cc decayaction.cc decaytype.cc processbranch.cc particledata.cc pdgcode.cc potential_globals.cc fourvector.cc threevector.cc
//@native random.cc logging.cc
#include "types.h"
#include "smash/action.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/potential_globals.h"

// an action as the scatterings define it, with the real sampling functions
class Act : public Action {
 public:
  Act(const ParticleList &in, const ParticleList &out) : Action(in, out, 0., ProcessType::TwoToTwo) {}
  double get_total_weight() const override { return 1; }
  double get_partial_weight() const override { return 1; }
  void generate_final_state() override { sample_2body_phasespace(); }
  void format_debug_output(std::ostream &) const override {}
};
// angles: momenta in the centre of mass for given masses and energy
VC_PROOF(back_to_back) {
  install_types();
  double ma = vc_double("ma", 0.05, 5), mb = vc_double("mb", 0.05, 5), w = vc_double("w", 0.1, 100);
  VC_ASSUME(w > ma + mb);
  if (!vc_symbolic()) VC_ASSUME(w > ma + mb + 1e-3);
  ParticleList in{ParticleData(vc_type(T_DELTA))}, out{ParticleData(vc_type(T_P)), ParticleData(vc_type(T_PIP))};
  Act a(in, out);
  a.sample_angles({ma, mb}, w);
  const FourVector pa = a.outgoing_particles()[0].momentum(), pb = a.outgoing_particles()[1].momentum();
  for (int i = 1; i < 4; i++) VC_EQ(pa[i] + pb[i], 0, "momenta are back to back");
  VC_EQT(pa.sqr(), ma * ma, 1e-5, "first particle on its mass shell");
  VC_EQT(pb.sqr(), mb * mb, 1e-5, "second particle on its mass shell");
  VC_ASSERT(pa.x0() > 0 && pb.x0() > 0, "energies are positive");
  double Ea = (w * w + ma * ma - mb * mb) / (2 * w), Eb = (w * w + mb * mb - ma * ma) / (2 * w);
  VC_LEMMA(Ea > 0 && Eb > 0, "energies from the masses are positive");
  VC_LEMMA_EQT(pa.x0() * pa.x0(), Ea * Ea, 1e-6, "square of the first energy");
  VC_LEMMA_EQT(pb.x0() * pb.x0(), Eb * Eb, 1e-6, "square of the second energy");
  VC_LEMMA_EQT(pa.x0(), Ea, 1e-6, "first energy");
  VC_LEMMA_EQT(pb.x0(), Eb, 1e-6, "second energy");
  VC_EQT(pa.x0() + pb.x0(), w, 1e-6, "the energies add up");
}
