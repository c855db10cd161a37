// A table of particle types for contracts that involve particles.
#ifndef VC_TYPES_H
#define VC_TYPES_H
#include <algorithm>
#include <vector>
#include "vc.h"
#include "smash/particledata.h"
#include "smash/particletype.h"
#include "smash/pdgcode_constants.h"
namespace smash {
void vc_set_types(const ParticleTypeList *l);
}
using namespace smash;
// type by position in the table below, after install_types()
static ParticleTypeList *vc_types;
enum { T_PIP, T_PIZ, T_PIM, T_P, T_N, T_PBAR, T_LAMBDA, T_DELTA, T_RHO, T_PHOTON, T_COUNT };
static const std::int32_t vc_codes[T_COUNT] = {0x211, 0x111, -0x211, 0x2212, 0x2112, -0x2212, 0x3122, 0x2224, 0x113, 0x22};
static const double vc_masses[T_COUNT] = {0.138, 0.138, 0.138, 0.938, 0.938, 0.938, 1.116, 1.232, 0.776, 0.0};
static const double vc_widths[T_COUNT] = {0, 0, 0, 0, 0, 0, 0, 0.117, 0.149, 0};
inline void install_types() {
  if (vc_types) delete vc_types;
  vc_types = new ParticleTypeList;
  vc_types->reserve(T_COUNT);
  for (int i = 0; i < T_COUNT; i++)
    vc_types->emplace_back("x", vc_masses[i], vc_widths[i], Parity::Pos, PdgCode(vc_codes[i]));
  std::sort(vc_types->begin(), vc_types->end());
  vc_set_types(vc_types);
}
inline const ParticleType &vc_type(int i) { return ParticleType::find(PdgCode(vc_codes[i])); }
#endif
