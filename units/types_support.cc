// The real particletype.cc, with access to its file-local list of types.
#include "particletype.cc"
namespace smash {
void vc_set_types(const ParticleTypeList *l) { all_particle_types = l; }
}  // namespace smash
