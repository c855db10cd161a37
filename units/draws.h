// The random numbers the code is going to draw.
#ifndef VC_DRAWS_H
#define VC_DRAWS_H
#include "vc.h"
#include "smash/random.h"
#ifdef VC_NATIVE
static double vc_draw(int k) {
  auto saved = smash::random::engine;
  double x = 0;
  for (int i = 0; i <= k; i++) x = smash::random::canonical();
  smash::random::engine = saved;
  return x;
}
#else
extern "C" double vc_sym_draw(int k);
static double vc_draw(int k) { return vc_sym_draw(k); }
#endif
#endif
