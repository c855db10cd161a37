// P09: the particle list through its public interface
//@sources @types_support.cc particles.cc particledata.cc pdgcode.cc
//@bounded iteration replacing create_many growing history frame_of_replace
#include "types.h"
#include "smash/particles.h"

// ghost: the particles that should be in the list
struct Ghost {
  int id[12];
  double E[12];
  int n = 0;
  void add(int i, double e) {
    id[n] = i;
    E[n] = e;
    n++;
  }
  void drop(int i) {
    for (int k = 0; k < n; k++)
      if (id[k] == i) {
        for (; k + 1 < n; k++) {
          id[k] = id[k + 1];
          E[k] = E[k + 1];
        }
        n--;
        return;
      }
  }
};
static ParticleData some(double E) {
  ParticleData p(vc_type(T_PIP));
  p.set_4momentum(FourVector(E, 0.1, 0.2, 0.3));
  return p;
}
static void same(Particles &l, const Ghost &g) {
  VC_ASSERT(l.size() == static_cast<size_t>(g.n) && l.is_empty() == (g.n == 0), "size");
  bool seen[12] = {};
  int count = 0;
  for (const ParticleData &p : l) {
    count++;
    bool found = false;
    for (int k = 0; k < g.n; k++)
      if (g.id[k] == p.id()) {
        found = true;
        VC_ASSERT(!seen[k], "each particle once");
        seen[k] = true;
        VC_EQ(p.momentum().x0(), g.E[k], "with its momentum");
        VC_ASSERT(l.is_valid(p), "each listed particle is valid");
      }
    VC_ASSERT(found, "no particle that was not put there");
  }
  VC_ASSERT(count == g.n, "every particle is visited");
  // and backwards
  if (g.n > 0) {
    int back = 1;
    auto b = l.begin();
    for (auto it = --l.end(); it != b; --it) back++;
    VC_ASSERT(back == g.n, "backwards too");
    VC_ASSERT(&l.front() == &*l.begin() && l.is_valid(l.back()), "first and last");
  }
}
static double any_E(const char *n) { return vc_double(n, -9, 9); }
// n particles, each of which may have been removed again
static Ghost punched(Particles &l, int n) {
  static const char *names[] = {"E0", "E1", "E2", "E3"};
  static const char *gone[] = {"gone0", "gone1", "gone2", "gone3"};
  Ghost g;
  ParticleList all;
  for (int i = 0; i < n; i++) {
    double e = any_E(names[i]);
    all.push_back(l.insert(some(e)));
    g.add(all.back().id(), e);
  }
  for (int i = 0; i < n; i++)
    if (vc_bool(gone[i])) {
      l.remove(all[i]);
      VC_ASSERT(!l.is_valid(all[i]), "removed particles are not valid");
      g.drop(all[i].id());
    }
  return g;
}
VC_PROOF(iteration) {
  VC_CONFIG("merge=0");
  install_types();
  Particles l;
  Ghost g = punched(l, 4);
  same(l, g);
}
VC_PROOF(history) {
  VC_CONFIG("merge=0");
  install_types();
  Particles l;
  Ghost g = punched(l, 3);
  double a = any_E("a"), b = any_E("b");
  ParticleData p = l.insert(some(a));
  g.add(p.id(), a);
  ParticleData &q = l.create(PdgCode(vc_codes[T_P]));
  q.set_4momentum(FourVector(b, 0, 0, 0));
  g.add(q.id(), b);
  VC_ASSERT(&q.type() == &vc_type(T_P), "created with the type asked for");
  same(l, g);
  ParticleData old = q;
  l.remove(p);
  g.drop(p.id());
  same(l, g);
  VC_ASSERT(l.is_valid(old) && &l.lookup(old) == &q, "found again after other changes");
  l.reset();
  VC_ASSERT(l.size() == 0 && l.is_empty(), "empty after a reset");
  Ghost h;
  ParticleData r = l.insert(some(a));
  h.add(r.id(), a);
  VC_ASSERT(r.id() == 0, "ids start again after a reset");
  same(l, h);
}
VC_PROOF(replacing) {
  VC_CONFIG("merge=0");
  install_types();
  Particles l;
  Ghost g = punched(l, 3);
  ParticleList in, out;
  for (const ParticleData &p : l) in.push_back(p);
  int take = vc_choose("take", 4), put = vc_choose("put", 4);
  VC_ASSUME(take <= g.n);
  while (static_cast<int>(in.size()) > take) in.pop_back();
  static const char *names[] = {"n0", "n1", "n2"};
  double e[3];
  for (int i = 0; i < put; i++) {
    e[i] = any_E(names[i]);
    out.push_back(some(e[i]));
  }
  l.replace(in, out);
  for (auto &p : in) {
    VC_ASSERT(!l.is_valid(p), "replaced particles are not valid any more");
    g.drop(p.id());
  }
  for (int i = 0; i < put; i++) {
    VC_ASSERT(l.is_valid(out[i]), "the new ones are, as handed back");
    VC_EQ(l.lookup(out[i]).momentum().x0(), e[i], "and found in the list");
    for (int k = 0; k < g.n; k++) VC_ASSERT(out[i].id() != g.id[k], "with fresh ids");
    g.add(out[i].id(), e[i]);
  }
  same(l, g);
}
VC_PROOF(frame_of_replace) {
  // update without replacing keeps identity; with replacing gives a new one
  install_types();
  Particles l;
  ParticleList was, now;
  double a = any_E("a"), b = any_E("b"), c = any_E("c");
  was.push_back(l.insert(some(a)));
  ParticleData other = l.insert(some(b));
  now.push_back(some(c));
  bool replace = vc_bool("replace");
  l.update(was, now, replace);
  VC_ASSERT(l.size() == 2, "two particles");
  VC_ASSERT((now[0].id() == was[0].id()) == !replace, "same particle exactly if not replaced");
  VC_ASSERT(l.is_valid(now[0]), "handed back as stored");
  VC_EQ(l.lookup(now[0]).momentum().x0(), c, "with the new momentum");
  VC_ASSERT(l.is_valid(other), "the other particle stays");
  VC_EQ(l.lookup(other).momentum().x0(), b, "with its momentum");
}
VC_PROOF(create_many) {
  VC_CONFIG("merge=0");
  install_types();
  Particles l;
  Ghost g = punched(l, 3);
  int n = vc_choose("n", 4), before = g.n;
  l.create(n, PdgCode(vc_codes[T_P]));
  VC_ASSERT(l.size() == static_cast<size_t>(before + n), "as many as asked for");
  int protons = 0;
  for (auto &p : l) {
    bool is_old = false;
    for (int k = 0; k < g.n; k++) {
      if (p.id() == g.id[k]) {
        is_old = true;
        VC_ASSERT(p.type() == vc_type(T_PIP), "old ones keep their type");
      }
    }
    if (!is_old) {
      protons++;
      VC_ASSERT(p.type() == vc_type(T_P), "of the type asked for");
    }
    for (auto &q : l) VC_ASSERT((p.id() == q.id()) == (&p == &q), "with ids of their own");
  }
  VC_ASSERT(protons == n, "all created");
}
// more particles than the initial memory holds
VC_PROOF(growing) {
  VC_CONFIG("unroll=2000,merge=0");
  install_types();
  Particles l;
  double a = any_E("a");
  ParticleData first = l.insert(some(a));
  l.create(97, PdgCode(vc_codes[T_P]));
  ParticleData q = l.insert(some(any_E("b"))), r = l.insert(some(any_E("c")));
  VC_ASSERT(l.size() == 100, "size");
  l.remove(q);
  l.create(120, PdgCode(vc_codes[T_PIM]));
  VC_ASSERT(l.size() == 219, "size after growing");
  VC_ASSERT(l.is_valid(first) && l.is_valid(r) && !l.is_valid(q), "growing keeps the particles");
  VC_EQ(l.lookup(first).momentum().x0(), a, "and their momenta");
  int n = 0, last = -1;
  unsigned idx = 0;
  for (auto &p : l) {
    n++;
    VC_ASSERT(l.is_valid(p), "all valid");
  }
  VC_ASSERT(n == 219, "all there");
}
