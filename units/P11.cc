// P11: the cell grid of the collision search
//@sources @types_support.cc grid.cc particles.cc particledata.cc pdgcode.cc fourvector.cc threevector.cc logging.cc
//@native random.cc
//@bounded *
//@thorough pairs_periodic_x2 pairs_periodic_y2 pairs_periodic_z2
#include <array>
#include "types.h"
#include "smash/grid.h"
typedef std::array<double, 3> D3;
typedef std::pair<D3, D3> MinLength;
typedef Grid<GridOptions::Normal> Open;
typedef Grid<GridOptions::PeriodicBoundaries> Periodic;

static double pos(const char *n, double lo, double len, bool closed) {
  double x = vc_double(n, lo, lo + len);
  VC_ASSUME(closed || x < lo + len);
  return x;
}
// how often the callbacks present the two particles (ids 0 and 1) closer than
// 1 fm in every direction, and how often at all
struct Counter {
  int near = 0, total = 0, single[2] = {0, 0};
  static bool close(double a, double b) { return a - b < 1 && b - a < 1; }
  void pair(const ParticleData &p, const ParticleData &q) {
    total++;
    bool c = true;
    for (int k = 1; k < 4; k++) c = c & close(p.position()[k], q.position()[k]);
    near += c ? 1 : 0;
  }
  void in_cell(const ParticleList &s) {
    for (size_t i = 0; i < s.size(); i++) {
      single[s[i].id()]++;
      for (size_t j = i + 1; j < s.size(); j++) pair(s[i], s[j]);
    }
  }
  void across(const ParticleList &s, const ParticleList &n) {
    for (const ParticleData &p : s)
      for (const ParticleData &q : n) pair(p, q);
  }
};
template <class G>
static void run(const G &g, Counter &c) {
  g.iterate_cells([&c](const ParticleList &s) { c.in_cell(s); },
                  [&c](const ParticleList &s, const ParticleList &n) { c.across(s, n); });
}
static void put(Particles &P, double x, double y, double z) {
  ParticleData p(vc_type(T_PIP));
  p.set_4position(FourVector(1., x, y, z));
  p.set_4momentum(0.138, 0.1, 0.2, 0.3);
  p.set_formation_time(0.);
  P.insert(p);
}
// the coordinates of both particles in one direction are fixed (to one of the
// pairs below, fractions of the length), those in the other two arbitrary
static const double FIXED[4][2] = {{0.1, 0.15}, {0.3, 0.6}, {0.97, 0.02}, {0.1, 0.85}};
static void pairs(D3 len, bool periodic, int fixed, int first, int n, CellSizeStrategy how = CellSizeStrategy::Optimal) {
  VC_CONFIG("ints=int,merge=0");
  install_types();
  Particles P;
  const D3 lo{-1.5, 0., 0.25};
  double r[2][3];
  static const char *const names[2][3] = {{"x0", "y0", "z0"}, {"x1", "y1", "z1"}};
  int f = first + (n > 1 ? vc_choose("fixed", n) : 0);
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i < 3; i++) r[k][i] = i == fixed ? lo[i] + FIXED[f][k] * len[i] : pos(names[k][i], lo[i], len[i], !periodic);
    put(P, r[k][0], r[k][1], r[k][2]);
  }
  Counter c;
  MinLength box(lo, len);
  if (periodic) run(Periodic(box, P, 1., 0.1, CellNumberLimitation::None, false, how), c);
  else run(Open(box, P, 1., 0.1, CellNumberLimitation::None, false, how), c);
  VC_ASSERT(c.single[0] == 1 && c.single[1] == 1, "every particle is in one cell");
  bool close = true;
  for (int k = 0; k < 3; k++) {
    double d = r[0][k] - r[1][k];
    bool direct = (d < 1) & (d > -1), around = (d > len[k] - 1) | (d < 1 - len[k]);
    close = close & (periodic ? direct | around : direct);
    double a = vc_symbolic() ? 0 : d < 0 ? -d : d;
    if (!vc_symbolic()) VC_ASSUME((a > 1 + 1e-9 || a < 1 - 1e-9) && (len[k] - a > 1 + 1e-9 || len[k] - a < 1 - 1e-9));
  }
  VC_ASSERT(c.near == (close ? 1 : 0), "pairs within the interaction length are presented exactly once");
  if (!periodic) VC_ASSERT(c.total <= 1, "no pair is presented twice");
}

VC_PROOF(pairs_open_x) { pairs({2.2, 3.3, 1.1}, false, 0, 0, 4); }
VC_PROOF(pairs_open_y) { pairs({3.5, 2.1, 2.5}, false, 1, 0, 4); }
VC_PROOF(pairs_open_z) { pairs({3.3, 2.2, 3.1}, false, 2, 0, 4); }
VC_PROOF(pairs_open_flat) { pairs({0.5, 3.5, 2.5}, false, 2, 0, 4); }
VC_PROOF(pairs_open_dilute) { pairs({2.5, 2.2, 1.1}, false, 1, 0, 4); }
VC_PROOF(pairs_open_largest) { pairs({4.5, 2.2, 1.1}, false, 2, 0, 4, CellSizeStrategy::Largest); }
VC_PROOF(pairs_periodic_x) { pairs({2.2, 3.5, 2.1}, true, 0, 2, 1); }
VC_PROOF(pairs_periodic_x2) { pairs({2.2, 3.5, 2.1}, true, 0, 1, 1); }
VC_PROOF(pairs_periodic_y) { pairs({3.2, 2.5, 2.1}, true, 1, 2, 1); }
VC_PROOF(pairs_periodic_y2) { pairs({3.2, 2.5, 2.1}, true, 1, 0, 1); }
VC_PROOF(pairs_periodic_z) { pairs({2.2, 2.5, 3.1}, true, 2, 2, 1); }
VC_PROOF(pairs_periodic_z2) { pairs({2.2, 2.5, 3.1}, true, 2, 3, 1); }
VC_PROOF(pairs_periodic_largest) { pairs({4.1, 3.1, 2.1}, true, 1, 2, 1, CellSizeStrategy::Largest); }
// every cell with every neighbour (and periodic image), once
static void cells(int nx, int ny, int nz, bool periodic) {
  VC_CONFIG("ints=int,merge=0,unroll=10000");
  install_types();
  const int n[3] = {nx, ny, nz}, N = nx * ny * nz;
  const D3 lo{2., -3., 0.}, len{nx + 0.25, ny + 0.25, nz + 0.25};
  Particles P;
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++)
        put(P, lo[0] + (x + 0.5) * len[0] / nx, lo[1] + (y + 0.5) * len[1] / ny, lo[2] + (z + 0.5) * len[2] / nz);
  static unsigned char seen[64][27];
  for (int i = 0; i < 64; i++)
    for (int k = 0; k < 27; k++) seen[i][k] = 0;
  int alone[64] = {0}, strange = 0;
  auto one = [&](const ParticleList &s) {
    if (s.size() != 1) strange++;
    else alone[s[0].id()]++;
  };
  auto two = [&](const ParticleList &s, const ParticleList &t) {
    if (s.size() != 1 || t.size() != 1) {
      strange++;
      return;
    }
    int code = 0;
    for (int k = 2; k >= 0; k--) {
      double d = (t[0].position()[k + 1] - s[0].position()[k + 1]) / (len[k] / n[k]);
      int i = d > 0.99 && d < 1.01 ? 2 : d > -0.01 && d < 0.01 ? 1 : d > -1.01 && d < -0.99 ? 0 : 9;
      if (i > 2) {
        strange++;
        return;
      }
      code = code * 3 + i;
    }
    seen[s[0].id()][code]++;
  };
  MinLength box(lo, len);
  if (periodic) {
    Periodic g(box, P, 1., 0.1, CellNumberLimitation::None);
    VC_EQ(g.cell_volume(), len[0] * len[1] * len[2] / N, "volume of a cell");
    g.iterate_cells(one, two);
  } else {
    Open g(box, P, 1., 0.1, CellNumberLimitation::None);
    VC_EQ(g.cell_volume(), len[0] * len[1] * len[2] / N, "volume of a cell");
    g.iterate_cells(one, two);
  }
  VC_ASSERT(strange == 0, "only adjacent cells are presented together");
  bool all = true, once = true;
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++) {
        int a = x + nx * (y + ny * z);
        all = all && alone[a] == 1;
        for (int c = 0; c < 27; c++) {
          int b[3] = {x + c % 3 - 1, y + c / 3 % 3 - 1, z + c / 9 - 1};
          bool exists = c != 13;
          for (int k = 0; k < 3; k++) {
            if (!periodic) exists = exists && b[k] >= 0 && b[k] < n[k];
            b[k] = (b[k] + n[k]) % n[k];
          }
          int o = b[0] + nx * (b[1] + ny * b[2]);
          if (exists) once = once && seen[a][c] + seen[o][26 - c] == 1;
          else once = once && seen[a][c] == 0;
        }
      }
  VC_ASSERT(all, "every cell is searched once");
  VC_ASSERT(once, "every cell meets each of its neighbours once");
}
VC_PROOF(cells_open_333) { cells(3, 3, 3, false); }
VC_PROOF(cells_open_412) { cells(4, 1, 2, false); }
VC_PROOF(cells_open_143) { cells(1, 4, 3, false); }
VC_PROOF(cells_open_321) { cells(3, 2, 1, false); }
VC_PROOF(cells_open_234) { cells(2, 3, 4, false); }
VC_PROOF(cells_open_113) { cells(1, 1, 3, false); }
VC_PROOF(cells_periodic_222) { cells(2, 2, 2, true); }
VC_PROOF(cells_periodic_333) { cells(3, 3, 3, true); }
VC_PROOF(cells_periodic_324) { cells(3, 2, 4, true); }
VC_PROOF(cells_periodic_243) { cells(2, 4, 3, true); }
VC_PROOF(cells_periodic_432) { cells(4, 3, 2, true); }

// along one direction: any interaction length and any size of the grid
static void any_length(int dir, bool periodic) {
  VC_CONFIG("ints=int,merge=0,fptosi=-1:4");
  install_types();
  Particles P;
  const double m = vc_double("m", 0.1, 10.), L = vc_double("L", 0.1, 40.);
  VC_ASSUME(L < 3.5 * m);
  if (periodic) VC_ASSUME(L > 2.01 * m);
  if (!vc_symbolic()) VC_ASSUME(L < m - 1e-6 || L > m + 1e-6);
  D3 lo{1., 2., 3.}, len{m, m, m};
  if (periodic) len = {2.5 * m, 2.5 * m, 2.5 * m};
  len[dir] = L;
  // (natively the edge itself may be rounded outside)
  double u[2] = {vc_double("u0", 0, 1), vc_double("u1", 0, 1)}, r[2];
  for (int k = 0; k < 2; k++) {
    if (periodic) VC_ASSUME(u[k] < 1);
    if (!vc_symbolic()) VC_ASSUME(u[k] < 1 - 1e-9);
    D3 x;
    for (int i = 0; i < 3; i++) x[i] = lo[i] + 0.125 * m;
    r[k] = x[dir] = lo[dir] + u[k] * L;
    put(P, x[0], x[1], x[2]);
  }
  Counter c;
  double volume;
  if (periodic) {
    Periodic g(MinLength(lo, len), P, m, 0.1, CellNumberLimitation::None);
    volume = g.cell_volume();
    run(g, c);
  } else {
    Open g(MinLength(lo, len), P, m, 0.1, CellNumberLimitation::None);
    volume = g.cell_volume();
    run(g, c);
  }
  VC_ASSERT(c.single[0] == 1 && c.single[1] == 1, "every particle is in one cell");
  VC_ASSERT(volume > 0, "cells have a volume");
  double d = r[0] - r[1];
  bool direct = (d < m) & (d > -m), around = (d > L - m) | (d < m - L);
  if (periodic ? direct | around : direct) VC_ASSERT(c.total >= 1, "pairs within the interaction length are presented");
  if (!periodic) VC_ASSERT(c.total <= 1, "no pair is presented twice");
}
VC_PROOF(any_length_open_x) { any_length(0, false); }
VC_PROOF(any_length_open_y) { any_length(1, false); }
VC_PROOF(any_length_open_z) { any_length(2, false); }
VC_PROOF(any_length_periodic_x) { any_length(0, true); }
VC_PROOF(any_length_periodic_y) { any_length(1, true); }
VC_PROOF(any_length_periodic_z) { any_length(2, true); }
// the grid spanned by the particles themselves
static void from_particles(int dir) {
  VC_CONFIG("ints=int,merge=0,fptosi=-1:4");
  install_types();
  Particles P;
  D3 r{1., 2., -1.};
  put(P, r[0], r[1], r[2]);
  r[dir] += vc_double("d", -2.4, 2.4);
  put(P, r[0], r[1], r[2]);
  r[dir] += vc_double("e", -1.9, 1.9);
  r[(dir + 1) % 3] += 1.5;
  put(P, r[0], r[1], r[2]);
  struct : Counter {
    int n[3] = {0, 0, 0}, met = 0;
  } c;
  auto one = [&](const ParticleList &s) {
    for (const ParticleData &p : s) c.n[p.id()]++;
    for (size_t i = 0; i < s.size(); i++)
      for (size_t j = i + 1; j < s.size(); j++) c.met |= 1 << (s[i].id() + s[j].id());
  };
  auto two = [&](const ParticleList &s, const ParticleList &t) {
    for (const ParticleData &p : s)
      for (const ParticleData &q : t) c.met |= 1 << (p.id() + q.id());
  };
  Open g(P, 1., 0.1, CellNumberLimitation::None);
  g.iterate_cells(one, two);
  VC_ASSERT(c.n[0] == 1 && c.n[1] == 1 && c.n[2] == 1, "every particle is in one cell");
  double x[3][3];
  int i = 0;
  for (const ParticleData &p : P) {
    for (int k = 0; k < 3; k++) x[i][k] = p.position()[k + 1];
    i++;
  }
  for (int a = 0; a < 3; a++)
    for (int b = a + 1; b < 3; b++) {
      bool near = true;
      for (int k = 0; k < 3; k++) near = near & (x[a][k] - x[b][k] < 1) & (x[b][k] - x[a][k] < 1);
      if (near) VC_ASSERT(c.met >> (a + b) & 1, "pairs within the interaction length meet");
    }
}
VC_PROOF(from_particles_x) { from_particles(0); }
VC_PROOF(from_particles_y) { from_particles(1); }
VC_PROOF(from_particles_z) { from_particles(2); }
// no more cells than particles if limited; particles that cannot interact yet are left out
VC_PROOF(limits) {
  VC_CONFIG("ints=int,merge=0,fptosi=-1:4");
  install_types();
  Particles P;
  const int N = 9;
  for (int i = 0; i < N; i++) put(P, 10. * i / (N - 1), 10. * i / (N - 1), 5.);
  bool periodic = vc_choose("periodic", 2), limited = vc_choose("limited", 2);
  double volume;
  MinLength box({0, 0, 0}, {10.5, 10.5, 10.5});
  CellNumberLimitation l = limited ? CellNumberLimitation::ParticleNumber : CellNumberLimitation::None;
  if (periodic) volume = Periodic(box, P, 1., 0.1, l).cell_volume();
  else volume = Open(box, P, 1., 0.1, l).cell_volume();
  double cells = 10.5 * 10.5 * 10.5 / volume;
  if (limited) VC_LE(cells, N, "not more cells than particles");
  else VC_EQ(cells, 1000, "as many cells as the interaction length allows");
}
VC_PROOF(unformed) {
  VC_CONFIG("ints=int,merge=0,fptosi=-1:4");
  install_types();
  Particles P;
  bool big = vc_choose("big", 2), all = vc_choose("all", 2);
  double t = vc_double("t_form", 0, 10), s = vc_double("scaling", 0, 1), dt = vc_double("dt", 0, 1), p0 = ParticleData::formation_power_;
  ParticleData::formation_power_ = 0.;
  if (!vc_symbolic()) VC_ASSUME(t < 1. + dt - 1e-9 || t > 1. + dt + 1e-9);
  for (int i = 0; i < 2; i++) {
    ParticleData p(vc_type(T_PIP));
    p.set_4position(FourVector(1., 3.5 * i, 0, 0));
    p.set_4momentum(0.138, 0.1, 0.2, 0.3);
    p.set_formation_time(i == 0 ? t : 0.);
    p.set_cross_section_scaling_factor(i == 0 ? s : 1.);
    P.insert(p);
  }
  Counter c;
  run(Open(MinLength({0, 0, 0}, {big ? 3.5 : 2.5, 1., 1.}), P, 1., dt, CellNumberLimitation::None, all), c);
  ParticleData::formation_power_ = p0;
  VC_ASSERT(c.single[1] == 1, "formed particles are on the grid");
  bool can = t <= 1. + dt || s > 0;
  VC_ASSERT(c.single[0] == (all || can ? 1 : 0), "a particle that cannot interact in this time step is left out unless asked for");
}
VC_PROOF(too_small) {
  VC_CONFIG("ints=int,merge=0,fptosi=-1:4");
  install_types();
  Particles P;
  put(P, 0.01, 0.01, 0.01);
  double L = vc_double("L", 0.1, 10.), m = vc_double("m", 0.1, 10.);
  if (!vc_symbolic()) VC_ASSUME(L / m < 1.999 || L / m > 2.001);
  VC_ASSUME(L < 3 * m);
  D3 len{2.5 * m, 2.5 * m, 2.5 * m};
  len[vc_choose("dir", 3)] = L;
  bool threw = false;
  try {
    Periodic g(MinLength({0, 0, 0}, len), P, m, 0.1, CellNumberLimitation::None);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  VC_ASSERT(threw == (L < 2 * m), "a periodic box needs room for two cells");
}
