// P14: the rectangular lattice
//@sources logging.cc fourvector.cc
#include <array>
#include <vector>
#include "vc.h"
#include "smash/lattice.h"
using namespace smash;
typedef std::array<double, 3> D3;
typedef std::array<int, 3> N3;
template <class T> using Lat = RectangularLattice<T>;
static D3 sizes() { return {vc_double("lx", 0.5, 100), vc_double("ly", 0.5, 100), vc_double("lz", 0.5, 100)}; }
static D3 origin() { return {vc_double("ox", -50, 50), vc_double("oy", -50, 50), vc_double("oz", -50, 50)}; }
// lattice of doubles with arbitrary contents
static const char *const NAMES[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17",
                                    "v18", "v19", "v20", "v21", "v22", "v23", "v24", "v25", "v26", "v27", "v28", "v29", "v30", "v31", "v32", "v33", "v34", "v35"};
static void fill(Lat<double> &l) {
  for (size_t i = 0; i < l.size(); i++) l[i] = vc_double(NAMES[i], -10, 10);
}

// an empty lattice of any dimensions (index computations do not look at the contents)
struct Any {
  alignas(Lat<double>) char mem[sizeof(Lat<double>)];
  Lat<double> &l = reinterpret_cast<Lat<double> &>(mem);
  Any() {
    l.n_cells_ = {vc_int("nx", 1, 1000), vc_int("ny", 1, 1000), vc_int("nz", 1, 1000)};
    l.lattice_sizes_ = sizes();
    for (int i = 0; i < 3; i++) l.cell_sizes_[i] = l.lattice_sizes_[i] / l.n_cells_[i];
    l.origin_ = origin();
    const_cast<bool &>(l.periodic_) = vc_bool("periodic");
  }
};
VC_PROOF(indexing) {
  VC_CONFIG("ints=int");
  Any a;
  const N3 n = a.l.n_cells();
  int ix = vc_int("ix", 0, 999), iy = vc_int("iy", 0, 999), iz = vc_int("iz", 0, 999);
  VC_ASSUME(ix < n[0] && iy < n[1] && iz < n[2]);
  int i = a.l.index1d(ix, iy, iz);
  VC_ASSERT(i >= 0, "indices are not negative");
  VC_ASSERT(i == ix + n[0] * (iy + n[1] * iz), "x runs fastest, then y, then z");
  VC_ASSERT(i < n[0] * n[1] * n[2], "indices stay within the lattice");
  const int q = i / n[0];
  VC_LEMMA(q == iy + n[1] * iz, "rows");
  VC_LEMMA(i % n[0] == ix, "place in the row");
  VC_LEMMA(q / n[1] == iz, "planes");
  VC_LEMMA(q % n[1] == iy, "row in the plane");
  ThreeVector c = a.l.cell_center(i), d = a.l.cell_center(ix, iy, iz);
  for (int k = 0; k < 3; k++) VC_EQT(c[k], d[k], 1e-7, "the centre of a cell from its number and from its indices");
  int j[3] = {ix, iy, iz};
  for (int k = 0; k < 3; k++) VC_EQT(d[k], a.l.origin()[k] + a.l.lattice_sizes()[k] * (2 * j[k] + 1) / (2. * n[k]), 1e-6, "cells divide the lattice evenly");
}
VC_PROOF(neighbours) {
  VC_CONFIG("ints=int");
  Any a;
  const N3 n = a.l.n_cells();
  int ix = vc_int("ix", 0, 999), iy = vc_int("iy", 0, 999), iz = vc_int("iz", 0, 999);
  VC_ASSUME(ix < n[0] && iy < n[1] && iz < n[2]);
  bool per = a.l.periodic();
  VC_ASSERT(a.l.index_left(ix, iy, iz) == a.l.index1d(ix > 0 ? ix - 1 : per ? n[0] - 1 : 0, iy, iz), "left");
  VC_ASSERT(a.l.index_right(ix, iy, iz) == a.l.index1d(ix < n[0] - 1 ? ix + 1 : per ? 0 : ix, iy, iz), "right");
  VC_ASSERT(a.l.index_down(ix, iy, iz) == a.l.index1d(ix, iy > 0 ? iy - 1 : per ? n[1] - 1 : 0, iz), "down");
  VC_ASSERT(a.l.index_up(ix, iy, iz) == a.l.index1d(ix, iy < n[1] - 1 ? iy + 1 : per ? 0 : iy, iz), "up");
  VC_ASSERT(a.l.index_backward(ix, iy, iz) == a.l.index1d(ix, iy, iz > 0 ? iz - 1 : per ? n[2] - 1 : 0), "backward");
  VC_ASSERT(a.l.index_forward(ix, iy, iz) == a.l.index1d(ix, iy, iz < n[2] - 1 ? iz + 1 : per ? 0 : iz), "forward");
}
VC_PROOF(bounds) {
  Any a;
  const N3 n = a.l.n_cells();
  int ix = vc_int("ix", -5000, 5000), iy = vc_int("iy", -5000, 5000), iz = vc_int("iz", -5000, 5000);
  bool in = ix >= 0 && ix < n[0] && iy >= 0 && iy < n[1] && iz >= 0 && iz < n[2];
  VC_ASSERT(a.l.out_of_bounds(ix, iy, iz) == (!a.l.periodic() && !in), "only lattices without periodic boundaries have an outside");
}
// cells of a small lattice with arbitrary contents
static int mod(int i, int n) { return (i % n + n) % n; }
static void look_up(bool per) {
  VC_CONFIG("ints=int");
  const N3 n{3, 2, 2};
  const D3 l = sizes(), o = origin();
  Lat<double> L(l, n, o, per, LatticeUpdate::EveryTimestep);
  VC_ASSERT(L.size() == 12u, "one node for each cell");
  for (size_t i = 0; i < L.size(); i++) VC_ASSERT(L[i] == 0., "nodes are zero at first");
  fill(L);
  int j[3] = {vc_int("ix", -6, 8), vc_int("iy", -4, 5), vc_int("iz", -4, 5)};
  double f[3] = {vc_double("fx", 0, 1), vc_double("fy", 0, 1), vc_double("fz", 0, 1)};
  for (int k = 0; k < 3; k++) VC_ASSUME(f[k] < 1);
  if (!vc_symbolic()) for (int k = 0; k < 3; k++) VC_ASSUME(f[k] > 1e-6 && f[k] < 1 - 1e-6);
  double r[3];
  for (int k = 0; k < 3; k++) r[k] = o[k] + (j[k] + f[k]) * (l[k] / n[k]);
  double v = 7;
  bool found = L.value_at(ThreeVector(r[0], r[1], r[2]), v);
  bool in = true;
  for (int k = 0; k < 3; k++) in = in && j[k] >= 0 && j[k] < n[k];
  VC_ASSERT(found == (per || in), "points on the lattice are found");
  if (found) {
    int m[3];
    for (int k = 0; k < 3; k++) m[k] = mod(j[k], n[k]);
    VC_ASSERT(v == L[m[0] + 3 * (m[1] + 2 * m[2])], "the value is that of the cell around the point");
    VC_ASSERT(L.node(j[0], j[1], j[2]) == v, "node agrees");
  } else {
    VC_ASSERT(v == 0, "no value outside");
  }
}
VC_PROOF(value_at) { look_up(false); }
VC_PROOF(value_at_periodic) { look_up(true); }
// exactly the cells around a point are visited, each once; j is any cell, its
// periodic images are j - 2n ... j + 2n
static void around(int dir, bool per, bool cube) {
  VC_CONFIG("ints=int");
  N3 n{1, 1, 1};
  n[dir] = 3;
  const D3 l = sizes(), o = origin();
  Lat<double> L(l, n, o, per, LatticeUpdate::EveryTimestep);
  double cell = l[dir] / n[dir], d = vc_double("d", 0.01, 100), at = vc_double("at", -100, 200);
  VC_ASSUME(per ? d <= l[dir] / 2 : d <= 2 * l[dir]);
  VC_ASSUME(at >= o[dir] - l[dir] && at <= o[dir] + 2 * l[dir]);
  D3 r, reach;
  for (int k = 0; k < 3; k++) {
    r[k] = k == dir ? at : o[k] + 0.5 * l[k];
    reach[k] = k == dir ? d : 0.5 * l[k];   // across the line of cells: only the one row
    if (cube && k != dir) {
      VC_ASSUME(d < l[k]);
      if (per) VC_ASSUME(d < 0.75 * l[k]);
    }
  }
  int j = vc_int("j", per ? 0 : -9, per ? 2 : 11);
  int strange = 0, hits[5] = {0};
  auto visit = [&](double &node, int ix, int iy, int iz) {
    int i[3] = {ix, iy, iz};
    for (int k = 0; k < 3; k++)
      if (k != dir && i[k] != 0) strange++;
    for (int m = per ? 0 : 2; m < (per ? 5 : 3); m++)
      if (i[dir] == j + (m - 2) * 3) hits[m]++;
    node += 1;
  };
  if (cube) L.iterate_in_cube(ThreeVector(r[0], r[1], r[2]), d, visit);
  else L.iterate_in_rectangle(ThreeVector(r[0], r[1], r[2]), reach, visit);
  VC_ASSERT(strange == 0, "only cells in reach are visited");
  int sum = 0;
  for (int m = per ? 0 : 2; m < (per ? 5 : 3); m++) {
    double c = o[dir] + cell * (j + (m - 2) * 3 + 0.5), far = c > at ? c - at : at - c;
    if (!vc_symbolic()) VC_ASSUME(far < d - 1e-6 || far > d + 1e-6);
    if (!per && (j < 0 || j >= 3)) VC_ASSERT(hits[m] == 0, "nothing outside the lattice");
    else if (far < d) VC_ASSERT(hits[m] == 1, "every cell whose centre is within reach is visited once");
    else if (far > d) VC_ASSERT(hits[m] == 0, "no cell further away is visited");
    sum += hits[m];
  }
  if (j >= 0 && j < 3) VC_ASSERT(L[j] == sum, "with the node of the cell (or of its periodic image)");
}
VC_PROOF(around_x) { around(0, false, false); }
VC_PROOF(around_y) { around(1, false, false); }
VC_PROOF(around_z) { around(2, false, false); }
VC_PROOF(cube_x) { around(0, false, true); }
VC_PROOF(cube_y) { around(1, false, true); }
VC_PROOF(cube_z) { around(2, false, true); }
VC_PROOF(around_periodic_x) { around(0, true, false); }
VC_PROOF(around_periodic_y) { around(1, true, false); }
VC_PROOF(around_periodic_z) { around(2, true, false); }
// spacing of the finite difference and the two nodes it is taken between
static void ends(int i, int n, bool per, int &a, int &b, double &span) {
  a = i - 1, b = i + 1, span = 2;
  if (per) {
    a = mod(a, n);
    b = mod(b, n);
  } else if (i == 0) {
    a = 0, span = 1;
  } else if (i == n - 1) {
    b = n - 1, span = 1;
  }
}
static void gradient(N3 n, bool per) {
  const D3 l = sizes();
  const D3 o{0., 1., -2.};
  Lat<double> L(l, n, o, per, LatticeUpdate::EveryTimestep);
  Lat<ThreeVector> G(l, n, o, per, LatticeUpdate::EveryTimestep);
  fill(L);
  L.compute_gradient_lattice(G);
  for (int iz = 0; iz < n[2]; iz++)
    for (int iy = 0; iy < n[1]; iy++)
      for (int ix = 0; ix < n[0]; ix++) {
        int j[3] = {ix, iy, iz};
        for (int k = 0; k < 3; k++) {
          int a[3] = {ix, iy, iz}, b[3] = {ix, iy, iz};
          double span;
          ends(j[k], n[k], per, a[k], b[k], span);
          double d = (L.node(b[0], b[1], b[2]) - L.node(a[0], a[1], a[2])) / (span * (l[k] / n[k]));
          VC_EQT(G.node(ix, iy, iz)[k], d, 1e-7, "difference of the neighbouring nodes over their distance");
        }
      }
}
VC_PROOF(gradient_x) { gradient({4, 2, 3}, false); }
VC_PROOF(gradient_y) { gradient({3, 4, 2}, false); }
VC_PROOF(gradient_z) { gradient({2, 3, 4}, false); }
VC_PROOF(gradient_periodic_x) { gradient({4, 2, 3}, true); }
VC_PROOF(gradient_periodic_y) { gradient({3, 4, 2}, true); }
VC_PROOF(gradient_periodic_z) { gradient({2, 3, 4}, true); }
static void four_gradient(N3 n, bool per) {
  const D3 l = sizes(), o{0., 1., -2.};
  double dt = vc_double("dt", 0.01, 10);
  Lat<FourVector> L(l, n, o, per, LatticeUpdate::EveryTimestep), old(l, n, o, per, LatticeUpdate::EveryTimestep);
  Lat<std::array<FourVector, 4>> G(l, n, o, per, LatticeUpdate::EveryTimestep);
  for (size_t i = 0; i < L.size(); i++) {
    // the components are independent of each other
    double v = vc_double(NAMES[i], -10, 10), w = vc_double(NAMES[i + 18], -10, 10);
    L[i] = FourVector(v, 2 * v, v - 3, -v);
    old[i] = FourVector(w, 1 + w, 5 * w, w);
  }
  L.compute_four_gradient_lattice(old, dt, G);
  for (int iz = 0; iz < n[2]; iz++)
    for (int iy = 0; iy < n[1]; iy++)
      for (int ix = 0; ix < n[0]; ix++) {
        int j[3] = {ix, iy, iz};
        const std::array<FourVector, 4> &g = G.node(ix, iy, iz);
        for (int mu = 0; mu < 4; mu++) {
          VC_EQT(g[0][mu], (L.node(ix, iy, iz)[mu] - old.node(ix, iy, iz)[mu]) / dt, 1e-7, "change since the last step over its length");
          for (int k = 0; k < 3; k++) {
            int a[3] = {ix, iy, iz}, b[3] = {ix, iy, iz};
            double span;
            ends(j[k], n[k], per, a[k], b[k], span);
            double d = (L.node(b[0], b[1], b[2])[mu] - L.node(a[0], a[1], a[2])[mu]) / (span * (l[k] / n[k]));
            VC_EQT(g[k + 1][mu], d, 1e-7, "difference of the neighbouring nodes over their distance");
          }
        }
      }
}
VC_PROOF(four_gradient_x) { four_gradient({3, 2, 2}, false); }
VC_PROOF(four_gradient_y) { four_gradient({2, 3, 2}, false); }
VC_PROOF(four_gradient_z) { four_gradient({2, 2, 3}, false); }
VC_PROOF(four_gradient_periodic_x) { four_gradient({3, 2, 2}, true); }
VC_PROOF(four_gradient_periodic_y) { four_gradient({2, 3, 2}, true); }
VC_PROOF(four_gradient_periodic_z) { four_gradient({2, 2, 3}, true); }
VC_PROOF(gradient_needs_matching_lattices) {
  const D3 l{1, 2, 3}, o{0, 0, 0};
  int c = vc_choose("case", 8);
  N3 n{2, 3, 2};
  if (c < 3) n[c] = 1;
  Lat<double> L(l, n, o, true, LatticeUpdate::EveryTimestep);
  Lat<FourVector> F(l, n, o, true, LatticeUpdate::EveryTimestep);
  D3 l2 = l, o2 = o;
  double off = vc_double("off", 1e-5, 1);
  if (c == 4) o2[vc_choose("dir", 3)] += off;
  if (c == 5) l2[vc_choose("dir", 3)] += off;
  if (c == 6) n[vc_choose("dir", 3)] += 1;
  Lat<ThreeVector> G(l2, n, o2, c != 7, LatticeUpdate::EveryTimestep);
  Lat<std::array<FourVector, 4>> G4(l2, n, o2, c != 7, LatticeUpdate::EveryTimestep);
  VC_ASSERT(L.identical_to_lattice(&G) == (c < 4), "lattices are identical if size, cells, origin and boundaries are");
  if (c < 3) {
    VC_THROWS(L.compute_gradient_lattice(G), std::runtime_error, "no gradient on a single layer of cells");
    VC_THROWS(F.compute_four_gradient_lattice(F, 1., G4), std::runtime_error, "no gradient on a single layer of cells");
  } else if (c > 3) {
    VC_THROWS(L.compute_gradient_lattice(G), std::invalid_argument, "no gradient on a different lattice");
    VC_THROWS(F.compute_four_gradient_lattice(F, 1., G4), std::invalid_argument, "no gradient on a different lattice");
  } else {
    VC_NO_THROW(L.compute_gradient_lattice(G), "gradients of matching lattices");
  }
}
VC_PROOF(resize) {
  const D3 l{1, 2, 3}, o{0, 0, 0};
  Lat<double> L(l, {2, 2, 2}, o, false, LatticeUpdate::EveryTimestep);
  fill(L);
  bool newl = vc_bool("length"), newo = vc_bool("origin"), newc = vc_bool("cells");
  const D3 l2 = sizes(), o2 = origin();
  const N3 n2{vc_choose("nx", 3) + 1, 2, vc_choose("nz", 4) + 1};
  std::optional<D3> ol, oo;
  std::optional<N3> on;
  if (newl) ol = l2;
  if (newo) oo = o2;
  if (newc) on = n2;
  if (!newl && !newo && !newc) {
    VC_THROWS(L.reset_and_resize(ol, oo, on), std::invalid_argument, "something must change");
    return;
  }
  L.reset_and_resize(ol, oo, on);
  const D3 wl = newl ? l2 : l, wo = newo ? o2 : o;
  const N3 wn = newc ? n2 : N3{2, 2, 2};
  VC_ASSERT(L.size() == size_t(wn[0] * wn[1] * wn[2]), "one node for each cell");
  double vol = 1;
  for (int k = 0; k < 3; k++) {
    VC_ASSERT(L.lattice_sizes()[k] == wl[k] && L.origin()[k] == wo[k] && L.n_cells()[k] == wn[k], "the new lattice is the one asked for");
    VC_EQ(L.cell_sizes()[k], wl[k] / wn[k], "size of the new cells");
    vol *= wl[k] / wn[k];
  }
  VC_EQT(L.cell_volume_, vol, 1e-6, "volume of the new cells");
  for (size_t i = 0; i < L.size(); i++) VC_ASSERT(L[i] == 0., "nodes are reset");
}
VC_PROOF(construction) {
  VC_CONFIG("ints=int,merge=0");
  D3 l{vc_double("lx", -1, 5), 2, 2};
  N3 n{2, 2, vc_choose("nz", 3)};
  if (l[0] < 0 || n[2] < 1) {
    VC_THROWS(Lat<double>(l, n, {0, 0, 0}, true, LatticeUpdate::AtOutput), std::invalid_argument, "lattices have a size and cells");
  } else {
    Lat<double> L(l, n, {0, 0, 0}, true, LatticeUpdate::AtOutput);
    VC_EQ(L.cell_volume_, l[0] / 2. * (2. / n[2]), "cell volume");
    Lat<double> C(L);
    VC_ASSERT(C.identical_to_lattice(&L) && C.size() == L.size() && C.cell_volume_ == L.cell_volume_ && C.when_update() == LatticeUpdate::AtOutput, "copies are identical");
  }
}
static double first_moment(ThreeVector r, double &v, ThreeVector p) { return v * (r.x1() - p.x1()) + v * v; }
VC_PROOF(integral) {
  const D3 l{2, 3, 5}, o{0, 0, 0};
  Lat<double> L(l, {2, 1, 2}, o, false, LatticeUpdate::EveryTimestep);
  fill(L);
  ThreeVector p(0.3, 0.2, 0.1);
  double sum = 0, want = 0;
  L.integrate_volume(sum, first_moment, 1e3, p);
  for (int iz = 0; iz < 2; iz++)
    for (int ix = 0; ix < 2; ix++) {
      double v = L.node(ix, 0, iz);
      want += (v * ((ix + 0.5) * (l[0] / 2) - 0.3) + v * v) * (l[0] / 2 * l[1] * l[2] / 2);
    }
  VC_EQT(sum, want, 1e-6, "sum over the cells times their volume");
}
static void nearest(bool anywhere) {
  VC_CONFIG("ints=int,merge=0");
  const N3 n{3, 3, 3};
  const D3 l{3, 6, 1.5}, o{1, 2, 3};
  bool per = vc_choose("periodic", 2);
  Lat<double> L(l, n, o, per, LatticeUpdate::EveryTimestep);
  int j[3] = {0, 1, 2};
  double f[3] = {0.25, 0.5, 0.75};
  if (anywhere) {   // in one cell
    f[0] = vc_double("fx", 0.01, 0.99), f[1] = vc_double("fy", 0.01, 0.99), f[2] = vc_double("fz", 0.01, 0.99);
  } else {          // in every cell
    j[0] = vc_choose("ix", 3), j[1] = vc_choose("iy", 3), j[2] = vc_choose("iz", 3);
  }
  double r[3];
  for (int k = 0; k < 3; k++) r[k] = o[k] + (j[k] + f[k]) * (l[k] / n[k]);
  int visits = 0, centre = L.index1d(j[0], j[1], j[2]);
  bool right = true;
  L.iterate_nearest_neighbors(ThreeVector(r[0], r[1], r[2]), [&](double &node, int i, int c) {
    visits++;
    right = right && c == centre && &node == &L[i];
    node += 1;
  });
  VC_ASSERT(visits == 7, "the cell and its six neighbours");
  VC_ASSERT(right, "called with the node and the cell it surrounds");
  double want[27] = {0};
  want[centre] += 1;
  for (int k = 0; k < 3; k++)
    for (int s = -1; s <= 1; s += 2) {
      int a[3] = {j[0], j[1], j[2]};
      a[k] += s;
      if (per) a[k] = mod(a[k], 3);
      else if (a[k] < 0 || a[k] > 2) a[k] = j[k];
      want[a[0] + 3 * (a[1] + 3 * a[2])] += 1;
    }
  for (int i = 0; i < 27; i++) VC_ASSERT(L[i] == want[i], "each of them once (itself beyond the edge)");
}
VC_PROOF(nearest_neighbours) { nearest(true); }
VC_PROOF(nearest_neighbours_of_any_cell) { nearest(false); }
