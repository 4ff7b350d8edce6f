// P19: recombination of the material grids, and limits of concentrations
#include "evolve.h"
#include "src/solvers/iterator.h"
using namespace gpr;
// not part of an interface: P25 sees its effect on the time loop, too
void limit_concentration(Vecr u) __attribute__((weak));

static const double LS[] = {-0.6, 0.4, 0., -1.7};
static Par mat(int k, bool vac) {
  Par m = vac ? vacuum() : material(k % 4);
  return m;
}
// cells with any selection of updating materials, level sets in every grid and vacua
static void combine_(mc::Ctx &c, int ncell) {
  int nmat = 1 + c.choose(LSET + 1, "materials");
  int vac = c.choose(1 << nmat, "vacua");
  std::vector<Par> MPs;
  for (int m = 0; m < nmat; m++)
    MPs.push_back(mat(m, vac >> m & 1));
  int nl = LSET > 2 ? 2 : mc::thorough ? 4 : 3;
  std::vector<bVec> masks(nmat, bVec(ncell));
  Vec u(ncell * V);
  std::vector<Vec> g(nmat, Vec(ncell * V));
  for (int i = 0; i < ncell; i++) {
    int mk = c.choose(1 << nmat, "updated by");
    int seed = c.choose(3, "other values");
    for (int v = 0; v < V; v++) {
      u(i * V + v) = 3000 + 100 * i + v;
      for (int m = 0; m < nmat; m++)
        g[m](i * V + v) = 1000 * (m + 4) + 100 * i + v + 0.25;
    }
    // level sets of the cell and of the grids; those of materials that do not exist stay negative
    for (int l = 0; l < LSET; l++) {
      bool used = l < nmat - 1;
      u(i * V + V - LSET + l) = used ? LS[(seed + l) % 3] * (1 + 0.01 * i) : -2 - l;
      for (int m = 0; m < nmat; m++) {
        double &x = g[m](i * V + V - LSET + l);
        if (!(mk >> m & 1)) // not to be read
          x = used ? -LS[(seed + l + m) % 3] * 7 : 5;
        else
          x = used ? LS[c.choose(ncell > 1 && !mc::thorough ? 2 : nl, "level set")] * (1 + 0.1 * m) : -1 - m;
      }
    }
    for (int m = 0; m < nmat; m++)
      masks[m](i) = mk >> m & 1;
    if (i == 0)
      c.shard();
  }
  Vec u0 = u, want = u;
  auto g0 = g;
  auto m0 = masks;
  for (int i = 0; i < ncell; i++) {
    for (int l = 0; l < LSET; l++) {
      double s = 0;
      int k = 0;
      for (int m = 0; m < nmat; m++)
        if (masks[m](i)) {
          s += g[m](i * V + V - LSET + l);
          k++;
        }
      if (k)
        want(i * V + V - LSET + l) = s / k;
    }
    int id = 0;
    for (int l = 0; l < LSET; l++)
      id += want(i * V + V - LSET + l) >= 0;
    for (int v = 0; v < V - LSET; v++)
      want(i * V + v) = MPs[id].EOS == VACUUM ? 0 : g[id](i * V + v);
  }
  Guarded<Vec> gu(u);
  make_u(gu.seg(), g, masks, MPs);
  c.step(ncell);
  Vec r = gu.get();
  c.state_of(r);
  std::string w = mc::cat("materials ", nmat, " vacua ", vac, " cells ", ncell);
  c.note(w);
  for (int m = 0; m < nmat; m++)
    c.expect(same_bits(g[m], g0[m]) && same_bits(masks[m], m0[m]), "inputs", w + ": a grid or mask was changed");
  c.expect(gu.intact(), "outside", w + ": wrote outside of the grid");
  for (int i = 0; i < ncell; i++)
    for (int v = 0; v < V; v++)
      c.close(r(i * V + v), want(i * V + v), v < V - LSET ? 0 : 1e-14, v < V - LSET ? 0 : 1e-15, v < V - LSET ? "owner" : "level-set", w + mc::cat(": cell ", i, " variable ", v));
}
static void one(mc::Ctx &c) { combine_(c, 1); }
static void two(mc::Ctx &c) { combine_(c, 2); }

static void limits(mc::Ctx &c) {
  static const double R[] = {1., 0.25, 3., 1e-12};
  static const double L[] = {0.5, 0., 1., 1.5, -0.25, 2., -1e-18, 1 + 1e-15, 1e300, -0.};
  int n = c.choose(4, "cells");
  Vec u(n * V);
  for (int i = 0; i < n * V; i++)
    u(i) = -100 - i;
  for (int i = 0; i < n; i++) {
    u(i * V) = R[c.choose(n < 3 ? 4 : 2, "density")];
    if (MULTI)
      u(i * V + mV) = u(i * V) * L[c.choose(10, "fraction")];
  }
  c.shard();
  Guarded<Vec> g(u);
  limit_concentration(g.seg());
  c.step(n);
  Vec r = g.get();
  c.state_of(r);
  c.expect(g.intact(), "outside", "wrote outside of the grid");
  for (int i = 0; i < n * V; i++)
    if (MULTI && i % V == mV)
      c.close(r(i), std::max(0., std::min(u(i), u(i - mV))), 0, 0, "limit", mc::cat("cell ", i / V, " of ", n));
    else
      c.expect(r(i) == u(i), "others", mc::cat("variable ", i % V, " of cell ", i / V, " was changed"));
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  if (LSET > 0) {
    s.push_back({"one", one, 20});
    if (LSET < 3)
      s.push_back({"two", two, 20});
  }
  if (limit_concentration)
    s.push_back({"limits", limits, 20});
  return mc::main_(argc, argv, s);
}
