// P15: interface cells, indicators of materials and the material of a cell
#include "levelset.h"
#include "src/multi/fill.h"
#include "src/multi/functions.h"
#include "src/system/functions/vectors.h"
using namespace gpr;

// marks of the cells, for every assignment of signs to a grid
static void interface_(mc::Ctx &c, const iVec &nX, const Vec &phi) {
  aVec dX = nX.size() > 1 ? avec({1, 1}) : avec({1});
  Cells C(nX, dX);
  Guarded<iVec> g(C.n);
  Vec f = phi;
  iVec n = nX;
  find_interface_cells(g.seg(), f, n);
  c.step();
  c.expect(g.intact(), "outside", "wrote outside of the marks");
  c.expect(same_bits(f, phi) && same_bits(n, nX), "inputs", "inputs were changed");
  iVec m = g.get();
  c.state_of(m);
  std::ostringstream o;
  o << "cells " << nX.transpose() << " level set " << phi.transpose() << " marks " << m.transpose();
  c.note(o.str());
  auto in = [&](int i) { return phi(i) <= 0; };
  auto neighbours = [&](int i) {
    std::vector<int> r;
    for (int a = 0; a < C.naxis(); a++)
      for (int s = -1; s < 2; s += 2)
        if (C.next(i, a, s) >= 0)
          r.push_back(C.next(i, a, s));
    return r;
  };
  auto isolated = [&](int i) {
    if (!C.two || !in(i))
      return false;
    for (int k : neighbours(i))
      if (in(k))
        return false;
    return true;
  };
  for (int i = 0; i < C.n; i++) {
    bool across = false;
    for (int k : neighbours(i))
      across |= in(i) != in(k) && !isolated(in(i) ? i : k);
    int want = isolated(i) ? -2 : across ? (in(i) ? -1 : 1) : 0;
    c.expect(m(i) == want, want == -2 ? "isolated" : want == -1 ? "inner" : want == 1 ? "outer" : "unmarked", o.str() + mc::cat(": cell ", i, " is marked ", m(i), " but should be ", want));
  }
}
static void line_(mc::Ctx &c) {
  int n = 1 + c.choose(mc::thorough ? 11 : 9, "cells");
  Vec phi(n);
  static const double L[] = {-0.7, 0.4, 0};
  for (int i = 0; i < n; i++) {
    phi(i) = L[c.choose(3, "level set")] * (1 + 0.1 * i);
    if (i == 2)
      c.shard();
  }
  interface_(c, ivec({n}), phi);
}
static void plane_(mc::Ctx &c) {
  static const int S[][3] = {{2, 2, 3}, {2, 3, 3}, {3, 2, 3}, {3, 3, 3}, {1, 5, 3}, {5, 1, 3}, {4, 3, 3}, {3, 5, 2}, {4, 4, 2}, {3, 4, 3}, {4, 5, 2}};
  int s = c.choose(mc::thorough ? 11 : 9, "shape"), n = S[s][0] * S[s][1];
  Vec phi(n);
  static const double L[] = {-0.7, 0.4, 0};
  for (int i = 0; i < n; i++) {
    phi(i) = L[c.choose(S[s][2], "level set")] * (1 + 0.1 * i);
    if (i == 3)
      c.shard();
  }
  interface_(c, ivec({S[s][0], S[s][1]}), phi);
}
// the material of a cell, for every assignment of values to its level sets
static void index_of_cell(mc::Ctx &c) {
  static const double L[] = {-1, 1, 0, -1e-300, 1e-300, -0.};
  VecV q;
  q.setConstant(0.5);
  int want = 0;
  for (int l = 0; l < LSET; l++) {
    q(V - LSET + l) = L[c.choose(6, "level set")];
    want += q(V - LSET + l) >= 0;
  }
  q(0) = c.choose(2, "density") - 0.5;
  q(1) = c.choose(2, "energy") - 0.5;
  c.step();
  c.expect(get_material_index(q) == want, "index", mc::cat("level sets ", q.tail<LSET>().transpose(), ": material ", get_material_index(q), ", should be ", want));
}
// indicators of nested materials
static void indicator(mc::Ctx &c) {
  static const int S[][2] = {{1, 0}, {3, 0}, {5, 0}, {2, 2}, {2, 3}, {3, 3}, {1, 4}};
  int s = c.choose(7, "grid");
  int nx = S[s][0], ny = std::max(1, S[s][1]), n = nx * ny;
  iVec nX = S[s][1] ? ivec({nx, ny}) : ivec({nx});
  aVec dX = S[s][1] ? avec({0.4, 0.3}) : avec({0.4});
  int nmat = 2 + c.choose(std::max(1, LSET), "materials");
  Mat u(n, V);
  std::vector<int> id(n);
  bool zeros = c.choose(2, "zeros"); // cells exactly on an interface
  for (int i = 0; i < n; i++) {
    id[i] = c.choose(nmat, "material");
    if (i == 1)
      c.shard();
    for (int v = 0; v < V - LSET; v++)
      u(i, v) = 0.1 * i + v;
    for (int l = 0; l < LSET; l++)
      u(i, V - LSET + l) = (l < id[i] ? 1 : -1) * (0.2 + 0.1 * ((3 * i + 5 * l) % 4));
    if (zeros && id[i] && (i + id[i]) % 3)
      u(i, V - LSET + id[i] - 1) = 0;
  }
  Mat u0 = u;
  std::string w = mc::cat("cells ", nX.transpose(), " materials");
  for (int x : id)
    w += mc::cat(" ", x);
  c.note(w);
  for (int mat = 0; mat < nmat; mat++) {
    Guarded<Vec> g(n);
    material_indicator(g.seg(), u, mat, nmat, dX, nX);
    c.step();
    Vec phi = g.get();
    c.state_of(phi);
    c.expect(g.intact() && same_bits(u, u0), "inputs", w + ": wrote elsewhere");
    for (int i = 0; i < n; i++) {
      c.expect((zeros ? phi(i) <= 0 : phi(i) < 0) == (id[i] == mat), "indicator", w + mc::cat(": indicator of material ", mat, " is ", phi(i), " in cell ", i));
      VecV q = u.row(i).transpose();
      c.expect(get_material_index(q) == id[i], "index", w + mc::cat(": material of cell ", i));
    }
    // with more than two materials it is a distance
    if (nmat > 2) {
      Vec raw(n);
      for (int i = 0; i < n; i++) {
        double v = -1e300;
        for (int l = 0; l < LSET; l++) {
          double x = u(i, V - LSET + l);
          v = std::max(v, l < mat ? -x : x);
        }
        raw(i) = v;
      }
      Cells C(nX, dX);
      std::vector<double> T;
      std::vector<bool> fixed;
      bool any = distances(C, raw, T, fixed);
      for (int i = 0; i < n; i++)
        c.close(phi(i), any ? (raw(i) > 0 ? T[i] : -T[i]) : raw(i), 1e-10, 1e-12, "distance", w + mc::cat(": indicator of material ", mat, " in cell ", i));
    } else
      for (int i = 0; i < n; i++)
        c.close(phi(i), (mat ? -1 : 1) * u(i, V - LSET), 0, 1e-300, "two", w + mc::cat(": indicator of material ", mat, " in cell ", i));
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"index", index_of_cell, 20});
  s.push_back({"indicator", indicator, 20});
  if (LSET == 2) {
    s.push_back({"line", line_, 20});
    s.push_back({"plane", plane_, 20});
  }
  return mc::main_(argc, argv, s);
}
