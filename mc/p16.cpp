// P16: the distance function and the derivatives of level sets
#include "levelset.h"
#include "src/multi/functions.h"
#include "src/multi/pfmm.h"
using namespace gpr;

static Vec run(mc::Ctx &c, const Vec &phi, const aVec &dX, const iVec &nX) {
  Guarded<Vec> g(phi);
  aVec d = dX;
  iVec n = nX;
  Vec r = distance(g.seg(), d, n);
  c.step();
  c.expect(g.intact() && same_bits(g.get(), phi) && same_bits(n, nX), "inputs", "distance() changed its inputs");
  c.expect(r.size() == phi.size(), "size", "wrong size");
  return r;
}
static std::string show(const Vec &phi, const iVec &nX) {
  std::ostringstream o;
  o << "cells " << nX.transpose() << " level set";
  for (long i = 0; i < phi.size(); i++)
    o << " " << phi(i);
  return o.str();
}
static void check(mc::Ctx &c, const Vec &phi, const aVec &dX, const iVec &nX) {
  Cells C(nX, dX);
  Vec r = run(c, phi, dX, nX);
  c.state_of(r);
  std::string w = show(phi, nX) + mc::cat(" spacing ", dX.transpose());
  c.note(w);
  std::vector<double> T;
  std::vector<bool> fixed;
  if (!distances(C, phi, T, fixed)) {
    c.expect(same_bits(r, phi), "no-interface", w + ": changed without an interface");
    return;
  }
  for (int i = 0; i < C.n; i++) {
    double want = phi(i) > 0 ? T[i] : -T[i];
    c.expect(phi(i) > 0 ? r(i) > 0 : phi(i) < 0 ? r(i) < 0 : r(i) == 0, "sign", mc::cat(w, ": cell ", i, " has distance ", r(i)));
    c.close(r(i), want, 1e-10, 1e-12, fixed[i] ? "next-to-interface" : "upwind", mc::cat(w, ": cell ", i));
  }
}
// every assignment of an alphabet of values to the cells of small grids
static void all1(mc::Ctx &c) {
  int n = 1 + c.choose(mc::thorough ? 9 : 7, "cells");
  static const double L[] = {-1, 0.4, 0, 1.3, -0.2};
  int na = n < 6 ? 5 : n < 8 ? 4 : 3;
  Vec phi(n);
  for (int i = 0; i < n; i++) {
    phi(i) = L[c.choose(na, "value")];
    if (i == 2)
      c.shard();
  }
  if (n < 3)
    c.shard();
  check(c, phi, avec({0.3}), ivec({n}));
}
static void all2(mc::Ctx &c) {
  static const int S[][3] = {{2, 2, 5}, {2, 3, 4}, {3, 2, 4}, {1, 4, 4}, {4, 1, 4}, {3, 3, 4}, {3, 4, 3}, {4, 4, 2}, {5, 3, 3}};
  int s = c.choose(mc::thorough ? 9 : 8, "shape"), nx = S[s][0], ny = S[s][1];
  static const double SP[][2] = {{0.3, 0.3}, {0.3, 0.2}, {0.1, 0.8}};
  int sp = c.choose(3, "spacing");
  static const double L[] = {-1, 0.4, 0, 1.3, -0.2};
  Vec phi(nx * ny);
  for (int i = 0; i < nx * ny; i++) {
    phi(i) = L[c.choose(S[s][2], "value")];
    if (i == 3)
      c.shard();
  }
  check(c, phi, avec({SP[sp][0], SP[sp][1]}), ivec({nx, ny}));
}
// shapes on larger grids: planes, discs, bars, checkers; and their symmetries
static double shape_value(int k, double x, double y, double p) {
  switch (k) {
  case 0: return x - p;
  case 1: return y - p;
  case 2: return p - x;
  case 3: return hypot(x - p, y - 0.4) - 0.3;
  case 4: return std::min(hypot(x - 0.2, y - 0.3) - 0.15, hypot(x - 0.75, y - p) - 0.2);
  case 5: return (x - p) * 0.8 + (y - 0.5) * 0.6;
  case 6: return std::max(fabs(x - p) - 0.2, fabs(y - 0.5) - 0.3);
  default: return sin(9 * x + p) * cos(7 * y - p);
  }
}
static void shapes(mc::Ctx &c) {
  int k = c.choose(8, "shape"), pos = c.choose(mc::thorough ? 24 : 8, "position"), g = c.choose(4, "grid");
  c.shard();
  static const int G[][2] = {{9, 9}, {12, 7}, {5, 16}, {20, 20}};
  int nx = G[g][0], ny = G[g][1];
  double p = 0.21 + pos * (mc::thorough ? 0.025 : 0.075);
  aVec dX = avec({1. / nx, 1. / ny});
  iVec nX = ivec({nx, ny});
  Vec phi(nx * ny);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++)
      phi(i * ny + j) = shape_value(k, (i + 0.5) / nx, (j + 0.5) / ny, p);
  check(c, phi, dX, nX);
  Vec r = run(c, phi, dX, nX);
  Cells C(nX, dX);
  std::string w = mc::cat("shape ", k, " position ", p, " cells ", nX.transpose());
  if (k < 3) { // an exact signed distance is kept
    c.close_all(r, phi, 1e-9, 1e-12, "planar", w);
    Vec s = run(c, Vec(3.7 * phi), dX, nX);
    c.close_all(s, phi, 1e-9, 1e-12, "planar", w + " scaled");
  }
  // images
  Vec ex(nx * ny), rx(nx * ny), ry(nx * ny);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      ex(j * nx + i) = phi(i * ny + j);
      rx((nx - 1 - i) * ny + j) = phi(i * ny + j);
      ry(i * ny + ny - 1 - j) = phi(i * ny + j);
    }
  Vec a = run(c, ex, avec({dX(1), dX(0)}), ivec({ny, nx})), b = run(c, rx, dX, nX), d = run(c, ry, dX, nX), e = run(c, Vec(-phi), dX, nX);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      double v = r(i * ny + j);
      c.close(a(j * nx + i), v, 1e-9, 1e-12, "exchange", mc::cat(w, " cell ", i, ",", j));
      c.close(b((nx - 1 - i) * ny + j), v, 1e-9, 1e-12, "reflect-x", mc::cat(w, " cell ", i, ",", j));
      c.close(d(i * ny + ny - 1 - j), v, 1e-9, 1e-12, "reflect-y", mc::cat(w, " cell ", i, ",", j));
      c.close(e(i * ny + j), -v, 1e-9, 1e-12, "negate", mc::cat(w, " cell ", i, ",", j));
    }
}
// derivatives: exact for linear data, central inside and one cell in at the edges
static void derivs(mc::Ctx &c) {
  int ndim = 1 + c.choose(2, "dimensions"), nx = 3 + c.choose(4, "nx"), ny = ndim == 1 ? 1 : 3 + c.choose(4, "ny");
  int kind = c.choose(5, "data");
  c.shard();
  aVec dX = ndim == 1 ? avec({0.3}) : avec({0.3, 0.7});
  iVec nX = ndim == 1 ? ivec({nx}) : ivec({nx, ny});
  static const double P[][3] = {{1, 0, 0}, {0, 1, 0}, {0.4, -0.3, 0}, {1, 2, 1}, {0, 0, 3}};
  int n = nx * ny;
  Vec phi(n);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      double x = i * 0.3, y = ndim == 1 ? 0 : j * 0.7;
      phi(i * ny + j) = 0.2 + P[kind][0] * x + P[kind][1] * y + P[kind][2] * (x * x - x * y + sin(3 * x + y));
    }
  Mat D(n, ndim);
  memset((void *)D.data(), 0xFF, n * ndim * 8);
  Vec phi0 = phi;
  finite_difference(D, phi, dX, nX);
  c.step();
  c.expect(same_bits(phi, phi0), "inputs", "the level set was changed");
  c.state_of(D);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++)
      for (int d = 0; d < ndim; d++) {
        int a = d == 0 ? std::min(std::max(i, 1), nx - 2) : i, b = d == 1 ? std::min(std::max(j, 1), ny - 2) : j;
        double v = d == 0 ? (phi((a + 1) * ny + b) - phi((a - 1) * ny + b)) / 0.6 : (phi(a * ny + b + 1) - phi(a * ny + b - 1)) / 1.4;
        c.close(D(i * ny + j, d), v, 1e-12, 1e-12, "derivative", mc::cat("cell ", i, ",", j, " axis ", d, " cells ", nX.transpose()));
        if (P[kind][2] == 0)
          c.close(D(i * ny + j, d), P[kind][d], 1e-12, 1e-12, "linear", mc::cat("cell ", i, ",", j, " axis ", d));
        Vec g = D.row(i * ny + j).transpose(), n_ = normal(g);
        double len = g.norm();
        for (int e = 0; e < ndim; e++)
          c.close(n_(e), len > 0 ? g(e) / len : 0, 1e-12, 1e-12, "normal", "normal vector");
      }
}
// every level set of a state is renormalized, nothing else
static void renormalize(mc::Ctx &c) {
  int g = c.choose(3, "grid");
  int nx = g == 0 ? 5 : 3, ny = g == 0 ? 1 : g == 1 ? 4 : 3;
  iVec nX = g == 0 ? ivec({nx}) : ivec({nx, ny});
  aVec dX = g == 0 ? avec({0.3}) : avec({0.3, 0.5});
  int n = nx * ny;
  Mat u(n, V);
  int pat[2] = {0, 0};
  for (int l = 0; l < LSET && l < 2; l++)
    pat[l] = c.choose(12, "pattern");
  c.shard();
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++)
      u(i, v) = v < V - LSET ? 0.7 + i * V + v : pat[std::min(1, v - V + LSET)] == 0 ? -1 - 0.3 * i : pat[std::min(1, v - V + LSET)] == 1 ? 1 + 0.2 * i : shape_value(pat[std::min(1, v - V + LSET)] % 8, (i / ny + 0.5) / nx, (i % ny + 0.5) / ny, 0.4 + 0.1 * (v % 3));
  Mat w = u;
  renormalize_levelsets(w, dX, nX);
  c.step();
  c.state_of(w);
  for (int l = 0; l < LSET; l++) {
    Vec phi = u.col(V - LSET + l), want = run(c, phi, dX, nX);
    c.close_all(Vec(w.col(V - LSET + l)), want, 1e-13, 1e-13, "renormalize", mc::cat("level set ", l, " pattern ", pat[0], ",", pat[1]));
  }
  Mat a = w.leftCols(V - LSET), b = u.leftCols(V - LSET);
  c.expect(same_bits(a, b), "renormalize-only", "renormalizing changed other variables");
}
int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"all-1d", all1, 20}, {"all-2d", all2, 20}, {"shapes", shapes, 20}, {"derivatives", derivs, 20}, {"renormalize", renormalize, 20}});
}
