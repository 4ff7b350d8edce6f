// P01: boundary conditions
#include "gpr.h"
#include "src/etc/grid.h"
using namespace gpr;

enum { TRANS, PER, SLIP, STICK, MOVING, SYM };
static const char *TN[] = {"transmissive", "periodic", "slip", "stick", "moving", "symmetric"};

// generic data: every entry of every cell is different
static VecV cell(int i, int j) {
  VecV q;
  for (int k = 0; k < V; k++)
    q(k) = std::sin(1.7 * k + 0.9 * i + 2.3 * j + 0.1 * i * j) + (k < 2 ? 3.5 + 0.2 * i + 0.11 * j : 0);
  if (VISCOUS)
    for (int k = 0; k < 9; k++)
      q(5 + k) = (k % 4 == 0) + 0.2 * q(5 + k);
  return q;
}
// what a ghost cell holds, from the cell it mirrors
static VecV mirrored(VecV q, int type, int d, double &tol) {
  switch (type) {
  case SLIP:
    q(2 + d) = -q(2 + d);
    break;
  case STICK:
    for (int i = 0; i < 3; i++)
      q(2 + i) = -q(2 + i);
    break;
  case MOVING: { // v -> 2 e_x - v, so the energy changes by that of the motion
    double k0 = q.segment<3>(2).squaredNorm() / (2 * q(0));
    for (int i = 0; i < 3; i++)
      q(2 + i) = (i == 0 ? 2 * q(0) : 0) - q(2 + i);
    q(1) += q.segment<3>(2).squaredNorm() / (2 * q(0)) - k0;
    tol = 1e-12;
    break;
  }
  case SYM:
    q = transform2(q, reflection(d));
    break;
  }
  if (DESTRESS && (type == SLIP || type == STICK || type == MOVING)) {
    Eigen::Matrix<long double, 3, 3> A, R, W;
    for (int i = 0; i < 9; i++)
      A(i / 3, i % 3) = q(5 + i);
    R = A; // the nearest rotation, by the Newton iteration for the polar factor
    for (int i = 0; i < 30; i++) {
      W = R.inverse().transpose();
      R = (R + W) / 2;
    }
    A = (2 * cbrtl(A.determinant()) * R - A).eval();
    for (int i = 0; i < 9; i++)
      q(5 + i) = (double)A(i / 3, i % 3);
    tol = 1e-10;
  }
  return q;
}
// the cell (0..n-1) that layer i (0..n+2N-1) mirrors, and the type (-1: interior)
static int source(int i, int n, int t0, int t1, int &type) {
  int k = i - N;
  type = -1;
  if (k >= 0 && k < n)
    return k;
  type = k < 0 ? t0 : t1;
  switch (type) {
  case TRANS:
    return k < 0 ? 0 : n - 1;
  case PER:
    return (k + n) % n;
  default: // the mirror image, about the face
    return k < 0 ? -1 - k : 2 * n - 1 - k;
  }
}
static void check(mc::Ctx &c, const VecV &got, const VecV &want, double tol, const std::string &what) {
  c.evals();
  for (int k = 0; k < V; k++)
    if (tol == 0 || k == 0 || (k > 4 && (!DESTRESS || k > 13))) {
      if (!(got(k) == want(k)))
        c.fail("value", mc::cat(what, " component ", k, ": got ", got(k), " expected ", want(k)));
    } else
      c.close(got(k), want(k), tol, tol, "value", mc::cat(what, " component ", k));
}

static void line(mc::Ctx &c) {
  int n = N + c.choose(5, "cells"), t0 = c.choose(6, "left"), t1 = c.choose(6, "right"), off = c.choose(4, "data");
  c.note(mc::cat(n, " cells, ", TN[t0], ", ", TN[t1]));
  Vec u0(n * V);
  for (int i = 0; i < n; i++)
    u0.segment<V>(i * V) = cell(i + 7 * off, off);
  Guarded<Vec> u(u0), ub((n + 2 * N) * V);
  iVec nX = ivec({n}), bt = ivec({t0, t1});
  boundaries(u.seg(), ub.seg(), nX, bt);
  c.step();
  Vec r = ub.get();
  c.state_of(r);
  c.expect(same_bits(u.get(), u0) && u.intact(), "input", "the interior array was changed");
  c.expect(ub.intact(), "bounds", "written outside of the extended array");
  for (int i = 0; i < n + 2 * N; i++) {
    int type;
    double tol = 0;
    int s = source(i, n, t0, t1, type);
    VecV want = mirrored(u0.segment<V>(s * V), type, 0, tol);
    check(c, r.segment<V>(i * V), want, tol, mc::cat("layer ", i - N));
  }
}

static void plane(mc::Ctx &c) {
  static const int SH[][2] = {{0, 0}, {0, 1}, {2, 0}, {1, 3}};
  int sh = c.choose(mc::thorough ? 4 : 2, "shape");
  int nx = N + SH[sh][0], ny = N + SH[sh][1];
  int t[4];
  for (int k = 0; k < 4; k++) {
    t[k] = c.choose(6, k == 0 ? "x low" : k == 1 ? "x high" : k == 2 ? "y low" : "y high");
    if (k == 1)
      c.shard();
  }
  c.note(mc::cat(nx, "x", ny, " ", TN[t[0]], ", ", TN[t[1]], ", ", TN[t[2]], ", ", TN[t[3]]));
  Vec u0(nx * ny * V);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++)
      u0.segment<V>((i * ny + j) * V) = cell(i, j);
  int mx = nx + 2 * N, my = ny + 2 * N;
  Guarded<Vec> u(u0), ub(mx * my * V);
  iVec nX = ivec({nx, ny}), bt = ivec({t[0], t[1], t[2], t[3]});
  boundaries(u.seg(), ub.seg(), nX, bt);
  c.step();
  Vec r = ub.get();
  c.state_of(r);
  c.expect(same_bits(u.get(), u0) && u.intact(), "input", "the interior array was changed");
  c.expect(ub.intact(), "bounds", "written outside of the extended array");
  for (int i = 0; i < mx; i++)
    for (int j = 0; j < my; j++) {
      int tx, ty;
      double tol = 0;
      int si = source(i, nx, t[0], t[1], tx), sj = source(j, ny, t[2], t[3], ty);
      VecV want = mirrored(mirrored(u0.segment<V>((si * ny + sj) * V), tx, 0, tol), ty, 1, tol);
      check(c, r.segment<V>((i * my + j) * V), want, tol, mc::cat("cell ", i - N, ",", j - N));
    }
}

int main(int argc, char **argv) { return mc::main_(argc, argv, {{"line", line}, {"plane", plane}}); }
