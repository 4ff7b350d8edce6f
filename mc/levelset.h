// Oracle of the distance function: which cells border the interface, and the
// fixed point of the first order upwind distance equation elsewhere.
#pragma once
#include "evolve.h"
namespace gpr {
const double FAR = 1e300;
struct Cells {
  int nx, ny, n;
  bool two;
  double d[2];
  Cells(const iVec &nX, const aVec &dX) : nx(nX(0)), ny(nX.size() > 1 ? nX(1) : 1), n(nx * ny), two(nX.size() > 1) {
    d[0] = dX(0);
    d[1] = two ? dX(1) : 1;
  }
  // neighbour of a cell in direction s along axis a, or -1
  int next(int i, int a, int s) const {
    int x = i / ny + (a == 0 ? s : 0), y = i % ny + (a == 1 ? s : 0);
    return x < 0 || x >= nx || y < 0 || y >= ny ? -1 : x * ny + y;
  }
  int naxis() const { return two ? 2 : 1; }
};
// cells next to the interface, with their distances along the axes
inline bool borders(const Cells &C, const Vec &phi, int i, double &dist) {
  bool b = false;
  dist = FAR;
  if (phi(i) == 0) {
    dist = 0;
    return true;
  }
  for (int a = 0; a < C.naxis(); a++)
    for (int s = -1; s < 2; s += 2) {
      int k = C.next(i, a, s);
      if (k >= 0 && (phi(i) > 0) != (phi(k) > 0) && phi(k) != 0) {
        b = true;
        dist = std::min(dist, C.d[a] * phi(i) / (phi(i) - phi(k)));
      }
    }
  return b;
}
// upwind solution of |grad| = 1 from the smallest neighbours along each axis
inline double upwind(const Cells &C, const std::vector<double> &T, int i) {
  double m[2] = {FAR, FAR};
  for (int a = 0; a < C.naxis(); a++)
    for (int s = -1; s < 2; s += 2) {
      int k = C.next(i, a, s);
      if (k >= 0)
        m[a] = std::min(m[a], T[k]);
    }
  double best = std::min(m[0] + C.d[0], C.two ? m[1] + C.d[1] : FAR);
  if (m[0] < FAR && m[1] < FAR) { // both, if the solution lies beyond both
    double w0 = 1 / (C.d[0] * C.d[0]), w1 = 1 / (C.d[1] * C.d[1]);
    double b = w0 * m[0] + w1 * m[1], a = w0 + w1, q = b * b - a * (w0 * m[0] * m[0] + w1 * m[1] * m[1] - 1);
    if (q >= 0) {
      double r = (b + sqrt(q)) / a;
      if (r >= std::max(m[0], m[1]))
        best = std::min(best, r);
    }
  }
  return best;
}
// unsigned distances, by iteration until nothing changes; false if there is no interface
inline bool distances(const Cells &C, const Vec &phi, std::vector<double> &T, std::vector<bool> &fixed) {
  T.assign(C.n, FAR);
  fixed.assign(C.n, false);
  bool any = false;
  for (int i = 0; i < C.n; i++) {
    double d;
    if (borders(C, phi, i, d)) {
      T[i] = d;
      fixed[i] = any = true;
    }
  }
  if (!any)
    return false;
  for (bool moved = true; moved;) {
    moved = false;
    for (int i = 0; i < C.n; i++)
      if (!fixed[i]) {
        double t = upwind(C, T, i);
        if (t < T[i] - 1e-14) {
          T[i] = t;
          moved = true;
        }
      }
  }
  return true;
}
} // namespace gpr
