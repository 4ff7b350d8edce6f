// Oracle of the quadrature and of the basis polynomials, in extended precision.
#pragma once
#include "gpr.h"
typedef long double ld;
typedef std::vector<ld> LP;

// the oracle's Gauss-Legendre rule on [-1,1]: Newton iterations in extended precision
static void rule(int n, std::vector<ld> &x, std::vector<ld> &w) {
  x.resize(n);
  w.resize(n);
  for (int i = 0; i < n; i++) {
    ld z = cosl(M_PIl * (n - i - 0.25L) / (n + 0.5L)), d = 1;
    for (int it = 0; it < 60; it++) {
      ld p0 = 1, p1 = z;
      for (int k = 2; k <= n; k++) {
        ld p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      d = n * (z * p1 - p0) / (z * z - 1);
      z -= p1 / d;
    }
    x[i] = z;
    w[i] = 2 / ((1 - z * z) * d * d);
  }
}
struct Base {
  std::vector<ld> x, w;  // on [0,1]
  std::vector<LP> psi;   // coefficients of the Lagrange polynomials
  Base() {
    rule(N, x, w);
    for (int i = 0; i < N; i++)
      x[i] = (x[i] + 1) / 2, w[i] /= 2;
    for (int i = 0; i < N; i++) {
      LP p{1};
      for (int j = 0; j < N; j++)
        if (j != i) {
          LP q(p.size() + 1, 0);
          for (size_t k = 0; k < p.size(); k++) {
            q[k] -= p[k] * x[j] / (x[i] - x[j]);
            q[k + 1] += p[k] / (x[i] - x[j]);
          }
          p = q;
        }
      psi.push_back(p);
    }
  }
  static ld val(const LP &p, ld t) {
    ld r = 0;
    for (int i = (int)p.size() - 1; i >= 0; i--)
      r = r * t + p[i];
    return r;
  }
  static LP der(LP p, int n = 1) {
    for (; n > 0; n--) {
      for (size_t i = 1; i < p.size(); i++)
        p[i - 1] = p[i] * i;
      p.back() = 0;
    }
    return p;
  }
  static ld integral(const LP &p, ld a, ld b) {
    ld r = 0, pa = a, pb = b;
    for (size_t i = 0; i < p.size(); i++, pa *= a, pb *= b)
      r += p[i] * (pb - pa) / (i + 1);
    return r;
  }
  static LP mul(const LP &a, const LP &b) {
    LP r(a.size() + b.size() - 1, 0);
    for (size_t i = 0; i < a.size(); i++)
      for (size_t j = 0; j < b.size(); j++)
        r[i + j] += a[i] * b[j];
    return r;
  }
};
static const Base &B() {
  static Base b;
  return b;
}
