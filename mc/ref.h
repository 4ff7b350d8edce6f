// The governing equations written down once more, from the equations and not from
// the code, in extended precision: the oracle of the system checks.
#pragma once
#include "src/etc/types.h"
#include "src/system/energy/mg.h"
#include "src/system/objects.h"
#include <array>
#include <cmath>
#include <functional>

namespace ref {
typedef long double R;
typedef std::array<R, V> St;
typedef std::array<std::array<R, 3>, 3> M3;

template <class Q> St st(const Q &q) {
  St s;
  for (int i = 0; i < V; i++)
    s[i] = q(i);
  return s;
}
inline VecV vec(const St &s) {
  VecV q;
  for (int i = 0; i < V; i++)
    q(i) = (double)s[i];
  return q;
}

// ---- equations of state: p = pr + Γ ρ (e - er) -----------------------------
inline R Gam(R ρ, const Params &m) {
  switch (m.EOS) {
  case STIFFENED_GAS: return (R)m.γ - 1;
  case SHOCK_MG: return (R)m.Γ0 * m.ρ0 / ρ;
  case GODUNOV_ROMENSKI: return m.γ;
  default: return m.Γ0;
  }
}
inline R pref(R ρ, const Params &m) {
  R x = ρ / m.ρ0, v = m.ρ0 / ρ;
  switch (m.EOS) {
  case STIFFENED_GAS: return -(R)m.pINF;
  case SHOCK_MG: {
    if (ρ <= m.ρ0)
      return m.c02 * (ρ - m.ρ0);
    R η = 1 - v; // Hugoniot of us = c0 + s up
    return (R)m.ρ0 * m.c02 * η / ((1 - m.s * η) * (1 - m.s * η));
  }
  case GODUNOV_ROMENSKI: {
    R t = powl(x, m.α);
    return (R)m.c02 * ρ / m.α * (t * t - t);
  }
  case JWL: return m.A * expl(-m.R1 * v) + m.B * expl(-m.R2 * v);
  case COCHRAN_CHAN: return m.A * powl(x, m.R1) - m.B * powl(x, m.R2);
  }
  return NAN;
}
inline R eref(R ρ, const Params &m) {
  R x = ρ / m.ρ0, v = m.ρ0 / ρ;
  switch (m.EOS) {
  case STIFFENED_GAS: return (R)m.pINF / ρ;
  case SHOCK_MG: return ρ > m.ρ0 ? pref(ρ, m) * (1 - v) / (2 * (R)m.ρ0) : 0;
  case GODUNOV_ROMENSKI: {
    R t = powl(x, m.α) - 1;
    return (R)m.c02 / (2 * (R)m.α * m.α) * t * t;
  }
  case JWL:
    return m.A / ((R)m.ρ0 * m.R1) * expl(-m.R1 * v) +
           m.B / ((R)m.ρ0 * m.R2) * expl(-m.R2 * v);
  case COCHRAN_CHAN:
    return (m.A / ((R)m.R1 - 1) * (powl(x, m.R1 - 1) - 1) -
            m.B / ((R)m.R2 - 1) * (powl(x, m.R2 - 1) - 1)) / m.ρ0;
  }
  return NAN;
}
// isentropic temperature factor: dφ/dρ = φ Γ/ρ, φ(ρ0) = 1
inline R phi(R ρ, const Params &m) {
  switch (m.EOS) {
  case SHOCK_MG: return expl(m.Γ0 * (1 - m.ρ0 / ρ));
  default: return powl(ρ / m.ρ0, Gam(ρ, m));
  }
}
inline R p_of_e(R ρ, R e, const Params &m) { return pref(ρ, m) + Gam(ρ, m) * ρ * (e - eref(ρ, m)); }
inline R e_of_p(R ρ, R p, const Params &m) { return eref(ρ, m) + (p - pref(ρ, m)) / (ρ * Gam(ρ, m)); }
inline R temp(R ρ, R p, const Params &m) {
  return phi(ρ, m) * m.Tref + (p - pref(ρ, m)) / (ρ * Gam(ρ, m) * m.cv);
}

// ---- shear -----------------------------------------------------------------
inline R cs2(R ρ, const Par &m) { return m.b02 * powl(ρ / m.ρ0, m.β); }
inline R C0(R ρ, const Par &m) { return (1 - m.β / Gam(ρ, m)) * cs2(ρ, m); }
inline M3 mul(const M3 &a, const M3 &b) {
  M3 c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
  return c;
}
inline M3 tr(const M3 &a) {
  M3 c;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c[i][j] = a[j][i];
  return c;
}
inline M3 dev(M3 g) {
  R t = (g[0][0] + g[1][1] + g[2][2]) / 3;
  for (int i = 0; i < 3; i++)
    g[i][i] -= t;
  return g;
}
inline R det(const M3 &a) {
  return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) -
         a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
         a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
inline R normsq(const M3 &a) {
  R s = 0;
  for (auto &r : a)
    for (R x : r)
      s += x * x;
  return s;
}
inline M3 A_of(const St &q) {
  M3 a;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      a[i][j] = q[5 + 3 * i + j];
  return a;
}
// σ = -ρ cs² G dev G
inline M3 stress(const St &q, const Par &m) {
  M3 A = A_of(q), G = mul(tr(A), A), s = mul(G, dev(G));
  for (auto &r : s)
    for (R &x : r)
      x *= -q[0] * cs2(q[0], m);
  return s;
}
// ∂E/∂A at constant entropy
inline M3 E_A(const St &q, const Par &m) {
  M3 A = A_of(q), G = mul(tr(A), A), s = mul(A, dev(G));
  for (auto &r : s)
    for (R &x : r)
      x *= cs2(q[0], m);
  return s;
}
inline R von_mises(const M3 &s) { // sqrt(3/2 dev:dev)
  M3 d = dev(s);
  return sqrtl(1.5L * normsq(d));
}

// ---- energy ----------------------------------------------------------------
inline R shear_energy(const St &q, const Par &m) {
  M3 A = A_of(q);
  return C0(q[0], m) / 4 * normsq(dev(mul(tr(A), A)));
}
inline R other_energy(const St &q, const Par &m) {
  R E = (q[2] * q[2] + q[3] * q[3] + q[4] * q[4]) / (2 * q[0] * q[0]);
  if (VISCOUS)
    E += shear_energy(q, m);
  if (THERMAL)
    E += m.cα2 * (q[14] * q[14] + q[15] * q[15] + q[16] * q[16]) / (2 * q[0] * q[0]);
  if (MULTI && m.REACTION > -1)
    E += m.Qc * (q[mV] / q[0] - 1);
  return E;
}
inline R internal(const St &q, const Par &m) { return q[1] / q[0] - other_energy(q, m); }

// density at pressure and temperature, NaN if there is none near the reference density
inline R density(R p, R T, const Params &n) {
  R lo = n.ρ0 * 0.05L, hi = n.ρ0 * 3.0L;
  auto g = [&](R r) { return temp(r, p, n) - T; };
  if (g(lo) * g(hi) > 0)
    return NAN;
  for (int i = 0; i < 200; i++) {
    R x = (lo + hi) / 2;
    ((g(x) > 0) == (g(lo) > 0) ? lo : hi) = x;
  }
  return lo;
}
// mixture in pressure and temperature equilibrium: solved here by nested bisection
struct Mix {
  R p, ρ1, ρ2;
};
inline Mix mixture(R ρ, R e, R λ, const Par &m) {
  if (λ >= 1)
    return {p_of_e(ρ, e, m), ρ, ρ};
  if (λ <= 0)
    return {p_of_e(ρ, e, m.MP2), ρ, ρ};
  // unknown x = ρ1; ρ2 follows from 1/ρ = λ/ρ1 + (1-λ)/ρ2; for given ρ1 the
  // equation T1(ρ1,p) = T2(ρ2,p) is linear in p
  auto p_eq = [&](R ρ1, R &ρ2) {
    ρ2 = (1 - λ) / (1 / ρ - λ / ρ1);
    R a1 = 1 / (ρ1 * Gam(ρ1, m) * m.cv), a2 = 1 / (ρ2 * Gam(ρ2, m.MP2) * m.MP2.cv);
    R b1 = phi(ρ1, m) * m.Tref - a1 * pref(ρ1, m);
    R b2 = phi(ρ2, m.MP2) * m.MP2.Tref - a2 * pref(ρ2, m.MP2);
    return (b2 - b1) / (a1 - a2);
  };
  (void)p_eq;
  // energy is linear in p too: e = λ e1 + (1-λ) e2  -> p(ρ1); match temperatures
  auto p_en = [&](R ρ1, R &ρ2) {
    ρ2 = (1 - λ) / (1 / ρ - λ / ρ1);
    R k = λ / (ρ1 * Gam(ρ1, m)) + (1 - λ) / (ρ2 * Gam(ρ2, m.MP2));
    R c = λ * (eref(ρ1, m) - pref(ρ1, m) / (ρ1 * Gam(ρ1, m))) +
          (1 - λ) * (eref(ρ2, m.MP2) - pref(ρ2, m.MP2) / (ρ2 * Gam(ρ2, m.MP2)));
    return (e - c) / k;
  };
  auto g = [&](R ρ1) {
    R ρ2;
    R p = p_en(ρ1, ρ2);
    return temp(ρ1, p, m) - temp(ρ2, p, m.MP2);
  };
  // T1 falls and T2 rises with ρ1 near equilibrium: bracket around ρ
  R lo = ρ, hi = ρ;
  R g0 = g(ρ);
  if (g0 == 0) {
    R ρ2, p = p_en(ρ, ρ2);
    return {p, ρ, ρ2};
  }
  R f = 1.02L;
  for (int i = 0; i < 400; i++) {
    R a = lo / f, b = hi * f;
    if (a > λ * ρ * 1.0001L && g(a) * g0 < 0) {
      hi = lo;
      lo = a;
      break;
    }
    if (g(b) * g0 < 0) {
      lo = hi;
      hi = b;
      break;
    }
    if (a > λ * ρ * 1.0001L)
      lo = a;
    hi = b;
    if (i == 399)
      return {NAN, NAN, NAN};
  }
  R gl = g(lo);
  for (int i = 0; i < 200; i++) {
    R x = (lo + hi) / 2, gx = g(x);
    if ((gx < 0) == (gl < 0))
      lo = x;
    else
      hi = x;
  }
  R ρ2, p = p_en(lo, ρ2);
  return {p, lo, ρ2};
}
inline R pressure(const St &q, const Par &m) {
  if (MULTI && m.MULTI)
    return mixture(q[0], internal(q, m), q[mV] / q[0], m).p;
  return p_of_e(q[0], internal(q, m), m);
}
inline R temperature(const St &q, const Par &m) { return temp(q[0], pressure(q, m), m); }
// conserved energy of a state whose pressure is to be p (single equation of state)
inline R energy(const St &q, R p, const Par &m) {
  return q[0] * (e_of_p(q[0], p, m) + other_energy(q, m));
}

// ---- balance laws ----------------------------------------------------------
inline St flux(const St &q, int d, const Par &m, R p) {
  St f{};
  R ρ = q[0], vd = q[2 + d] / ρ;
  for (int i = 0; i < 5; i++)
    f[i] = vd * q[i];
  f[1] += vd * p;
  f[2 + d] += p;
  if (VISCOUS) {
    M3 s = stress(q, m), A = A_of(q);
    for (int k = 0; k < 3; k++) {
      f[2 + k] -= s[k][d];
      f[1] -= s[k][d] * q[2 + k] / ρ;
    }
    for (int i = 0; i < 3; i++)
      for (int k = 0; k < 3; k++)
        f[5 + 3 * i + d] += A[i][k] * q[2 + k] / ρ;
  }
  if (THERMAL) {
    R T = temp(ρ, p, m);
    f[1] += m.cα2 * T * q[14 + d] / ρ;
    for (int k = 0; k < 3; k++)
      f[14 + k] += vd * q[14 + k];
    f[14 + d] += T;
  }
  if (MULTI)
    f[mV] = q[mV] * vd;
  return f;
}
inline St flux(const St &q, int d, const Par &m) { return flux(q, d, m, pressure(q, m)); }
// B_d(q) x
inline St noncons(const St &q, const St &x, int d) {
  St f{};
  R v[3] = {q[2] / q[0], q[3] / q[0], q[4] / q[0]};
  if (VISCOUS)
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        R &y = f[5 + 3 * i + j];
        y = v[d] * x[5 + 3 * i + j];
        if (j == d)
          for (int k = 0; k < 3; k++)
            y -= v[k] * x[5 + 3 * i + k];
      }
  for (int i = V - LSET; i < V; i++)
    f[i] = v[d] * x[i];
  return f;
}
// 1/θ1: rate of relaxation of the distortion per ∂E/∂A
inline R theta1inv(const St &q, const Par &m) {
  M3 A = A_of(q), s = stress(q, m);
  R a = powl(det(A), 5 / 3.L);
  if (m.SOLID) {
    if (!m.POWER_LAW)
      return 0;
    R sn = std::min<R>(von_mises(s), 1e8L);
    return 3 * a / (cs2(q[0], m) * m.τ0) * powl(sn / m.σY, m.n);
  }
  R t = sqrtl(normsq(s) / 2);
  if (m.BINGHAM)
    return t > m.σY ? a * m.ρ0 / (2 * (R)m.μ) * (1 - m.σY / t) : 0;
  R c = a * m.ρ0 / (2 * powl(m.μ, 1 / (R)m.n));
  return m.POWER_LAW ? c * powl(t, (1 - (R)m.n) / m.n) : c;
}
inline R theta2inv(const St &q, const Par &m) { return temperature(q, m) / (m.κ * q[0]); }
inline R pw(R x, R y) { return powl(x, y); }
inline R rate(const St &q, const Par &m) {
  R λ = std::max<R>(0, q[mV] / q[0]);
  if (m.REACTION == 0)
    return temperature(q, m) > m.Ti ? m.Kc * λ : 0;
  if (m.REACTION == 1)
    return m.Bc * expl(-m.Ea / (m.Rc * temperature(q, m))) * λ;
  R p = std::max<R>(0, pressure(q, m));
  λ = std::min<R>(1, λ);
  R f = 1 - λ, r = 0;
  if (f < m.φI)
    r += m.I * pw(λ, m.b) * pw(std::max<R>(0, q[0] / m.ρ0 - 1 - m.a), m.x);
  if (f < m.φG1)
    r += m.G1 * pw(λ, m.c) * pw(f, m.d) * pw(p, m.y);
  if (f > m.φG2)
    r += m.G2 * pw(λ, m.e) * pw(f, m.g) * pw(p, m.z);
  return r > 0 ? r : 0;
}
inline St source(const St &q, const Par &m) {
  St s{};
  for (int k = 0; k < 3; k++)
    s[2 + k] = m.δp(k);
  if (VISCOUS) {
    M3 e = E_A(q, m);
    R t = theta1inv(q, m);
    for (int i = 0; i < 9; i++)
      s[5 + i] = t == 0 ? 0 : -e[i / 3][i % 3] * t;
  }
  if (THERMAL)
    for (int k = 0; k < 3; k++)
      s[14 + k] = -q[0] * m.cα2 * q[14 + k] / q[0] * theta2inv(q, m);
  if (MULTI && m.REACTION > -1)
    s[mV] = -q[0] * rate(q, m);
  return s;
}
// directional derivative of f at q along x, by Richardson extrapolation
inline St deriv(const std::function<St(const St &)> &f, const St &q, const St &x, R h) {
  auto D = [&](R h) {
    St a = q, b = q;
    for (int i = 0; i < V; i++) {
      a[i] += h * x[i];
      b[i] -= h * x[i];
    }
    St fa = f(a), fb = f(b), r;
    for (int i = 0; i < V; i++)
      r[i] = (fa[i] - fb[i]) / (2 * h);
    return r;
  };
  St d1 = D(h), d2 = D(h / 2), r;
  for (int i = 0; i < V; i++)
    r[i] = (4 * d2[i] - d1[i]) / 3;
  return r;
}
// the system matrix, by differentiating the flux above
inline MatV_V jacobian(const St &q, int d, const Par &m) {
  MatV_V J;
  for (int j = 0; j < V; j++) {
    St x{};
    x[j] = 1;
    R sc = std::max<R>(fabsl(q[j]), j == 1 ? fabsl(q[1]) : 1e-2L * fabsl(q[0]));
    if (j >= 5 && j < 14)
      sc = 1;
    St c = deriv([&](const St &s) { return flux(s, d, m); }, q, x, 1e-4L * sc);
    for (int i = 0; i < V; i++)
      J(i, j) = (double)c[i];
  }
  return J;
}
inline MatV_V block(const St &q, int d) {
  MatV_V B;
  for (int j = 0; j < V; j++) {
    St x{};
    x[j] = 1;
    St c = noncons(q, x, d);
    for (int i = 0; i < V; i++)
      B(i, j) = (double)c[i];
  }
  return B;
}
} // namespace ref
