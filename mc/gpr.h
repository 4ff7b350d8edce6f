// Materials and states shared by the harnesses.
#pragma once
#include "mc.h"
#include "ref.h"
#include <cstring>
#include <functional>
#include <vector>

namespace gpr {
inline Par blank() {
  Par m{};
  m.δp.setZero();
  m.REACTION = -1;
  m.n = 1;
  m.cv = 1;
  m.T0 = 1;
  return m;
}
// ids: keep the order, harnesses choose by index
enum { AIR, WATER, SOLID_SMG, SOLID_GR, PLASTIC_GR, EXPL_JWL, EXPL_CC, BINGHAM_SG, POWER_SG, PLASTIC_SMG, NMAT };
inline const char *name(int k) {
  static const char *n[] = {"air", "water", "elastic-smg", "elastic-gr", "plastic-gr", "jwl", "cochran-chan", "bingham", "power-law", "plastic-smg"};
  return n[k];
}
inline Par material(int k) {
  Par m = blank();
  m.cα2 = 0.8;
  m.κ = 0.05;
  switch (k) {
  case AIR:
    m.EOS = STIFFENED_GAS; m.ρ0 = 1; m.γ = 1.4; m.pINF = 0; m.cv = 2.5;
    m.b02 = 0.6; m.μ = 0.02;
    break;
  case WATER:
    m.EOS = STIFFENED_GAS; m.ρ0 = 1.3; m.γ = 2.8; m.pINF = 0.9; m.cv = 1.2; m.Tref = 0.3;
    m.b02 = 0.5; m.μ = 0.05; m.β = 0.7;
    break;
  case SOLID_SMG:
    m.EOS = SHOCK_MG; m.ρ0 = 2.7; m.Γ0 = 2; m.c02 = 1.7; m.s = 1.34; m.cv = 0.9; m.Tref = 0.4;
    m.b02 = 0.7; m.SOLID = true;
    break;
  case SOLID_GR:
    m.EOS = GODUNOV_ROMENSKI; m.ρ0 = 1.9; m.c02 = 1.5; m.α = 1.2; m.β = 0.6; m.γ = 1.6; m.cv = 0.7;
    m.b02 = 0.5; m.SOLID = true; m.Tref = 0.2;
    break;
  case PLASTIC_GR:
    m.EOS = GODUNOV_ROMENSKI; m.ρ0 = 1.9; m.c02 = 1.5; m.α = 1.2; m.β = 0.6; m.γ = 1.6; m.cv = 0.7;
    m.b02 = 0.5; m.SOLID = true; m.POWER_LAW = true; m.n = 3; m.σY = 0.3; m.τ0 = 0.4; m.Tref = 0.2;
    break;
  case EXPL_JWL:
    m.EOS = JWL; m.ρ0 = 1.6; m.Γ0 = 0.4; m.A = 8.5; m.B = 0.3; m.R1 = 4.5; m.R2 = 1.3; m.cv = 1.5;
    m.b02 = 0.4; m.μ = 0.03;
    break;
  case EXPL_CC:
    m.EOS = COCHRAN_CHAN; m.ρ0 = 1.2; m.Γ0 = 1.1; m.A = 0.8; m.B = 1.1; m.R1 = 4.2; m.R2 = 2.1; m.cv = 1.1;
    m.b02 = 0.4; m.μ = 0.04; m.Tref = 0.25;
    break;
  case BINGHAM_SG:
    m.EOS = STIFFENED_GAS; m.ρ0 = 1; m.γ = 1.7; m.pINF = 0.2; m.cv = 1;
    m.b02 = 0.6; m.μ = 0.05; m.BINGHAM = true; m.σY = 0.12;
    break;
  case POWER_SG:
    m.EOS = STIFFENED_GAS; m.ρ0 = 1; m.γ = 1.4; m.pINF = 0; m.cv = 1;
    m.b02 = 0.6; m.μ = 0.05; m.POWER_LAW = true; m.n = 0.6; m.β = 0.1;
    break;
  case PLASTIC_SMG:
    m.EOS = SHOCK_MG; m.ρ0 = 2.7; m.Γ0 = 2; m.c02 = 1.7; m.s = 1.34; m.cv = 0.9; m.Tref = 0.4;
    m.b02 = 0.7; m.SOLID = true; m.POWER_LAW = true; m.n = 2; m.σY = 0.5; m.τ0 = 0.3; m.β = 0.3;
    break;
  }
  return m;
}
inline Par vacuum() {
  Par m = blank();
  m.EOS = VACUUM;
  return m;
}
// a mixture of two components, reacting or not (configuration 'multi')
inline Par mixture(int a, int b) {
  Par m = material(a);
  m.MULTI = true;
  Par n = material(b);
  m.MP2 = (Params)n;
  return m;
}

// ---- states ----------------------------------------------------------------
// unimodular distortions: rest, stretch, shear, rotated stretch, general
inline Mat3_3 shape(int k) {
  Mat3_3 A = Mat3_3::Identity();
  auto rot = [](double a, int i, int j) {
    Mat3_3 R = Mat3_3::Identity();
    R(i, i) = R(j, j) = cos(a);
    R(i, j) = -sin(a);
    R(j, i) = sin(a);
    return R;
  };
  switch (k) {
  case 0:
    break;
  case 1:
    A.diagonal() << 1.12, 0.95, 1 / (1.12 * 0.95);
    break;
  case 2:
    A(0, 1) = 0.2;
    break;
  case 3:
    A.diagonal() << 1.15, 1, 1 / 1.15;
    A = rot(0.5, 0, 1) * A * rot(0.8, 1, 2) * rot(-0.4, 0, 2);
    break;
  case 4:
    A << 1.05, 0.11, -0.07, 0.04, 0.93, 0.16, -0.12, 0.09, 1.02;
    A /= cbrt(A.determinant());
    break;
  case 5: // same metric as rest
    A = rot(1.1, 0, 1) * rot(0.3, 0, 2);
    break;
  case 6: // strong
    A << 1.3, 0.4, -0.2, 0.1, 0.8, 0.35, -0.3, 0.2, 1.1;
    A /= cbrt(A.determinant());
    break;
  }
  return A;
}
const int NSHAPE = 7;
struct Prim {
  double ρ, p;
  double v[3] = {0, 0, 0};
  Mat3_3 A = Mat3_3::Identity();
  double J[3] = {0, 0, 0};
  double λ = 1;
  double ls[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
};
// conserved vector of the primitive state, by the oracle's energy
inline VecV conserved(const Prim &w, const Par &m) {
  VecV q = VecV::Zero();
  q(0) = w.ρ;
  for (int i = 0; i < 3; i++)
    q(2 + i) = w.ρ * w.v[i];
  for (int i = 0; i < 9; i++)
    q(5 + i) = w.A(i / 3, i % 3);
  if (THERMAL)
    for (int i = 0; i < 3; i++)
      q(14 + i) = w.ρ * w.J[i];
  if (MULTI)
    q(mV) = w.ρ * w.λ;
  for (int i = 0; i < LSET; i++)
    q(V - LSET + i) = w.ls[i];
  if (m.EOS != VACUUM)
    q(1) = (double)ref::energy(ref::st(q), w.p, m);
  return q;
}
// a pressure around which the material is well behaved, at compression x
inline double base_pressure(double ρ, const Params &m) {
  switch (m.EOS) {
  case STIFFENED_GAS:
    return 1.;
  default: {
    double pr = (double)ref::pref(ρ, m);
    return pr + 0.3;
  }
  }
}
// lattice state: compression c, shape k, velocity v, pressure factor
inline Prim prim(const Par &m, int comp, int shp, int vel, int pres) {
  static const double C[] = {1., 1.15, 0.93, 1.3, 0.8};
  static const double VEL[][3] = {{0, 0, 0}, {0.3, -0.2, 0.1}, {-0.5, 0.25, 0.4}, {1.9, 0.7, -0.6}, {-0.05, -1.4, 0.2}};
  static const double P[] = {1., 1.6, 0.55};
  Prim w;
  w.ρ = m.ρ0 * C[comp];
  double b = base_pressure(w.ρ, m);
  w.p = m.EOS == STIFFENED_GAS ? b * P[pres] : (double)ref::pref(w.ρ, m) + 0.3 * P[pres];
  w.A = shape(shp) * cbrt(C[comp]);
  for (int i = 0; i < 3; i++)
    w.v[i] = VEL[vel][i];
  double j[3] = {0.05, -0.03, 0.08};
  for (int i = 0; i < 3; i++)
    w.J[i] = vel ? j[i] * (vel % 2 ? 1 : -0.7) : 0.;
  w.λ = vel % 2 ? 0.6 : 1.;
  for (int i = 0; i < 8; i++)
    w.ls[i] = -0.7 + 0.3 * i + 0.1 * vel;
  return w;
}
const int NCOMP = 5, NVEL = 5, NPRES = 3;
inline VecV state(const Par &m, int comp, int shp, int vel, int pres) {
  return conserved(prim(m, comp, shp, vel, pres), m);
}
// scale of a conserved vector's entries, for comparisons
inline double scale_of(const Par &m, const VecV &q) {
  return std::max(1., std::abs(q(1)));
}

// ---- symmetries of conserved vectors -----------------------------------------
// x' = R x with a signed permutation (or any rotation) R: tensors transform, A -> A R^T
inline VecV transform(const VecV &q, const Mat3_3 &Rm) {
  VecV r = q;
  Vec3 v(q(2), q(3), q(4));
  v = Rm * v;
  for (int i = 0; i < 3; i++)
    r(2 + i) = v(i);
  if (VISCOUS) {
    Mat3_3 A;
    for (int i = 0; i < 9; i++)
      A(i / 3, i % 3) = q(5 + i);
    A = (A * Rm.transpose()).eval();
    for (int i = 0; i < 9; i++)
      r(5 + i) = A(i / 3, i % 3);
  }
  if (THERMAL) {
    Vec3 J(q(14), q(15), q(16));
    J = Rm * J;
    for (int i = 0; i < 3; i++)
      r(14 + i) = J(i);
  }
  return r;
}
// rotate the distortion's own frame too: A -> R A R^T
inline VecV transform2(const VecV &q, const Mat3_3 &Rm) {
  VecV r = transform(q, Rm);
  if (VISCOUS) {
    Mat3_3 A;
    for (int i = 0; i < 9; i++)
      A(i / 3, i % 3) = r(5 + i);
    A = (Rm * A).eval();
    for (int i = 0; i < 9; i++)
      r(5 + i) = A(i / 3, i % 3);
  }
  return r;
}
inline Mat3_3 reflection(int d) {
  Mat3_3 R = Mat3_3::Identity();
  R(d, d) = -1;
  return R;
}
inline Mat3_3 exchange(int a, int b) {
  Mat3_3 R = Mat3_3::Identity();
  R(a, a) = R(b, b) = 0;
  R(a, b) = R(b, a) = 1;
  return R;
}
inline Mat3_3 rotation(double a, double b, double c) {
  Eigen::AngleAxisd x(a, Eigen::Vector3d(1, 0, 0)), y(b, Eigen::Vector3d(0, 1, 0)),
      z(c, Eigen::Vector3d(0, 0, 1));
  return Mat3_3((x * y * z).toRotationMatrix());
}
inline iVec ivec(std::initializer_list<int> l) {
  iVec r(l.size());
  int i = 0;
  for (int x : l)
    r(i++) = x;
  return r;
}
inline Vec dvec(std::initializer_list<double> l) {
  Vec r(l.size());
  int i = 0;
  for (double x : l)
    r(i++) = x;
  return r;
}
inline aVec avec(std::initializer_list<double> l) { return aVec(dvec(l).array()); }
inline bool finite(const Vec &v) {
  for (long i = 0; i < v.size(); i++)
    if (!std::isfinite(v(i)))
      return false;
  return true;
}
// an array between two guard zones, filled with a pattern that is NaN as a double
template <class T> struct Guarded {
  T all;
  long n, g;
  Guarded(long n_, long g_ = 64) : all(n_ + 2 * g_), n(n_), g(g_) { fill(); }
  Guarded(const T &x, long g_ = 64) : Guarded((long)x.size(), g_) { seg() = x; }
  void fill() { memset((void *)all.data(), 0xFF, all.size() * sizeof(typename T::Scalar)); }
  auto seg() { return all.segment(g, n); }
  T get() const { return all.segment(g, n); }
  bool intact() const {
    const unsigned char *p = (const unsigned char *)all.data();
    size_t z = g * sizeof(typename T::Scalar), e = all.size() * sizeof(typename T::Scalar);
    for (size_t i = 0; i < z; i++)
      if (p[i] != 0xFF || p[e - 1 - i] != 0xFF)
        return false;
    return true;
  }
};
template <class T> bool same_bits(const T &a, const T &b) {
  return a.size() == b.size() &&
         memcmp(a.data(), b.data(), a.size() * sizeof(typename T::Scalar)) == 0;
}
} // namespace gpr
