// Grids, boundaries and steps of the real solver.
#pragma once
#include "gpr.h"
#include "rt.h"
#include "src/etc/grid.h"
#include "src/solvers/fv/fluxes.h"
#include "src/solvers/steppers.h"

namespace gpr {
enum { ADER, SPLIT_FULL, SPLIT_HALF, ADER_STIFF };
inline const char *stepper_name(int s) {
  static const char *n[] = {"ader", "split", "split-half", "ader-stiff"};
  return n[s];
}
inline const char *flux_name(int f) {
  static const char *n[] = {"rusanov", "roe", "osher"};
  return n[f];
}
enum { B_TRANSMISSIVE, B_PERIODIC, B_SLIP, B_STICK, B_MOVING, B_SYMMETRIC };
inline const char *bt_name(int b) {
  static const char *n[] = {"transmissive", "periodic", "slip", "stick", "moving", "symmetric"};
  return n[b];
}
struct Domain {
  iVec nX;
  Vec dX;
  iVec bt;
  int ncell() const { return nX.prod(); }
  int ndim() const { return nX.size(); }
};
inline Domain line(int n, double dx, int l, int r) {
  return {ivec({n}), dvec({dx}), ivec({l, r})};
}
inline Domain plane(int nx, int ny, double dx, double dy, int l, int r, int b, int t) {
  return {ivec({nx, ny}), dvec({dx, dy}), ivec({l, r, b, t})};
}
inline bVec ones(long n) {
  bVec m(n);
  m.setConstant(true);
  return m;
}
// one time step of the real solver, with the ghost layers of the domain's boundary types
inline void step(Vec &u, const Domain &D_, int stepper, int flux, double dt, Par &MP,
                 const bVec *mask = nullptr, bool para = false) {
  Domain D = D_;
  Vec ub(extended_dimensions(D.nX, N) * V);
  bVec m = mask ? *mask : ones(D.ncell()), mb(extended_dimensions(D.nX, 1));
  boundaries(u, ub, D.nX, D.bt);
  extend_mask(m, mb, D.nX);
  bool ader = stepper == ADER || stepper == ADER_STIFF;
  bool flag = stepper == ADER_STIFF || stepper == SPLIT_HALF;
  auto f = ader ? (para ? ader_stepper_para : ader_stepper) : (para ? split_stepper_para : split_stepper);
  f(u, ub, D.nX, dt, D.dX, flag, flux, MP, mb);
}
inline VecV cell(const Vec &u, int i) { return u.segment<V>(i * V); }
// materials for which the iterations of the predictor converge quickly
inline Par mild(int k) {
  Par m = material(k);
  m.μ *= 12;
  m.τ0 *= 20;
  m.κ *= 10;
  return m;
}
// states for grids: rest, compressed and moving, sheared, and reflections of these
inline VecV grid_state(const Par &m, int k, double kick = 1) {
  Prim w;
  switch (k) {
  case 0: w = prim(m, 0, 0, 0, 0); break;
  case 1: w = prim(m, 1, 2, 1, 1); break;
  case 2: w = prim(m, 0, 4, 2, 0); break;
  case 3: w = prim(m, 2, 1, 4, 0); break;
  default: w = prim(m, 1, 3, 2, 2); break;
  }
  if (m.EOS == SHOCK_MG) { // stay off the kink of its reference curve
    double f = k == 0 || k == 2 ? 1.004 : 1;
    w.ρ *= f;
    w.A *= cbrt(f);
  }
  for (int i = 0; i < 3; i++)
    w.v[i] *= kick;
  for (int i = 0; i < 8; i++)
    w.ls[i] = -0.5 - 0.1 * k + 0.2 * i;
  VecV q = conserved(w, m);
  if (m.POWER_LAW && m.SOLID && k) { // stiff: smaller jumps
    VecV r = grid_state(m, 0, kick);
    q = (r + 0.25 * (q - r)).eval();
  }
  return q;
}
inline bool all_finite(const Vec &u) { return finite(u); }
inline double scale(const Vec &u) { return std::max(1., u.cwiseAbs().maxCoeff()); }
} // namespace gpr
