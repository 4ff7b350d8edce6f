// P11: uniform states stay uniform and unchanged
#include "evolve.h"
using namespace gpr;

enum { REST, MOTION, ALONG, SLIDE, STRETCHED, SHEARED, NKIND };
static const char *kind_name[] = {"rest", "motion", "along-the-wall", "sliding", "stretched", "sheared"};
static const int MATS[] = {AIR, SOLID_SMG, PLASTIC_GR, EXPL_CC, BINGHAM_SG, WATER, SOLID_GR, EXPL_JWL, POWER_SG, PLASTIC_SMG};

static VecV make(const Par &m, int kind, int comp) {
  Prim w = prim(m, comp, 0, 0, 1);
  double s = cbrt(w.ρ / m.ρ0);
  if (m.EOS == SHOCK_MG) {
    w.ρ *= 1.004;
    s *= cbrt(1.004);
  }
  // any rotation of the distortion is as relaxed as the identity
  w.A = s * shape(kind == MOTION ? 5 : kind == STRETCHED ? 1 : kind == SHEARED ? 4 : 0);
  double v[NKIND][3] = {{0, 0, 0}, {0.3, -0.2, 0.1}, {1, 0, 0}, {0, -0.2, 0.1}, {0, 0, 0}, {0.4, 0.5, -0.2}};
  for (int i = 0; i < 3; i++)
    w.v[i] = v[kind][i];
  w.J[0] = w.J[1] = w.J[2] = 0;
  w.λ = comp ? 0.6 : 1;
  return conserved(w, m);
}
// does the boundary type of a side with its normal along d admit the state?
static bool admits(int b, int kind, int d) {
  if (b == B_TRANSMISSIVE || b == B_PERIODIC)
    return true;
  switch (kind) {
  case REST:
  case STRETCHED:
    return b != B_MOVING;
  case ALONG:
    return d == 1 && b != B_STICK;
  case SLIDE:
    return d == 0 && (b == B_SLIP || b == B_SYMMETRIC);
  }
  return false;
}
static void body(mc::Ctx &c, int ndim) {
  int k = c.choose(MULTI ? 3 : mc::thorough ? 10 : ndim == 1 && !THERMAL ? 10 : 4, "material");
  Par m = MULTI ? material(k == 0 ? AIR : k == 1 ? EXPL_JWL : SOLID_SMG) : material(MATS[k]);
  if (MULTI && k == 1)
    m.REACTION = -1;
  int kind = c.choose(NKIND, "state");
  if (kind >= STRETCHED && (!m.SOLID || m.POWER_LAW))
    throw mc::Skip();
  int comp = ndim == 1 || mc::thorough ? c.choose(2, "compression") : 1;
  Domain D;
  int bx[4];
  int nb = ndim == 1 ? 2 : 4;
  for (int i = 0; i < nb; i++) {
    if (i == 3 && !mc::thorough)
      bx[i] = bx[2];
    else
      bx[i] = c.choose(6, "side");
    if (!admits(bx[i], kind, i / 2))
      throw mc::Skip();
  }
  int depth = ndim == 1 ? 2 : 1;
  if (ndim == 1)
    D = line(std::max(N, 2) + (mc::thorough ? c.choose(2, "cells") : 0), 0.7, bx[0], bx[1]);
  else {
    int n = N < 3 ? 2 : N + (N > 4);
    D = plane(n, n + (N == 2), 0.7, 0.4, bx[0], bx[1], bx[2], bx[3]);
  }
  VecV q = make(m, kind, comp);
  Vec u(D.ncell() * V);
  for (int i = 0; i < D.ncell(); i++)
    u.segment<V>(i * V) = q;
  std::string w = mc::cat(MULTI ? "multi" : name(MATS[k]), " ", kind_name[kind]);
  for (int i = 0; i < nb; i++)
    w += mc::cat(" ", bt_name(bx[i]));
  double sc = scale(u);
  Vec u0 = u;
  int fl = c.choose(3, "flux");
  for (int s = 0; s < depth; s++) {
    int st = c.choose(4, "stepper");
    if (s && mc::thorough)
      fl = c.choose(3, "flux");
    if (s == 0)
      c.shard();
    double dt = (s == 0 ? 0.15 : 0.04) * D.dX.minCoeff() / ndim;
    w += mc::cat(" ", stepper_name(st), "/", flux_name(fl));
    c.note(w);
    step(u, D, st, fl, dt, m);
    c.step();
    c.state_of(u);
    for (long i = 0; i < u.size(); i++)
      c.close(u(i), u0(i), 0, 2e-12 * sc, "uniform", mc::cat(w, ": cell ", i / V, " component ", i % V));
  }
}
int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"line", [](mc::Ctx &c) { body(c, 1); }, 60}, {"plane", [](mc::Ctx &c) { body(c, 2); }, 60}});
}
