// P14: masked updates, for every mask
#include "evolve.h"
#include "src/solvers/fv/fv.h"
#include "src/solvers/split/ode.h"
#include "src/solvers/weno/weno.h"
using namespace gpr;

static const int MATS[] = {AIR, PLASTIC_GR, EXPL_CC, SOLID_SMG};
static Par pick(mc::Ctx &c, int n) {
  if (MULTI) {
    Par m = material(EXPL_JWL);
    m.REACTION = 0;
    m.Kc = 0.4; m.Ti = 0.1; m.Qc = 0.5;
    return m;
  }
  return mild(MATS[c.choose(mc::thorough ? 4 : n, "material")]);
}
static int at(int x, int n) { return x < 0 || x >= n ? -1 : x; }
// -1: neither selected nor next to a selected cell, 0: next to one, 1: selected
static std::vector<int> role(const iVec &nX, const bVec &m) {
  int nx = nX(0), ny = nX.size() > 1 ? nX(1) : 1;
  std::vector<int> r(nx * ny, -1);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      static const int d[][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
      if (m(i * ny + j))
        r[i * ny + j] = 1;
      else
        for (auto &e : d) {
          int a = at(i + e[0], nx), b = at(j + e[1], ny);
          if (a >= 0 && b >= 0 && m(a * ny + b))
            r[i * ny + j] = 0;
        }
    }
  return r;
}
static bVec bits(unsigned k, int n) {
  bVec m(n);
  for (int i = 0; i < n; i++)
    m(i) = k >> i & 1;
  return m;
}
static Vec grid(const Domain &D, const Par &m, int seed) {
  Vec u(D.ncell() * V);
  for (int i = 0; i < D.ncell(); i++) {
    VecV a = grid_state(m, 0), b = grid_state(m, 1 + (i + seed) % 3, 0.5);
    double f = 0.25 + 0.13 * ((i * 7 + seed) % 5);
    u.segment<V>(i * V) = a + f * (b - a);
  }
  return u;
}
static bool needed(const bVec &mb, const iVec &nX, int i) {
  (void)nX;
  return mb(i);
}
// the flux update alone; cells of the reconstruction that no selected cell needs hold NaN
static void fv(mc::Ctx &c, int ndim) {
  Par m = pick(c, 2);
  Domain D;
  if (ndim == 1)
    D = line(std::max(N, 3) + (mc::thorough ? c.choose(3, "cells") : 1), 0.7, B_PERIODIC, B_PERIODIC);
  else {
    static const int S[][2] = {{2, 3}, {3, 2}, {2, 2}, {3, 3}, {2, 4}};
    int s = c.choose(mc::thorough ? 5 : 4, "shape");
    int e = N < 3 ? 0 : N - 2;
    D = plane(S[s][0] + e, S[s][1] + (e ? N - S[s][1] : 0), 0.7, 0.4, B_TRANSMISSIVE, B_TRANSMISSIVE, B_TRANSMISSIVE, B_TRANSMISSIVE);
    if (e)
      D = plane(N, N, 0.7, 0.4, B_TRANSMISSIVE, B_TRANSMISSIVE, B_TRANSMISSIVE, B_TRANSMISSIVE);
  }
  bool SRC = c.choose(2, "sources"), TIME = c.choose(2, "time");
  int flux = c.choose(3, "flux");
  int n = D.ncell();
  if (n > 6 && !mc::thorough && (!SRC || !TIME || (THERMAL && flux)))
    throw mc::Skip();
  unsigned k;
  if (n <= 9)
    k = c.choose(1 << n, "mask");
  else // one or two cells, or all but them
    k = (1u << c.choose(n, "cell") | 1u << c.choose(n, "cell 2")) ^ (c.choose(2, "complement") ? (1u << n) - 1 : 0);
  c.shard();
  bVec sel = bits(k, n), mb(extended_dimensions(D.nX, 1)), all(mb.size());
  extend_mask(sel, mb, D.nX);
  all.setConstant(true);
  Vec u = grid(D, m, ndim), ub(extended_dimensions(D.nX, N) * V);
  boundaries(u, ub, D.nX, D.bt);
  int P = ndim == 1 ? N : N * N, ne = mb.size();
  Vec wh(ne * P * V), rec;
  weno_launcher(wh, ub, D.nX, m);
  if (TIME) {
    rec.resize(wh.size() * N);
    for (int e = 0; e < ne; e++)
      for (int t = 0; t < N; t++)
        for (int p = 0; p < P; p++)
          rec.segment<V>(((e * N + t) * P + p) * V) = wh.segment<V>((e * P + p) * V) + 0.02 * t * (wh.segment<V>((e * P + (p + 1) % P) * V) - u.segment<V>(0));
  } else
    rec = wh;
  double dt = 0.05;
  Vec full = u, part = u, poisoned = rec;
  int R = rec.size() / ne;
  for (int e = 0; e < ne; e++)
    if (!needed(mb, D.nX, e))
      memset((void *)(poisoned.data() + e * R), 0xFF, R * 8);
  // the corner cells of the extended grid are no cells at all
  Vec rec0 = poisoned;
  bVec mb0 = mb;
  fv_launcher(full, rec, D.nX, dt, D.dX, SRC, TIME, flux, m, all);
  Guarded<Vec> g(part);
  fv_launcher(g.seg(), poisoned, D.nX, dt, D.dX, SRC, TIME, flux, m, mb);
  c.step(2);
  part = g.get();
  c.state_of(part);
  std::string w = mc::cat("cells ", D.nX.transpose(), " mask ", sel.transpose(), " ", flux_name(flux), SRC ? " sources" : "", TIME ? " space-time" : "");
  c.note(w);
  c.expect(g.intact(), "outside", w + ": wrote outside of the grid");
  c.expect(same_bits(poisoned, rec0) && same_bits(mb, mb0), "inputs", w + ": the reconstruction or the mask was changed");
  auto r = role(D.nX, sel);
  double sc = scale(full);
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) {
      if (r[i] == 1)
        c.close(part(i * V + v), full(i * V + v), 0, 1e-13 * sc, "selected", mc::cat(w, ": cell ", i, " component ", v));
      else if (r[i] == -1)
        c.expect(same_bits(Vec(part.segment(i * V + v, 1)), Vec(u.segment(i * V + v, 1))), "untouched", mc::cat(w, ": cell ", i, " component ", v, " changed"));
    }
}
// complete steps
static void steps(mc::Ctx &c, int ndim) {
  Par m = pick(c, 3);
  Domain D;
  static const int B[][2] = {{B_PERIODIC, B_PERIODIC}, {B_SLIP, B_TRANSMISSIVE}, {B_STICK, B_SYMMETRIC}};
  int b = c.choose(ndim == 1 || mc::thorough ? 3 : 2, "boundaries");
  if (ndim == 1)
    D = line(std::max(N, 3) + c.choose(mc::thorough ? 4 : 2, "cells"), 0.7, B[b][0], B[b][1]);
  else {
    static const int S[][2] = {{2, 3}, {3, 2}, {3, 3}};
    int s = c.choose(mc::thorough ? 3 : 2, "shape");
    D = N < 3 ? plane(S[s][0], S[s][1], 0.7, 0.4, B[b][0], B[b][1], B[b][1], B[b][0]) : plane(N, N, 0.7, 0.4, B[b][0], B[b][1], B[b][1], B[b][0]);
  }
  int st = c.choose(ndim == 1 ? 4 : 3, "stepper"), flux = c.choose(3, "flux");
  int n = D.ncell();
  unsigned k;
  if (n <= 9)
    k = c.choose(1 << n, "mask");
  else
    k = (1u << c.choose(n, "cell") | 1u << c.choose(n, "cell 2")) ^ (c.choose(2, "complement") ? (1u << n) - 1 : 0);
  c.shard();
  bVec sel = bits(k, n);
  Vec u = grid(D, m, ndim), full = u, part = u;
  double dt = 0.04 * D.dX.minCoeff();
  step(full, D, st, flux, dt, m);
  step(part, D, st, flux, dt, m, &sel);
  c.step(2);
  c.state_of(part);
  Vec idle = u;
  if (st == SPLIT_FULL || st == SPLIT_HALF) { // sources are applied to every cell
    ode_launcher(idle, dt / 2, m);
    ode_launcher(idle, dt / 2, m);
  }
  std::string w = mc::cat(stepper_name(st), "/", flux_name(flux), " cells ", D.nX.transpose(), " mask ", sel.transpose());
  c.note(w);
  auto r = role(D.nX, sel);
  double sc = scale(full);
  c.expect(all_finite(full), "finite", w + ": the full update is not finite");
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) {
      if (r[i] == 1)
        c.close(part(i * V + v), full(i * V + v), 0, 1e-12 * sc, "selected", mc::cat(w, ": cell ", i, " component ", v));
      else if (r[i] == -1)
        c.expect(same_bits(Vec(part.segment(i * V + v, 1)), Vec(idle.segment(i * V + v, 1))), "untouched", mc::cat(w, ": cell ", i, " component ", v, " changed"));
    }
}
int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"fv-1d", [](mc::Ctx &c) { fv(c, 1); }, 60}, {"fv-2d", [](mc::Ctx &c) { fv(c, 2); }, 60},
                                {"step-1d", [](mc::Ctx &c) { steps(c, 1); }, 60}, {"step-2d", [](mc::Ctx &c) { steps(c, 2); }, 60}});
}
