// P09: conservation over every history of steps of periodic domains
#include "evolve.h"
using namespace gpr;

static void check(mc::Ctx &c, const Domain &D, const Par &m, const Vec &u0, const Vec &u, double T, const std::string &w) {
  // a body force is an impulse per volume
  std::vector<std::pair<int, double>> q = {{0, 0}, {1, 0}, {2, m.δp(0)}, {3, m.δp(1)}, {4, m.δp(2)}};
  if (MULTI && m.REACTION < 0)
    q.push_back({mV, 0});
  double sc = scale(u) * D.ncell();
  for (auto &x : q) {
    double a = 0, b = 0;
    for (int i = 0; i < D.ncell(); i++) {
      a += u0(i * V + x.first);
      b += u(i * V + x.first);
    }
    static const char *n[] = {"mass", "energy", "momentum-x", "momentum-y", "momentum-z"};
    c.close(b, a + x.second * T * D.ncell(), 0, 3e-13 * sc, x.first < 5 ? n[x.first] : "reactant", mc::cat("total of component ", x.first, w));
  }
}

static void history(mc::Ctx &c, Domain D, Par m, Vec u, int depth, bool stiff) {
  Vec u0 = u;
  double T = 0;
  int any_big = 0;
  std::string w;
  for (int s = 0; s < depth; s++) {
    int st = c.choose(stiff ? 4 : 3, "stepper"), fl = c.choose(3, "flux"), big = c.choose(2, "dt");
    any_big |= big;
    double dt = (big ? 0.16 : 0.03) * D.dX.minCoeff() / D.ndim();
    w += mc::cat(" ", stepper_name(st), "/", flux_name(fl), " dt=", dt);
    c.note(mc::cat("cells ", D.nX.transpose(), " after", w));
    if (s == 0)
      c.shard();
    step(u, D, st, fl, dt, m);
    T += dt;
    c.step();
    c.state_of(u);
    if (any_big && !all_finite(u))
      throw mc::Skip(); // a step near the limit of stability: not what is claimed here
    c.expect(all_finite(u), "finite", "the solution is not finite after" + w);
    check(c, D, m, u0, u, T, " after" + w);
  }
  if (!same_bits(u, u0))
    c.outcome(mc::fnv(u.data(), 8 * u.size()));
}

static const int MATS[] = {AIR, SOLID_SMG, PLASTIC_GR, EXPL_CC, BINGHAM_SG};
static Par pick(mc::Ctx &c) {
  int k = c.choose(MULTI ? 2 : mc::thorough ? 5 : 3, "material");
  Par m = MULTI ? material(k ? EXPL_JWL : AIR) : material(MATS[k]);
  if (MULTI) {
    m.REACTION = k ? 0 : -1;
    m.Kc = 0.4; m.Ti = 0.1; m.Qc = 0.5;
  }
  return m;
}
static void one(mc::Ctx &c) {
  Par m = pick(c);
  if (c.choose(2, "body force"))
    m.δp << 0.3, -0.2, 0.1;
  int n = std::max(N, 2) + (MULTI ? 0 : c.choose(2, "cells"));
  Domain D = line(n, 0.8, B_PERIODIC, B_PERIODIC);
  Vec u(n * V);
  int different = 0, first = 0;
  for (int i = 0; i < n; i++) {
    int k = c.choose(i < 3 ? 3 : 2, "state");
    u.segment<V>(i * V) = grid_state(m, k);
    if (i == 0)
      first = k;
    different |= k != first;
  }
  if (!different && !m.δp.any())
    throw mc::Skip();
  history(c, D, m, u, MULTI ? 1 : 1 + c.choose(mc::thorough ? 3 : 2, "steps"), MULTI ? false : n == std::max(N, 2));
}
static void two(mc::Ctx &c) {
  Par m = pick(c);
  int sh = c.choose(3, "shape");
  static const int SH[][2] = {{2, 3}, {3, 2}, {3, 3}};
  int nx = SH[sh][0], ny = SH[sh][1];
  if (N > 2)
    nx = ny = N;
  Domain D = plane(nx, ny, 0.8, 0.55, B_PERIODIC, B_PERIODIC, B_PERIODIC, B_PERIODIC);
  Vec u(nx * ny * V);
  int a = c.choose(3, "state"), p = c.choose(6, "pattern");
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      int k = p == 0 ? (i == 0 && j == 0 ? a + 1 : 0) : p == 1 ? (i + j) % 2 * (a + 1) : p == 2 ? (i == 1 ? a + 1 : 0) : p == 3 ? (j == ny - 1 ? a + 1 : 0) : p == 4 ? (i * ny + j) % 4 : (i == nx - 1 && j > 0 ? a + 1 : j);
      u.segment<V>((i * ny + j) * V) = grid_state(m, k, p >= 4 ? 0.4 : 1);
    }
  if (c.choose(2, "body force"))
    m.δp << 0.3, -0.2, 0.1;
  history(c, D, m, u, mc::thorough ? 1 + c.choose(2, "steps") : 1, false);
}
// the corner ghost cells are not used: exact as long as the edges are flat
static void flat(mc::Ctx &c) {
  Par m = pick(c);
  int n = 2 * N + 1 + c.choose(2, "cells");
  Domain D = plane(n, n, 0.8, 0.55, B_PERIODIC, B_PERIODIC, B_PERIODIC, B_PERIODIC);
  Vec u(n * n * V);
  int a = c.choose(3, "state"), axis = c.choose(3, "axis");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      bool in = i >= N && i < n - N && j >= N && j < n - N;
      if (axis < 2)
        in = (axis ? j : i) >= N && (axis ? j : i) < n - N;
      u.segment<V>((i * n + j) * V) = grid_state(m, in ? a + 1 : 0);
    }
  history(c, D, m, u, 1, false);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s = {{"one", one, 60}};
  if (!NO_CORNERS)
    s = {{"two", two, 120}};
  else
    s.push_back({"flat", flat, 120});
  return mc::main_(argc, argv, s);
}
