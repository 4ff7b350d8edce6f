// P12: parallel steppers and ghost filling, for every team and schedule
#include "levelset.h"
#include "src/multi/fill.h"
using namespace gpr;

static Par pick(mc::Ctx &c, int n) {
  static const int MATS[] = {AIR, PLASTIC_GR, EXPL_CC};
  if (MULTI) {
    Par m = material(EXPL_JWL);
    m.REACTION = 0;
    m.Kc = 0.4; m.Ti = 0.1; m.Qc = 0.5;
    return m;
  }
  return mild(MATS[c.choose(n, "material")]);
}
static Vec grid(const Domain &D, const Par &m, int seed) {
  Vec u(D.ncell() * V);
  for (int i = 0; i < D.ncell(); i++) {
    VecV a = grid_state(m, 0), b = grid_state(m, 1 + (i + seed) % 3, 0.5);
    u.segment<V>(i * V) = a + (0.25 + 0.13 * ((i * 7 + seed) % 5)) * (b - a);
  }
  return u;
}
// an order of the members: every permutation of up to four of them
static std::vector<int> order(mc::Ctx &c, int team) {
  std::vector<int> left, r;
  for (int i = 0; i < team; i++)
    left.push_back(i);
  if (team > 4) {
    int k = c.choose(team + 1, "order"), s = k ? k - 1 : team - 1;
    for (int i = 0; i < team; i++)
      r.push_back(k ? (s + i) % team : s - i);
    return r;
  }
  while (!left.empty()) {
    int k = c.choose(left.size(), "next member");
    r.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return r;
}
static std::string show(const std::vector<int> &o) {
  std::string s;
  for (int x : o)
    s += mc::cat(s.empty() ? "" : ",", x);
  return s;
}
struct Team {
  std::vector<int> ord;
  int n;
  std::string text;
};
static Team team(mc::Ctx &c, int most) {
  Team t;
  t.n = 1 + c.choose(most, "threads");
  t.ord = order(c, t.n);
  t.text = mc::cat(t.n, " threads in the order ", show(t.ord));
  return t;
}
template <class F> static void with(const Team &t, bool record, F f) {
  rt::omp.reset();
  rt::omp.nthreads = t.n;
  rt::omp.order = t.ord;
  rt::omp.record = record;
  f();
  rt::omp.record = false;
  rt::omp.nthreads = 1;
  rt::omp.order.clear();
}
static void no_conflict(mc::Ctx &c, const std::string &w) {
  c.expect(rt::omp.conflict.empty(), "race", w + ": " + rt::omp.conflict);
}
static bool REC = false;

static void steppers(mc::Ctx &c, int ndim) {
  Domain D;
  int nx;
  if (ndim == 1) {
    nx = N + c.choose(mc::thorough ? 4 : REC ? 2 : 3, "cells");
    static const int B[][2] = {{B_PERIODIC, B_PERIODIC}, {B_SLIP, B_TRANSMISSIVE}};
    int b = c.choose(REC ? 1 : 2, "boundaries");
    D = line(nx, 0.7, B[b][0], B[b][1]);
  } else {
    nx = std::max(N, 2) + c.choose(REC && !mc::thorough ? 1 : 2, "cells");
    D = plane(nx, N, 0.7, 0.4, B_TRANSMISSIVE, B_SLIP, B_PERIODIC, B_PERIODIC);
  }
  Par m = pick(c, REC && !mc::thorough ? 2 : 3);
  int stepper = c.choose(4, "stepper"), flux = c.choose(3, "flux"), n = D.ncell();
  if (ndim == 2 && !mc::thorough && (stepper + flux) % 3)
    throw mc::Skip();
  unsigned k;
  if (n <= 3 && !REC)
    k = c.choose(1 << n, "mask");
  else { // all cells, all but one, one
    int q = c.choose(2 * n + 1, "mask");
    if (REC && q % 3 && !mc::thorough)
      throw mc::Skip();
    k = q == 0 ? (1u << n) - 1 : q <= n ? (1u << n) - 1 - (1u << (q - 1)) : 1u << (q - n - 1);
  }
  c.shard();
  bVec mask(n);
  for (int i = 0; i < n; i++)
    mask(i) = k >> i & 1;
  Team t = team(c, nx + 2 > 5 ? 5 : nx + 2);
  if (REC && t.n == 1)
    throw mc::Skip();
  double dt = 0.02;
  std::string w = mc::cat(stepper_name(stepper), " ", flux_name(flux), " cells ", D.nX.transpose(), " mask ", k, " ", t.text);
  c.note(w);
  // the serial step depends on nothing chosen after the mask
  static std::string last;
  static Vec want;
  std::string id = mc::cat(ndim, " ", D.nX.transpose(), " ", D.bt.transpose(), " ", (int)m.EOS, " ", stepper, " ", flux, " ", k);
  Vec u0 = grid(D, m, ndim);
  if (id != last) {
    want = u0;
    gpr::step(want, D, stepper, flux, dt, m, &mask, false);
    last = id;
  }
  Vec u = u0;
  with(t, REC, [&] { gpr::step(u, D, stepper, flux, dt, m, &mask, true); });
  c.step(rt::omp.regions);
  c.state_of(u);
  if (REC)
    no_conflict(c, w);
  c.close_all(u, want, 1e-12, 1e-14, "serial", w);
}
static void line_(mc::Ctx &c) { steppers(c, 1); }
static void plane_(mc::Ctx &c) { steppers(c, 2); }

// filling the ghost cells of two materials
static void fill(mc::Ctx &c) {
  static const int S[][2] = {{3, 3}, {3, 4}, {4, 3}};
  int s = c.choose(mc::thorough ? 3 : 1, "shape"), nx = S[s][0], ny = S[s][1], n = nx * ny;
  iVec nX = ivec({nx, ny});
  aVec dX = avec({0.5, 0.5});
  unsigned k = 0;
  for (int i = 0; i < n; i++) {
    k |= c.choose(2, "side") << i;
    if (i == 3)
      c.shard();
  }
  if (REC && !mc::thorough && __builtin_popcount(k) % 3 != 1)
    throw mc::Skip();
  std::vector<Par> MPs = {mild(AIR), mild(SOLID_SMG)};
  while ((int)MPs.size() < 2)
    MPs.push_back(MPs[0]);
  Vec u0(n * V);
  for (int i = 0; i < n; i++) {
    int id = k >> i & 1;
    VecV a = grid_state(MPs[id], 0), b = grid_state(MPs[id], 1 + i % 3, 0.5);
    VecV q = a + 0.1 * (1 + i % 3) * (b - a);
    for (int l = 0; l < LSET; l++)
      q(V - LSET + l) = -1 - l;
    if (LSET)
      q(V - LSET) = (id ? 1 : -1) * (0.2 + 0.05 * (i % 4));
    u0.segment<V>(i * V) = q;
  }
  auto run = [&](std::vector<Vec> &g, std::vector<bVec> &mk) {
    Vec u = u0;
    g.assign(2, Vec(n * V));
    mk.assign(2, bVec(n));
    iVec x = nX;
    fill_ghost_cells(g, mk, u, x, dX, 0.01, MPs);
    return u;
  };
  static unsigned last = ~0u;
  static int lasts = -1;
  static std::vector<Vec> g0;
  static std::vector<bVec> m0;
  Team t = team(c, mc::thorough ? 5 : REC ? 3 : 4);
  if (REC && t.n == 1)
    throw mc::Skip();
  if (last != k || lasts != s) {
    run(g0, m0);
    last = k;
    lasts = s;
  }
  std::string w = mc::cat("cells ", nX.transpose(), " second material ", k, " ", t.text);
  c.note(w);
  std::vector<Vec> g;
  std::vector<bVec> mk;
  with(t, REC, [&] { run(g, mk); });
  c.step(rt::omp.regions);
  for (int i = 0; i < 2; i++) {
    c.state_of(g[i]);
    c.expect(same_bits(mk[i], m0[i]), "fill-mask", w + ": cells selected for update differ");
    c.close_all(g[i], g0[i], 1e-12, 1e-14, "fill-serial", w);
  }
  if (REC)
    no_conflict(c, w);
}
int main(int argc, char **argv) {
  REC = rt::instrumented; // the instrumented configuration records every access
  std::vector<mc::Scenario> s;
  s.push_back({"line", line_, 60});
  s.push_back({"plane", plane_, 60});
  if (LSET > 0)
    s.push_back({"fill", fill, 60});
  return mc::main_(argc, argv, s);
}
