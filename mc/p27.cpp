// P27: every call is a function of its arguments alone
#include "evolve.h"
#include "src/multi/fill.h"
#include "src/multi/functions.h"
#include "src/multi/pfmm.h"
#include "src/scipy/lgmres.h"
#include "src/scipy/newton_krylov.h"
#include "src/solvers/dg/dg.h"
#include "src/solvers/fv/fv.h"
#include "src/solvers/iterator.h"
#include "src/solvers/split/homogeneous.h"
#include "src/solvers/split/numeric.h"
#include "src/solvers/split/ode.h"
#include "src/solvers/split/rk.h"
#include "src/solvers/utils.h"
#include "src/solvers/weno/weno.h"
#include "src/system/eig.h"
#include "src/system/energy/derivatives.h"
#include "src/system/equations.h"
#include "src/system/jacobians.h"
#include "src/system/multi/eigenvecs.h"
#include "src/system/multi/riemann.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/relaxation/numerical.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace gpr;

// what a call did: its results, and whether it touched anything else
struct Rec {
  std::vector<double> out;
  std::string bad;
  template <class D> void put(const Eigen::DenseBase<D> &x) {
    typename D::PlainObject m = x;
    for (long i = 0; i < m.size(); i++)
      out.push_back((double)m.data()[i]);
  }
  void put(double x) { out.push_back(x); }
  void put(bool x) { out.push_back(x); }
  template <class M> void kept(const M &a, const M &b, const char *what) {
    if (!same_bits(a, b))
      bad = mc::cat(what, " was changed");
  }
  template <class G> void guard(const G &g, const char *what) {
    if (!g.intact())
      bad = mc::cat("wrote outside of ", what);
  }
};
struct Op {
  const char *name;
  int variants;
  std::function<void(int, Rec &)> run;
};
static Par mat(int k) {
  static const int M[] = {AIR, PLASTIC_GR, BINGHAM_SG, EXPL_JWL};
  Par m = mild(M[k]);
  m.δp << 0.1, -0.2, 0.05;
  if (MULTI && k == 3) {
    m = mixture(EXPL_JWL, AIR);
    m.REACTION = 0;
    m.Kc = 0.6;
    m.Ti = 0.1;
    m.Qc = 0.5;
  }
  return m;
}
static bool same_par(const Par &a, const Par &b) { return !memcmp(&a, &b, sizeof(Par)); }
static VecV st(const Par &m, int k) { return grid_state(m, k, 0.5); }
// grids of one and two dimensions
static Domain dom(int v) { return v % 2 ? plane(3, 4, 0.3, 0.2, B_PERIODIC, B_PERIODIC, B_STICK, B_TRANSMISSIVE) : line(6, 0.2, B_SLIP, B_MOVING); }
static Vec grid(const Domain &D, const Par &m, int seed) {
  Vec u(D.ncell() * V);
  for (int i = 0; i < D.ncell(); i++) {
    VecV a = st(m, 0), b = st(m, 1 + (i + seed) % 3);
    u.segment<V>(i * V) = a + (0.15 + 0.05 * ((i * 7 + seed) % 5)) * (b - a);
    for (int l = 0; l < LSET; l++)
      u(i * V + V - LSET + l) = -1 - l;
  }
  return u;
}
static bVec mask(int n, int v) {
  bVec m = ones(n);
  if (v > 1)
    m(n / 2) = false;
  return m;
}
static long cells_with(const Domain &D, int ext) {
  iVec x = D.nX;
  return extended_dimensions(x, ext);
}
static Vec ghosts(const Domain &D, const Vec &u) {
  Vec ub = Vec::Zero(cells_with(D, N) * V), uu = u;
  iVec nX = D.nX, bt = D.bt;
  boundaries(uu, ub, nX, bt);
  return ub;
}
static Vec constant(long n) { return Vec::Constant(n, 0.125); }
static long pw(int a, int b) { return b ? a * pw(a, b - 1) : 1; }
static std::vector<double> FTAB;

static std::vector<Op> table() {
  std::vector<Op> t;
  auto scalar = [&](const char *name, auto f) {
    t.push_back({name, 4, [f](int v, Rec &r) {
                   Par m = mat(v), m0 = m;
                   Guarded<Vec> q(Vec(st(m, 1 + v % 3)));
                   Vec q0 = q.get();
                   VecVr Q = q.all.segment<V>(q.g);
                   f(Q, m, r);
                   r.guard(q, "the state");
                   r.kept(q.get(), q0, "the state");
                   if (!same_par(m, m0))
                     r.bad = "the material was changed";
                 }});
  };
  scalar("pressure", [](VecVr Q, Par &m, Rec &r) { r.put(pressure(Q, m)); r.put(temperature(Q, m)); });
  scalar("stress", [](VecVr Q, Par &m, Rec &r) { r.put(sigma(Q, m)); r.put(Sigma(Q, m, 1)); r.put(dsigmadρ(Q, m, 0)); r.put(dsigmadA(Q, m, 2)); });
  scalar("derivatives", [](VecVr Q, Par &m, Rec &r) { r.put(dEdρ(Q, m)); r.put(dEdp(Q, m)); r.put(dEdA_s(Q, m)); });
  scalar("jacobians", [](VecVr Q, Par &m, Rec &r) { r.put(dPdQ(Q, m)); r.put(dFdP(Q, 1, m)); r.put(system_matrix(Q, 0, m)); });
  scalar("speeds", [](VecVr Q, Par &m, Rec &r) { for (int d = 0; d < 3; d++) r.put(max_abs_eigs(Q, d, m)); r.put(thermo_acoustic_tensor(Q, 1, m)); });
  scalar("eigen", [](VecVr Q, Par &m, Rec &r) { r.put(eigen(Q, 0, m)); r.put(riemann_constraints(Q, 1, m)); });
  scalar("rates", [](VecVr Q, Par &m, Rec &r) { r.put(theta1inv(Q, m)); if (MULTI && m.REACTION >= 0) r.put(reaction_rate(Q, m)); });
  scalar("equations", [](VecVr Q, Par &m, Rec &r) {
    VecV f = VecV::Zero(), s = VecV::Zero(), b = VecV::Zero(), x = VecV::Constant(0.3);
    flux(f, Q, 1, m); // adds to its result
    source(s, Q, m);
    Bdot(b, Q, x, 0, m);
    r.put(f); r.put(s); r.put(b);
  });
  for (int f = 0; f < 3; f++)
    t.push_back({flux_name(f), 4, [f](int v, Rec &r) {
                   Par m = mat(v);
                   VecV a = st(m, 1), b = st(m, 2), a0 = a, b0 = b;
                   r.put(f == 0 ? D_RUS(a, b, v % 2, m) : f == 1 ? D_ROE(a, b, v % 2, m) : D_OSH(a, b, v % 2, m));
                   r.put(Bint(a, b, 0, m));
                   r.kept(a, a0, "left"); r.kept(b, b0, "right");
                 }});
  t.push_back({"relaxation", 4, [](int v, Rec &r) {
                 Par m = mat(v);
                 Guarded<Vec> q(Vec(st(m, 2)));
                 ode_stepper_analytic(q.all.segment<V>(q.g), 0.05, m);
                 r.guard(q, "the state");
                 r.put(q.get());
               }});
  t.push_back({"numerical", 4, [](int v, Rec &r) {
                 Par m = mat(v);
                 Guarded<Vec> q(Vec(st(m, 2)));
                 ode_stepper_numerical(q.all.segment<V>(q.g), 0.05, m);
                 r.guard(q, "the state");
                 r.put(q.get());
               }});
  t.push_back({"scalar-ode", 2, [](int v, Rec &r) {
                 auto f = [=](double x) { return v ? -x * x : sin(x) - 3 * x; };
                 r.put(stiff_ode_solve(0.7, 0.4, f));
                 r.put(runge_kutta_launcher(f, 0.4, 0.7, 4));
               }});
  t.push_back({"star", 4, [](int v, Rec &r) {
                 Par a = mat(v % 3), b = v == 3 ? vacuum() : mat((v + 1) % 3);
                 VecV L = st(a, 1), R = v == 3 ? VecV(VecV::Zero()) : st(b, 2);
                 Vec n = v % 2 ? dvec({0.6, -0.8}) : dvec({-1});
                 Vec n0 = n;
                 r.put(left_star_state(L, R, a, b, 0.01, n));
                 r.kept(n, n0, "the normal");
               }});
  t.push_back({"boundaries", 4, [](int v, Rec &r) {
                 Domain D = dom(v);
                 if (v > 1)
                   D.bt.reverseInPlace();
                 Vec u = grid(D, mat(0), v), u0 = u;
                 iVec nX = D.nX, bt = D.bt;
                 Guarded<Vec> ub(constant(cells_with(D, N) * V)), g(u);
                 boundaries(g.seg(), ub.seg(), nX, bt);
                 r.guard(ub, "the extended grid"); r.guard(g, "the grid");
                 r.kept(g.get(), u0, "the grid"); r.kept(nX, D.nX, "nX"); r.kept(bt, D.bt, "types");
                 r.put(ub.get());
               }});
  t.push_back({"mask", 2, [](int v, Rec &r) {
                 Domain D = dom(v);
                 bVec m = mask(D.ncell(), 2), m0 = m, mb(cells_with(D, 1));
                 mb.setZero();
                 iVec nX = D.nX;
                 extend_mask(m, mb, nX);
                 r.kept(m, m0, "the mask");
                 r.put(mb);
               }});
  t.push_back({"weno", 2, [](int v, Rec &r) {
                 Domain D = dom(v);
                 Par m = mat(v);
                 Vec ub = ghosts(D, grid(D, m, 1)), ub0 = ub;
                 iVec nX = D.nX;
                 Guarded<Vec> wh(constant(cells_with(D, 1) * V * pw(N, D.ndim())));
                 weno_launcher(wh.seg(), ub, nX, m);
                 r.guard(wh, "the reconstruction");
                 r.kept(ub, ub0, "the averages");
                 r.put(wh.get());
               }});
  auto wh_of = [](const Domain &D, Par &m, int s) {
    Vec ub = ghosts(D, grid(D, m, s)), wh = Vec::Zero(cells_with(D, 1) * V * pw(N, D.ndim()));
    iVec nX = D.nX;
    weno_launcher(wh, ub, nX, m);
    // corners that are not reconstructed
    int per = V * pw(N, D.ndim());
    for (long i = 0; i < wh.size() / per; i++)
      if (wh(i * per) == 0)
        for (int k = 0; k < per; k++)
          wh(i * per + k) = ub(k % V);
    return wh;
  };
  auto mb_of = [](const Domain &D, int v) {
    bVec m = mask(D.ncell(), v), mb(cells_with(D, 1));
    iVec nX = D.nX;
    extend_mask(m, mb, nX);
    return mb;
  };
  t.push_back({"predictor", 4, [=](int v, Rec &r) {
                 Domain D = dom(v);
                 Par m = mat(v / 2);
                 Vec wh = wh_of(D, m, 2), w0 = wh, dX = D.dX;
                 bVec mb = mb_of(D, v), mb0 = mb;
                 Guarded<Vec> qh(constant(wh.size() * N));
                 predictor(qh.seg(), wh, 0.004, dX, v == 2, v == 2, m, mb);
                 r.guard(qh, "the prediction");
                 r.kept(wh, w0, "the reconstruction"); r.kept(mb, mb0, "the mask");
                 r.put(qh.get());
               }});
  t.push_back({"midstep", 2, [=](int v, Rec &r) {
                 Domain D = dom(v);
                 Par m = mat(v);
                 Guarded<Vec> wh(wh_of(D, m, 2));
                 bVec mb = mb_of(D, 2), mb0 = mb;
                 Vec dX = D.dX;
                 midstepper(wh.seg(), 0.01, dX, m, mb);
                 r.guard(wh, "the reconstruction");
                 r.kept(mb, mb0, "the mask");
                 r.put(wh.get());
               }});
  t.push_back({"volumes", 6, [=](int v, Rec &r) {
                 Domain D = dom(v);
                 Par m = mat(v / 2);
                 Vec wh = wh_of(D, m, 1), w0 = wh, dX = D.dX;
                 bVec mb = mb_of(D, v);
                 iVec nX = D.nX;
                 Guarded<Vec> u(grid(D, m, 1));
                 fv_launcher(u.seg(), wh, nX, 0.01, dX, v % 3 == 0, false, v % 3, m, mb);
                 r.guard(u, "the grid");
                 r.kept(wh, w0, "the reconstruction");
                 r.put(u.get());
               }});
  t.push_back({"sources", 2, [=](int v, Rec &r) {
                 Domain D = dom(v);
                 Par m = mat(v);
                 Guarded<Vec> u(grid(D, m, 1));
                 ode_launcher(u.seg(), 0.03, m);
                 r.guard(u, "the grid");
                 r.put(u.get());
               }});
  for (int s = 0; s < 4; s++)
    for (int p = 0; p < 2; p++)
      t.push_back({(new std::string(mc::cat(stepper_name(s), p ? "-para" : "")))->c_str(), 3, [=](int v, Rec &r) {
                     Domain D = dom(v);
                     Par m = mat(s == ADER_STIFF ? 0 : v);
                     Vec ub = ghosts(D, grid(D, m, 1)), dX = D.dX;
                     bVec mb = mb_of(D, v), mb0 = mb;
                     iVec nX = D.nX;
                     Guarded<Vec> u(grid(D, m, 1)), b(ub);
                     bool ader = s == ADER || s == ADER_STIFF, flag = s == ADER_STIFF || s == SPLIT_HALF;
                     auto f = ader ? (p ? ader_stepper_para : ader_stepper) : (p ? split_stepper_para : split_stepper);
                     f(u.seg(), b.seg(), nX, 0.006, dX, flag, v % 3, m, mb);
                     r.guard(u, "the grid"); r.guard(b, "the extended grid");
                     r.kept(mb, mb0, "the mask"); r.kept(nX, D.nX, "nX");
                     r.put(u.get());
                   }});
  auto multi = [](Domain &D, std::vector<Par> &MPs, int v) {
    MPs = {mat(0), v == 2 ? vacuum() : mat(1)};
    Vec u = grid(D, MPs[0], 1);
    int ny = D.ndim() > 1 ? D.nX(1) : 1;
    for (int i = 0; i < D.ncell(); i++) {
      double x = (i / ny + 0.5) * D.dX(0) - 0.53 * D.nX(0) * D.dX(0);
      if (x >= 0)
        u.segment<V>(i * V) = v == 2 ? VecV(VecV::Zero()) : st(MPs[1], 1);
      for (int l = 0; l < LSET; l++)
        u(i * V + V - LSET + l) = l ? -2 - l : x;
    }
    return u;
  };
  if (LSET > 0) {
    t.push_back({"fill", 3, [=](int v, Rec &r) {
                   Domain D = dom(v);
                   std::vector<Par> MPs;
                   Guarded<Vec> u(multi(D, MPs, v));
                   std::vector<Vec> g(2, u.get());
                   std::vector<bVec> mk(2, ones(D.ncell()));
                   iVec nX = D.nX;
                   aVec dX = D.dX;
                   fill_ghost_cells(g, mk, u.seg(), nX, dX, 0.01, MPs);
                   r.guard(u, "the state");
                   r.put(u.get());
                   for (int m = 0; m < 2; m++)
                     r.put(g[m]), r.put(mk[m]);
                 }});
    t.push_back({"indicator", 2, [=](int v, Rec &r) {
                   Domain D = dom(v);
                   std::vector<Par> MPs;
                   Vec u = multi(D, MPs, v), u0 = u;
                   Mat U = Eigen::Map<Mat>(u.data(), D.ncell(), V), U0 = U;
                   iVec nX = D.nX;
                   aVec dX = D.dX;
                   Guarded<Vec> φ(constant(D.ncell()));
                   material_indicator(φ.seg(), U, v, 2, dX, nX);
                   r.guard(φ, "the indicator");
                   r.kept(U, U0, "the state");
                   r.put(φ.get());
                 }});
    t.push_back({"combine", 2, [=](int v, Rec &r) {
                   Domain D = dom(v);
                   std::vector<Par> MPs;
                   Guarded<Vec> u(multi(D, MPs, v));
                   std::vector<Vec> g = {Vec(1.1 * u.get()), Vec(0.9 * u.get())};
                   std::vector<bVec> mk = {mask(D.ncell(), 2), ones(D.ncell())};
                   auto g0 = g;
                   make_u(u.seg(), g, mk, MPs);
                   r.guard(u, "the state");
                   r.kept(g[0], g0[0], "a grid"); r.kept(g[1], g0[1], "a grid");
                   r.put(u.get());
                 }});
  }
  t.push_back({"loop", 4, [=](int v, Rec &r) {
                 Domain D = dom(v);
                 std::vector<Par> MPs;
                 if (v > 1)
                   D = line(6, 0.2, B_TRANSMISSIVE, B_TRANSMISSIVE);
                 Vec u0 = LSET > 0 && v > 1 ? multi(D, MPs, v - 1) : grid(D, mat(0), 1);
                 if (MPs.empty())
                   MPs = {mat(0)};
                 Guarded<Vec> u(u0);
                 iVec nX = D.nX, bt = D.bt;
                 aVec dX = D.dX;
                 auto o = iterator(u.seg(), 0.02, nX, dX, 0.5, bt, v % 2, false, false, 0, MPs, 0.2);
                 r.guard(u, "the state");
                 for (auto &x : o)
                   r.put(x);
               }});
  t.push_back({"distance", 3, [=](int v, Rec &r) {
                 Domain D = v == 2 ? plane(3, 3, 0.5, 0.2, 0, 0, 0, 0) : dom(v);
                 Vec φ(D.ncell());
                 for (int i = 0; i < D.ncell(); i++)
                   φ(i) = (i * 5 + v) % 7 - 2.5;
                 Guarded<Vec> g(φ);
                 iVec nX = D.nX;
                 aVec dX = D.dX;
                 r.put(distance(g.seg(), dX, nX));
                 r.guard(g, "the level set");
                 r.kept(g.get(), φ, "the level set");
               }});
  for (int o = 0; o < 3; o++)
    t.push_back({o == 0 ? "renorm" : o == 1 ? "rotate" : "reset", 2, [=](int v, Rec &r) {
                   Domain D = dom(v);
                   std::vector<Par> MPs = {mat(v)};
                   Guarded<Vec> u(grid(D, MPs[0], 1));
                   r.put(contorted(u.seg(), 0.01));
                   (o == 0 ? renorm_distortion : o == 1 ? rotate_distortion : reset_distortion)(u.seg(), MPs);
                   r.guard(u, "the state");
                   r.put(u.get());
                 }});
  t.push_back({"linear", 4, [=](int v, Rec &r) {
                 int n = v % 2 ? 7 : 3;
                 Mat A(n, n);
                 Vec b(n), x0 = Vec::Zero(n);
                 for (int i = 0; i < n; i++) {
                   b(i) = (i * 3 + v) % 5 - 1.5;
                   for (int j = 0; j < n; j++)
                     A(i, j) = (i == j ? 4 : 0) + ((i * 5 + j * 3 + v) % 7) * 0.3;
                 }
                 Mat M = Mat::Identity(n, n);
                 std::vector<Vec> outer;
                 Mat A0 = A;
                 Vec b0 = b;
                 r.put(lgmres_wrapper(A, b, x0, M, 1e-10, 100, v > 1 ? 2 : 30, 3, outer));
                 r.kept(A, A0, "the matrix"); r.kept(b, b0, "the right-hand side");
                 for (auto &x : outer)
                   r.put(x);
               }});
  t.push_back({"nonlinear", 2, [=](int v, Rec &r) {
                 Vec x = v ? dvec({0.3, 0.2, -0.4, 1}) : dvec({0.8});
                 r.put(nonlin_solve([](Vecr y) { Vec f = y; for (int i = 0; i < y.size(); i++) f(i) = std::sin(y(i)) + 0.2 * y(0) - 0.3; return f; }, x));
               }});
  return t;
}
static const std::vector<Op> &ops() {
  static std::vector<Op> t = table();
  return t;
}
// fresh memory of the heap and the unused stack have these contents
static const unsigned char FILL[] = {0x00, 0xFF, 0x40};
__attribute__((noinline)) static void paint(unsigned char b) {
  volatile unsigned char a[200 << 10];
  memset((void *)a, b, sizeof a);
  asm volatile("" ::"r"(a) : "memory");
}
static Rec call(int o, int v, unsigned char heap, unsigned char stack) {
  rt::fill_byte = heap;
  paint(stack);
  Rec r;
  ops()[o].run(v, r);
  rt::fill_byte = 0xFF;
  return r;
}
// the results of calls that are the first of their process
static const size_t CAP = 1 << 17;
struct Slot {
  long n; // -1: failed
  double x[CAP];
};
static Slot *base;
static std::vector<std::pair<int, int>> all_calls() {
  std::vector<std::pair<int, int>> r;
  for (size_t o = 0; o < ops().size(); o++)
    for (int v = 0; v < ops()[o].variants; v++)
      r.push_back({(int)o, v});
  return r;
}
static const std::vector<std::pair<int, int>> &calls() {
  static auto t = all_calls();
  return t;
}
static void baselines() {
  size_t n = calls().size();
  base = (Slot *)mmap(0, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (size_t k = 0; k < n; k++) {
    base[k].n = -1;
    pid_t p = fork();
    if (!p) {
      Rec r = call(calls()[k].first, calls()[k].second, 0, 0);
      if (r.out.size() <= CAP) {
        std::copy(r.out.begin(), r.out.end(), base[k].x);
        base[k].n = r.out.size();
      }
      _exit(0);
    }
    int s;
    waitpid(p, &s, 0);
  }
}
static void check(mc::Ctx &c, int k, const Rec &r, const std::string &w) {
  c.expect(r.bad.empty(), "arguments", w + ": " + r.bad);
  c.expect(base[k].n >= 0, "alone", w + ": fails as the first call of a process");
  c.expect(base[k].n == (long)r.out.size(), "size", w);
  for (size_t i = 0; i < r.out.size(); i++) {
    double a = r.out[i], b = base[k].x[i];
    bool same = a == b || (std::isnan(a) && std::isnan(b));
    c.expect(same, "result", w + mc::cat(": value ", i, " is ", a, ", alone it is ", b));
    c.expect(!std::isnan(a), "defined", w + mc::cat(": value ", i, " is not a number"));
  }
  c.state_of(Vec::Map(r.out.data(), r.out.size()));
}
static std::string text(int k) { return mc::cat(ops()[calls()[k].first].name, "/", calls()[k].second); }
// one call, in any memory, several times
static void memory(mc::Ctx &c) {
  int k = c.choose(calls().size(), "call"), heap = c.choose(3, "heap"), stack = c.choose(3, "stack");
  c.shard();
  std::string w = mc::cat(text(k), " heap ", heap, " stack ", stack);
  c.note(w);
  for (int i = 0; i < (mc::thorough ? 4 : 2); i++) {
    Rec r = call(calls()[k].first, calls()[k].second, FILL[heap], FILL[stack]);
    c.step();
    check(c, k, r, w + mc::cat(" repetition ", i));
  }
}
// every call after every other one
static void history(mc::Ctx &c) {
  int k = c.choose(calls().size(), "call");
  c.shard();
  int j = c.choose(calls().size(), "before");
  int m = mc::thorough ? c.choose(3, "memory") : (k + j) % 3;
  std::string w = text(j) + ", " + text(k);
  c.note(w);
  Rec a = call(calls()[j].first, calls()[j].second, FILL[(m + 1) % 3], FILL[(m + 2) % 3]);
  Rec r = call(calls()[k].first, calls()[k].second, FILL[m], FILL[(m + 1) % 3]);
  c.step(2);
  check(c, k, r, w);
}
int main(int argc, char **argv) {
  baselines();
  std::vector<mc::Scenario> s;
  s.push_back({"memory", memory, 60});
  s.push_back({"history", history, 60});
  return mc::main_(argc, argv, s);
}
