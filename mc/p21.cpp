// P21: reaction kinetics and the scalar integrators
#include "evolve.h"
#include "src/solvers/split/numeric.h"
#include "src/solvers/split/ode.h"
#include "src/solvers/split/rk.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/relaxation/numerical.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
using namespace gpr;
typedef long double R;

static const char *RN[] = {"inert", "discrete", "arrhenius", "ignition-growth"};
static const int NREACT = 8;
// variants of every kinetics
static std::string react(Par &m, int r) {
  m.Qc = 0.4;
  switch (r) {
  case 0:
    m.REACTION = -1;
    m.Qc = 0;
    return RN[0];
  case 1:
  case 2:
    m.REACTION = 0;
    m.Kc = r == 1 ? 3 : 0.7;
    m.Ti = r == 1 ? 0.6131 : 1.1177;
    return RN[1];
  case 3:
  case 4:
    m.REACTION = 1;
    m.Bc = r == 3 ? 4 : 25;
    m.Ea = r == 3 ? 0.5 : 2.5;
    m.Rc = r == 3 ? 1.3 : 0.8;
    return RN[2];
  default:
    m.REACTION = 2;
    m.I = 20; m.G1 = 3; m.G2 = 5; m.a = 0.014; m.b = 0.66; m.c = 0.6; m.d = 0.3; m.e = 0.3; m.g = 1;
    m.x = r == 5 ? 4 : r == 6 ? 3 : 1.7; m.y = 1.2; m.z = r == 5 ? 1 : 2.1; m.φI = 0.3; m.φG1 = 0.5; m.φG2 = 0.1;
    if (r == 6) {
      m.φI = 0.1; m.φG1 = 1; m.φG2 = 0; m.G2 = 0; m.d = 0.7; m.b = m.c = m.e = m.g = 2 / 3.;
    } else if (r == 7) {
      m.φI = 0.7; m.φG1 = 0.2; m.φG2 = 0.6; m.a = 0.1;
    }
    return RN[3];
  }
}
static const double FRAC[] = {1, 0.6, 0.05, 0.95, 0.45, 0.82, 0, 1e-9, 0.25};
static const int NFRAC = 9;
static VecV setup(mc::Ctx &c, Par &m, std::string &w, int nfrac) {
  // materials by themselves, and mixtures
  static const int MIX[][2] = {{EXPL_JWL, AIR}, {EXPL_CC, EXPL_JWL}, {WATER, AIR}};
  int k = c.choose(NMAT + 3, "material");
  m = k < NMAT ? material(k) : mixture(MIX[k - NMAT][0], MIX[k - NMAT][1]);
  int r = c.choose(NREACT, "reaction");
  w = std::string(k < NMAT ? name(k) : "mixture") + " " + react(m, r) + mc::cat(" ", r);
  int comp = c.choose(mc::thorough ? NCOMP : 4, "compression"), vel = c.choose(2, "velocity"), pres = c.choose(NPRES, "pressure");
  if (k >= NMAT && comp > 1)
    throw mc::Skip();
  Prim p = prim(m, comp, 2 * vel, vel, pres);
  if (k >= NMAT && m.EOS != STIFFENED_GAS)
    p.p = 1 + 0.3 * pres;
  p.λ = FRAC[c.choose(nfrac, "fraction")];
  VecV q = conserved(p, m);
  w += mc::cat(" compression ", comp, " pressure ", pres, " fraction ", p.λ);
  c.note(w);
  if (m.MULTI && !(std::abs(pressure(q, m) - (double)ref::pressure(ref::st(q), m)) < 1e-4))
    throw mc::Skip(); // too far from equilibrium for the solver of the mixture
  return q;
}
static void rates(mc::Ctx &c) {
  Par m;
  std::string w;
  VecV q = setup(c, m, w, NFRAC);
  c.shard();
  if (m.REACTION < 0)
    throw mc::Skip();
  int odd = c.choose(3, "beyond"); // fractions outside of 0..1, as a step may leave them
  if (odd) {
    if (q(mV) != 0 && q(mV) != q(0))
      throw mc::Skip();
    if (m.MULTI) // no mixture
      throw mc::Skip();
    q(mV) += q(0) * (odd == 1 ? 1e-3 : 0.04) * (q(mV) ? 1 : -1);
  }
  VecV q0 = q;
  double r = reaction_rate(q, m);
  c.step();
  c.state_of(q);
  R want = ref::rate(ref::st(q), m);
  if (!std::isfinite((double)want)) // no equilibrium of the components
    throw mc::Skip();
  c.outcome(mc::fnv(&r, sizeof r));
  c.expect(r >= 0, "negative", w + mc::cat(": rate ", r));
  if (q(mV) <= 0)
    c.expect(r == 0 || m.REACTION == 2, "no-reactant", w + mc::cat(": rate ", r, " without reactant"));
  c.close(r, (double)want, m.MULTI ? 1e-5 : 1e-8, 1e-12, "rate", w);
  c.expect(same_bits(q, q0), "inputs", w + ": the state was changed");
}
static void ode(mc::Ctx &c) {
  Par m;
  std::string w;
  VecV q = setup(c, m, w, mc::thorough ? NFRAC : 5);
  if (m.MULTI && (q(0) != m.ρ0 || q(2) != 0 || (m.Ti != 0) != (m.REACTION == 0) || m.REACTION == 2 || q(mV) < q(0) / 4 || w.find("pressure 0") == std::string::npos)) // equilibria of components are costly
    throw mc::Skip();
  c.shard();
  static const double Z[] = {0, 0.01, 0.2, 1, 3, 8, 12, 20, 60, 400, 3e3, 1e5};
  ref::St s = ref::st(q);
  R λ0 = s[mV] / s[0];
  auto K = [&](R l) {
    ref::St x = s;
    x[mV] = s[0] * l;
    return -ref::rate(x, m);
  };
  R k0 = m.REACTION < 0 ? 0 : -K(λ0);
  if (!std::isfinite((double)k0))
    throw mc::Skip();
  R kmax = k0; // fastest rate on the way
  if (m.REACTION == 2 || (m.REACTION == 1 && !m.MULTI))
    for (int i = 1; i < 40 && λ0 > 0; i++)
      kmax = std::max(kmax, -K(λ0 * i / 40));
  R T = kmax > 1e-9 && λ0 > 0 ? λ0 / kmax : 1; // time scale
  R y = λ0, t = 0;
  for (double z : Z) {
    if (m.MULTI && z != 0.01 && z != 3 && z != 60)
      continue;
    double dt = (double)(T * z);
    Guarded<Vec> g((Vec)q);
    ode_stepper_numerical(g.seg(), dt, m);
    c.step();
    VecV r = g.get();
    c.state_of(r);
    std::string wt = w + mc::cat(", step ", z, " time scales");
    c.expect(g.intact(), "outside", "wrote outside of the state");
    for (int i = 0; i < V; i++)
      if (i != mV || m.REACTION < 0 || λ0 <= 0)
        c.expect(r(i) == q(i), "others", wt + mc::cat(": variable ", i, " changed from ", q(i), " to ", r(i)));
    if (m.REACTION < 0 || λ0 <= 0)
      continue;
    double l = r(mV) / r(0);
    c.expect(l >= 0 && l <= (double)λ0 * (1 + 1e-14), "bounds", wt + mc::cat(": fraction ", l));
    if (m.MULTI || z > (m.REACTION == 2 ? 0.2 : m.REACTION == 1 ? 1 : 8) || kmax <= 1e-9 || (m.REACTION == 2 && q(mV) == q(0))) // (no unique solution from no products)
      continue;
    int n = 10 + (int)(15 * z);
    R h = (dt - t) / n;
    for (int i = 0; i < n && y > 0; i++) {
      R a = K(y), b = K(y + h / 2 * a), d = K(y + h / 2 * b), e = K(y + h * d);
      y += h / 6 * (a + 2 * b + 2 * d + e);
    }
    y = std::max<R>(y, 0);
    t = dt;
    R zz = z; // rates per fraction may grow as the reaction proceeds
    double tol = (double)(λ0 * std::min<R>(0.3, m.REACTION == 0 ? 5e-4 * zz * zz / (1 + zz) : m.REACTION == 1 ? 2e-3 * zz * zz + 1e-9 : 0.06 * zz + 1e-9));
    c.close(l, (double)y, 0, tol + (m.MULTI ? 1e-6 : 1e-11), "ode", wt);
  }
}
// a grid: every cell has the analytic relaxation and its own reaction
static void grid(mc::Ctx &c) {
  static const int KM[] = {AIR, WATER, PLASTIC_GR, EXPL_JWL};
  int k = c.choose(4, "material"), r = c.choose(NREACT, "reaction"), n = 1 + c.choose(3, "cells");
  Par m = material(KM[k]);
  react(m, r);
  double dt = c.choose(2, "step") ? 0.4 : 0.01;
  m.δp << 0.2, -0.1, 0.4;
  Vec u(n * V);
  for (int i = 0; i < n; i++) {
    Prim p = prim(m, i % 2, c.choose(2, "shape") * 3, i, i);
    p.λ = FRAC[c.choose(4, "fraction")];
    u.segment<V>(i * V) = conserved(p, m);
  }
  c.shard();
  Vec a = u;
  ode_launcher(a, dt, m);
  c.step();
  c.state_of(a);
  for (int i = 0; i < n; i++) {
    VecV q = u.segment<V>(i * V);
    ode_stepper_analytic(q, dt, m);
    for (int v = 0; v < V; v++)
      if (v != mV)
        c.close(a(i * V + v), q(v), 1e-13, 1e-14, "grid", mc::cat("cell ", i, " variable ", v));
    ode_stepper_numerical(q, dt, m);
    c.close(a(i * V + mV), q(mV), 1e-12, 1e-14, "grid", mc::cat("cell ", i, " fraction"));
  }
}
// ---- scalar integrators ------------------------------------------------------
struct Eq {
  const char *name;
  std::function<double(double)> f;
  std::function<R(R, R)> exact; // (x0,t)
};
static const std::vector<Eq> &equations() {
  static const std::vector<Eq> e = {
      {"decay", [](double x) { return -x; }, [](R x, R t) { return x * expl(-t); }},
      {"growth", [](double x) { return 0.7 * x + 0.2; }, [](R x, R t) { return (x + 2 / 7.L) * expl(0.7L * t) - 2 / 7.L; }},
      {"constant", [](double) { return -1.3; }, [](R x, R t) { return x - 1.3L * t; }},
      {"zero", [](double) { return 0.; }, [](R x, R) { return x; }},
      {"square", [](double x) { return -x * x; }, [](R x, R t) { return x / (1 + x * t); }},
      {"logistic", [](double x) { return x * (1 - x); }, [](R x, R t) { return x * expl(t) / (1 + x * (expl(t) - 1)); }},
      {"cosine", [](double x) { return cos(x) * cos(x); }, [](R x, R t) { return atanl(tanl(x) + t); }},
      {"exponential", [](double x) { return exp(-x); }, [](R x, R t) { return logl(expl(x) + t); }},
  };
  return e;
}
static const double X0[] = {1, 0.3, 0, 0.75, 0.05};
static void rk(mc::Ctx &c) {
  const Eq &e = equations()[c.choose((int)equations().size(), "equation")];
  double x0 = X0[c.choose(5, "start")];
  c.shard();
  static const double T[] = {0, 0.01, 0.3, 1, 2};
  double t = T[c.choose(5, "time")];
  int n = 1 + c.choose(9, "steps");
  std::string w = mc::cat(e.name, " from ", x0, " for ", t, " in ", n, " steps");
  c.note(w);
  double got = runge_kutta_launcher(e.f, t, x0, n);
  c.step();
  c.state(mc::fnv(&got, 8, c.scen_hash));
  R y = x0, h = t / (R)n;
  for (int i = 0; i < n; i++) {
    R a = e.f(y), b = e.f(y + h / 2 * a), d = e.f(y + h / 2 * b), g = e.f(y + h * d);
    y += h / 6 * (a + 2 * b + 2 * d + g);
  }
  c.close(got, (double)y, 1e-12, 1e-13, "runge-kutta", w);
  c.close(got, (double)e.exact(x0, t), 0, 0.2 * pow(t / n, 4) * t + 1e-13, "order", w);
}
// overflow of few steps: more steps are taken until the result is a number
static void rknan(mc::Ctx &c) {
  double K = 1 + c.choose(60, "stiffness");
  int n = 1 + c.choose(8, "steps");
  double edge = -0.2 * (1 + c.choose(4, "edge"));
  c.shard();
  auto f = [&](double x) { return x < edge ? NAN : -K * x; };
  double got = runge_kutta_launcher(f, 1, 1, n);
  c.step();
  c.state(mc::fnv(&got, 8, c.scen_hash));
  double want = NAN;
  for (int s = n;; s *= 2) {
    R y = 1, h = 1 / (R)s;
    for (int i = 0; i < s; i++) {
      R a = f(y), b = f(y + h / 2 * a), d = f(y + h / 2 * b), g = f(y + h * d);
      y += h / 6 * (a + 2 * b + 2 * d + g);
    }
    want = (double)y;
    if (!std::isnan(want) || s > 64)
      break;
  }
  std::string w = mc::cat("stiffness ", K, " steps ", n, " edge ", edge);
  if (std::isnan(want))
    c.expect(std::isnan(got), "nan", w);
  else
    c.close(got, want, 1e-9, 1e-15, "nan", w);
}
// implicit integrator: subdiagonal Padé approximation for linear equations
static R pade(R z) { // R_{N-1,N}(z)
  int k = N - 1, j = N;
  R p = 0, q = 0, t = 1;
  for (int i = 0; i <= k; i++) {
    p += t;
    t *= z * (R)(k - i) / ((R)(k + j - i) * (i + 1));
  }
  t = 1;
  for (int i = 0; i <= j; i++) {
    q += t;
    t *= -z * (R)(j - i) / ((R)(k + j - i) * (i + 1));
  }
  return p / q;
}
static void stiff(mc::Ctx &c) {
  static const double L[] = {0, 0.3, 1, 2.5, -0.3, -1, -3, -10, -50, -1e3, -1e5};
  double l = L[c.choose(11, "rate")], s = c.choose(3, "source") * 0.35, x0 = X0[c.choose(5, "start")];
  static const double T[] = {1e-3, 0.1, 0.5, 1};
  double t = T[c.choose(4, "time")];
  c.shard();
  auto f = [&](double x) { return l * (x - s); };
  double got = stiff_ode_solve(x0, t, f);
  c.step();
  c.state(mc::fnv(&got, 8, c.scen_hash));
  R want = s + (x0 - s) * pade((R)l * t);
  std::string w = mc::cat("rate ", l, " source ", s, " start ", x0, " time ", t);
  c.close(got, (double)want, 0, 1e-4, "pade", w);
}
static void smooth(mc::Ctx &c) {
  const Eq &e = equations()[c.choose((int)equations().size(), "equation")];
  double x0 = X0[c.choose(5, "start")];
  static const double T[] = {0, 0.01, 0.1, 0.3, 0.6, 1};
  double t = T[c.choose(6, "time")];
  c.shard();
  double got = stiff_ode_solve(x0, t, e.f);
  c.step();
  c.state(mc::fnv(&got, 8, c.scen_hash));
  double f = 1;
  for (int i = 2; i < 2 * N; i++)
    f *= i;
  c.close(got, (double)e.exact(x0, t), 0, 3e-5 + 0.5 * pow(t, 2 * N) / f, "smooth", mc::cat(e.name, " from ", x0, " for ", t));
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  if (MULTI) {
    s.push_back({"rates", rates, 20});
    s.push_back({"ode", ode, 20});
    s.push_back({"grid", grid, 20});
  } else {
    s.push_back({"rk", rk, 20});
    s.push_back({"rknan", rknan, 20});
    s.push_back({"stiff", stiff, 20});
    s.push_back({"smooth", smooth, 20});
  }
  return mc::main_(argc, argv, s);
}
