// P23: the nonlinear solver
#include "gpr.h"
#include <cfloat>
#include "src/scipy/newton_krylov.h"
using namespace gpr;

static const int NG = 8;
static double g(int k, double x) {
  switch (k) {
  case 0: return x;
  case 1: return x + 0.25 * x * x;
  case 2: return x + 0.3 * std::sin(x);
  case 3: return x + x * x * x / 3;
  case 4: return std::exp(0.5 * x);
  case 5: return std::atan(x) + 0.3 * x;
  case 6: return x < 0 ? x : 2 * x; // a kink
  default: return std::sinh(x);
  }
}
static const char *GN[] = {"linear", "square", "sine", "cube", "exponential", "arctangent", "kink", "sinh"};
static Mat coupling(int n, int k) {
  Mat A = Mat::Zero(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      switch (k) {
      case 0: A(i, j) = i == j; break;
      case 1: A(i, j) = i == j ? 2 : std::abs(i - j) == 1 ? -0.7 : 0; break;
      case 2: A(i, j) = i == j ? -1 : j > i ? 0.5 : -0.3; break;
      default: A(i, j) = (i + 1) % n == j ? 1.5 : i == j ? 0.3 : 0.; // not definite
      }
  return A;
}
static double maxn(const Vec &x) { return x.cwiseAbs().maxCoeff(); }
struct System_ {
  int n, gk;
  Mat A;
  Vec root;
  double scale;
  long *calls;
  Vec operator()(const Vec &x) const {
    (*calls)++;
    Vec d(n);
    for (int i = 0; i < n; i++)
      d(i) = g(gk, x(i)) - g(gk, root(i));
    return Vec(scale * (A * d));
  }
};
static System_ system_(mc::Ctx &c, std::string &w, Vec &x0, int maxdim, long *calls) {
  System_ s;
  static const int SZ[] = {1, 2, 3, 8};
  s.n = SZ[c.choose(maxdim, "size")];
  s.gk = c.choose(NG, "nonlinearity");
  int ka = c.choose(s.n == 1 ? 1 : 4, "coupling");
  s.A = coupling(s.n, ka);
  static const double SC[] = {1, 30, 0.05};
  int ks = c.choose(3, "scale");
  s.scale = SC[ks];
  s.calls = calls;
  static const double ROOT[] = {0, 0.5, -0.8, 1.2, 3};
  static const double OFF[] = {0, 0.3, -0.6, 0.02, -1e-4, 1.1};
  int r = c.choose(5, "root"), o = c.choose(6, "start");
  s.root = Vec(s.n);
  x0 = Vec(s.n);
  for (int i = 0; i < s.n; i++) {
    s.root(i) = ROOT[r] * (1 - 0.6 * i / s.n);
    x0(i) = s.root(i) + OFF[o] * (1 - 0.9 * i / s.n) * (i % 2 ? -1 : 1);
  }
  w = mc::cat(GN[s.gk], " size ", s.n, " coupling ", ka, " scale ", s.scale, " root ", ROOT[r], " start ", OFF[o]);
  return s;
}
static Vec run(mc::Ctx &c, const System_ &s, const Vec &x0, double ft, double fr, double xt, double xr) {
  Guarded<Vec> x(x0);
  Vec r = nonlin_solve([&](Vecr v) { return s(v); }, x.seg(), ft, fr, xt, xr);
  c.step();
  c.state_of(r);
  c.expect(x.intact(), "outside", "wrote outside of the start");
  return r;
}
static void roots(mc::Ctx &c) {
  std::string w;
  Vec x0;
  long calls = 0;
  System_ s = system_(c, w, x0, 4, &calls);
  c.shard();
  static const double FT[] = {6.055454452393343e-06, 1e-9, 1e-3, 1};
  double ft = FT[c.choose(4, "tolerance")];
  c.note(w + mc::cat(" tolerance ", ft));
  double f0 = maxn(s(x0));
  calls = 0;
  Vec r = run(c, s, x0, ft, DBL_MAX, DBL_MAX, DBL_MAX);
  c.expect(r.size() == s.n && finite(r), "finite", w);
  double f = maxn(s(r));
  c.expect(f <= ft, "root", w + mc::cat(": residual ", f, " above ", ft, " (", f0, " at the start)"));
  if (f0 == 0)
    c.expect(r == x0, "start", w + ": a root at the start was left");
  if (f0 <= ft && maxn(x0) >= 1)
    c.expect(r == x0, "start", w + ": a good start was left");
  c.expect(calls <= 3L * (s.n + 1) * (31 + 12) + 2, "calls", w + mc::cat(": ", calls, " evaluations"));
}
static void tolerances(mc::Ctx &c) {
  std::string w;
  Vec x0;
  long calls = 0;
  System_ s = system_(c, w, x0, 3, &calls);
  c.shard();
  int which = c.choose(3, "which");
  static const double T[] = {1e-2, 1e-4, 1e-7};
  double t = T[c.choose(3, "value")];
  c.note(w + mc::cat(" kind ", which, " tolerance ", t));
  double f0 = maxn(s(x0));
  if (f0 == 0)
    throw mc::Skip();
  double big = 1e6;
  Vec r = run(c, s, x0, big, which == 0 ? t : DBL_MAX, which == 1 ? t : DBL_MAX, which == 2 ? t : DBL_MAX);
  std::string wt = w + mc::cat(" kind ", which, " tolerance ", t, ": result ", r.transpose());
  if (which == 0)
    c.expect(maxn(s(r)) <= t * f0, "relative", wt + mc::cat(" residual ", maxn(s(r)), " of ", f0));
  // the last step was within its limit, so the distance left is smaller still
  else if (which == 1)
    c.expect(maxn(r - s.root) <= t * (1 + 1e-6), "step", wt);
  else
    c.expect(maxn(r - s.root) <= t * (maxn(r) + 1e-9) + 1e-10, "relative-step", wt);
}
// the number of iterations: superlinear convergence, and line searches where full steps overshoot
static void search(mc::Ctx &c) {
  int n = 1 + c.choose(3, "size"), k = c.choose(3, "function");
  static const double X[] = {1.2, 1.45, 2, 3, -2.2, 5};
  double x = X[c.choose(6, "start")];
  c.shard();
  long calls = 0;
  auto F = [&](Vecr v) {
    calls++;
    Vec r(n);
    for (int i = 0; i < n; i++) {
      double y = v(i) * (1 + 0.1 * i);
      r(i) = k == 0 ? std::atan(y) : k == 1 ? y / (1 + y * y / 4) : std::tanh(y);
    }
    return r;
  };
  Vec x0 = Vec::Constant(n, x), y = x0;
  Vec r = nonlin_solve(F, y);
  c.step();
  c.state_of(r);
  double f0 = maxn(F(x0)), f = maxn(F(r));
  bool decreasing = k == 1 && std::abs(x) * (1 + 0.1 * (n - 1)) >= 1.4; // beyond the maximum of the function
  std::string w = mc::cat("function ", k, " size ", n, " from ", x, ": residual ", f0, " -> ", f);
  c.note(w);
  // the iteration limit for small systems is 3 (n + 1)
  bool far = k == 2 && (std::abs(x) >= 5 || (n == 1 && std::abs(x) >= 3)); // the derivative is below 1e-4
  if (!decreasing && !far)
    c.expect(std::isfinite(f) && f <= 6.1e-6, "search", w);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"roots", roots, 20});
  s.push_back({"tolerances", tolerances, 20});
  s.push_back({"search", search, 20});
  return mc::main_(argc, argv, s);
}
