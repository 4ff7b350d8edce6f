// P13: the predictors of both schemes
#include "evolve.h"
#include "galerkin.h"
#include "src/solvers/dg/dg.h"
#include "src/solvers/split/homogeneous.h"
#include "src/system/equations.h"
using namespace gpr;

static int npoints(int ndim) { return ndim == 1 ? N : N * N; }
// the oracle's operators
struct Ops {
  double D[N][N];  // derivative of the basis at the nodes
  double M[N][N];  // psi_i(1) psi_j(1) - <psi_i', psi_j>
  double e0[N], e1[N], x[N], w[N];
  Ops() {
    auto &b = B();
    for (int i = 0; i < N; i++) {
      x[i] = b.x[i];
      w[i] = b.w[i];
      e0[i] = Base::val(b.psi[i], 0);
      e1[i] = Base::val(b.psi[i], 1);
      for (int j = 0; j < N; j++) {
        D[i][j] = Base::val(Base::der(b.psi[j]), b.x[i]);
        M[i][j] = (double)(Base::val(b.psi[i], 1) * Base::val(b.psi[j], 1) - Base::integral(Base::mul(Base::der(b.psi[i]), b.psi[j]), 0, 1));
      }
    }
  }
};
static const Ops &O() {
  static Ops o;
  return o;
}
// time derivative of every point of a spatial slice: source - flux derivatives - products
static std::vector<VecV> rate(const Vec &s, int ndim, const Vec &dX, Par &m, bool src) {
  int P = npoints(ndim);
  std::vector<VecV> F[2], r(P);
  for (int d = 0; d < ndim; d++)
    for (int p = 0; p < P; p++) {
      VecV f = VecV::Zero(), q = s.segment<V>(p * V);
      flux(f, q, d, m);
      F[d].push_back(f);
    }
  for (int p = 0; p < P; p++) {
    VecV S = VecV::Zero(), q = s.segment<V>(p * V);
    if (src)
      source(S, q, m);
    for (int d = 0; d < ndim; d++) {
      VecV dq = VecV::Zero(), dF = VecV::Zero(), b;
      int a = ndim == 1 ? p : d == 0 ? p / N : p % N;
      for (int k = 0; k < N; k++) {
        int o = ndim == 1 ? k : d == 0 ? k * N + p % N : p / N * N + k;
        dq += O().D[a][k] * s.segment<V>(o * V);
        dF += O().D[a][k] * F[d][o];
      }
      VecV bq = dq / dX(d);
      Bdot(b, q, bq, d, m);
      S -= b + dF / dX(d);
    }
    r[p] = S;
  }
  return r;
}
// largest residual of the weak form, relative to the size of the state
static double residual(const Vec &q, const Vec &w, int ndim, double dt, const Vec &dX, Par &m, std::string &where) {
  int P = npoints(ndim);
  double worst = 0;
  double sc = std::max(1., w.cwiseAbs().maxCoeff());
  for (int t = 0; t < N; t++) {
    Vec slice = q.segment(t * P * V, P * V);
    auto r = rate(slice, ndim, dX, m, true);
    for (int p = 0; p < P; p++) {
      VecV x = -O().e0[t] * w.segment<V>(p * V) - dt * O().w[t] * r[p];
      for (int k = 0; k < N; k++)
        x += O().M[t][k] * q.segment<V>((k * P + p) * V);
      for (int v = 0; v < V; v++)
        if (!(std::abs(x(v)) / sc <= worst)) {
          worst = std::abs(x(v)) / sc;
          where = mc::cat("time ", t, " point ", p, " component ", v);
        }
    }
  }
  return worst;
}
// the code's tolerance is that of equations weighted by the quadrature
static double newton_tol(int ndim) { return 6e-6 / pow(std::min(O().w[0], O().w[N - 1]), ndim); }
static const int MATS[] = {AIR, PLASTIC_GR, EXPL_CC, SOLID_SMG, BINGHAM_SG, WATER, SOLID_GR, EXPL_JWL, POWER_SG, PLASTIC_SMG};
static Par pick(mc::Ctx &c, int n) {
  if (MULTI) {
    Par m = mild(EXPL_JWL);
    m.REACTION = c.choose(2, "reaction") - 1;
    m.Kc = 0.4; m.Ti = 0.1; m.Qc = 0.5;
    return m;
  }
  return mild(MATS[c.choose(mc::thorough ? 10 : n, "material")]);
}
// values of a cell: a state plus small variations at the points
static Vec slice_of(mc::Ctx &c, int ndim, const Par &m, int alphabet) {
  int P = npoints(ndim);
  Vec w(P * V);
  VecV q = grid_state(m, c.choose(3, "state"), 0.6);
  for (int p = 0; p < P; p++) {
    int k = p < 4 ? c.choose(alphabet, "variation") : p % alphabet;
    w.segment<V>(p * V) = q + 0.15 * k * (grid_state(m, k, 0.6) - q);
    for (int l = V - LSET; l < V; l++)
      w(p * V + l) += 0.1 * ((p * 5 + l) % 7) * k;
  }
  return w;
}
static Vec predict(const Vec &w, int ndim, double dt, const Vec &dX, bool STIFF, bool IG, Par &m, const bVec &mask, unsigned char fill, mc::Ctx &c) {
  Guarded<Vec> g(w.size() * N);
  memset((void *)(g.all.data() + g.g), fill, g.n * 8);
  Vec w2 = w;
  bVec k = mask;
  Vec d = dX;
  predictor(g.seg(), w2, dt, d, STIFF, IG, m, k);
  c.step();
  c.expect(g.intact(), "outside", "the predictor wrote outside of its array");
  c.expect(same_bits(w2, w) && same_bits(k, mask) && same_bits(d, dX), "inputs", "the predictor changed its inputs");
  return g.get();
}
static void weak(mc::Ctx &c, int ndim) {
  Par m = pick(c, ndim == 1 ? 6 : 3);
  Vec dX = ndim == 1 ? dvec({0.7}) : dvec({0.7, 0.45});
  Vec w = slice_of(c, ndim, m, ndim == 1 || !mc::thorough ? 2 + (ndim == 1) : 3);
  if (c.choose(2, "body force"))
    m.δp << 0.3, -0.2, 0.1;
  double dt = (c.choose(2, "dt") ? 0.12 : 0.02) * dX.minCoeff() / ndim;
  c.shard();
  Vec q[3];
  double tol = std::max(1e-4, 8 * newton_tol(ndim));
  for (int k = 0; k < 3; k++) { // fixed point, Newton, Newton from the other guess
    const char *nm[] = {"fixed point", "newton", "newton from the stiff guess"};
    q[k] = predict(w, ndim, dt, dX, k > 0, k > 1, m, ones(1), 0xFF, c);
    std::string where;
    c.note(nm[k]);
    c.expect(finite(q[k]), "finite", mc::cat(nm[k], ": not finite"));
    double r = residual(q[k], w, ndim, dt, dX, m, where);
    c.state_of(q[k]);
    c.expect(r <= 1.2 * newton_tol(ndim), "residual", mc::cat(nm[k], ": residual ", r, " at ", where));
    if (k)
      for (long i = 0; i < q[0].size(); i++)
        c.close(q[k](i), q[0](i), tol, tol, "agree", mc::cat(nm[k], " and fixed point, entry ", i));
  }
}
// exact solutions: transport of level sets and the body force
static void exact(mc::Ctx &c, int ndim) {
  Par m = MULTI ? mild(AIR) : mild(MATS[c.choose(6, "material")]);
  Vec dX = ndim == 1 ? dvec({0.7}) : dvec({0.7, 0.45});
  int P = npoints(ndim);
  Prim s = prim(m, c.choose(3, "compression"), 0, 0, 0);
  int vel = c.choose(4, "velocity");
  static const double VEL[][3] = {{0.4, -0.3, 0.2}, {-0.8, 0.1, 0}, {0, 0.6, 0.1}, {0.5, 0.5, -0.5}};
  for (int i = 0; i < 3; i++)
    s.v[i] = VEL[vel][i];
  s.J[0] = s.J[1] = s.J[2] = 0;
  if (m.EOS == SHOCK_MG) {
    s.ρ *= 1.004;
    s.A *= cbrt(1.004);
  }
  int deg = c.choose(N, "degree"), axis = ndim == 1 ? 0 : c.choose(3, "axis");
  double dt = 0.1;
  bool force = c.choose(2, "body force") && m.EOS == STIFFENED_GAS;
  // momentum is linear in time, but the velocity then transports more
  if (force)
    m.δp << 0, 0, 0.2;
  bool STIFF = c.choose(2, "newton");
  c.shard();
  double tol = std::max(3e-5, STIFF ? 4 * newton_tol(ndim) : 0);
  auto f = [&](double x, double y) {
    double z = axis == 0 ? x : axis == 1 ? y : x + 0.5 * y;
    double r = 0.3;
    for (int k = 1; k <= deg; k++)
      r += 0.4 / k * pow(z - 0.2, k);
    return r;
  };
  Vec w(P * V);
  for (int p = 0; p < P; p++) {
    int i = ndim == 1 ? p : p / N, j = ndim == 1 ? 0 : p % N;
    for (int l = 0; l < LSET; l++)
      s.ls[l] = (l + 1) * f(O().x[i] * dX(0), ndim == 1 ? 0 : O().x[j] * dX(1));
    VecV q = conserved(s, m);
    w.segment<V>(p * V) = q;
  }
  Vec q = predict(w, ndim, dt, dX, STIFF, false, m, ones(1), 0xFF, c);
  c.state_of(q);
  for (int t = 0; t < N; t++)
    for (int p = 0; p < P; p++) {
      int i = ndim == 1 ? p : p / N, j = ndim == 1 ? 0 : p % N;
      double T = dt * O().x[t];
      VecV want = w.segment<V>(p * V);
      want(4) += m.δp(2) * T;
      for (int l = 0; l < LSET; l++)
        want(V - LSET + l) = (l + 1) * f(O().x[i] * dX(0) - s.v[0] * T, ndim == 1 ? 0 : O().x[j] * dX(1) - s.v[1] * T);
      for (int v = 0; v < V; v++)
        if (!(force && v == 1))
          c.close(q((t * P + p) * V + v), want(v), tol, tol, "exact", mc::cat("degree ", deg, " time ", t, " point ", p, " component ", v));
    }
  if (m.δp.any())
    return;
  Vec h = w;
  bVec one = ones(1);
  midstepper(h, dt, dX, m, one);
  c.step();
  for (int p = 0; p < P && deg < 2; p++) {
    int i = ndim == 1 ? p : p / N, j = ndim == 1 ? 0 : p % N;
    VecV want = w.segment<V>(p * V);
    for (int l = 0; l < LSET; l++)
      want(V - LSET + l) = (l + 1) * f(O().x[i] * dX(0) - s.v[0] * dt / 2, ndim == 1 ? 0 : O().x[j] * dX(1) - s.v[1] * dt / 2);
    for (int v = 0; v < V; v++)
      c.close(h(p * V + v), want(v), 1e-12, 1e-12, "exact-half", mc::cat("point ", p, " component ", v));
  }
}
// relaxation of a uniform cell against the solution of its ordinary equation
static void relax(mc::Ctx &c, int ndim) {
  Par m = pick(c, 6);
  int shp = 1 + c.choose(4, "shape"), comp = c.choose(3, "compression");
  bool STIFF = c.choose(2, "newton");
  c.shard();
  Vec dX = ndim == 1 ? dvec({0.7}) : dvec({0.7, 0.45});
  int P = npoints(ndim);
  double tol = std::max(6e-5, STIFF ? 4 * newton_tol(ndim) : 0);
  VecV q0 = conserved(prim(m, comp, shp, 1, 0), m);
  VecV S0;
  source(S0, q0, m);
  double rate0 = S0.cwiseAbs().maxCoeff();
  double dt = rate0 > 0 ? std::min(0.1, 0.03 / rate0) : 0.1;
  Vec w(P * V);
  for (int p = 0; p < P; p++)
    w.segment<V>(p * V) = q0;
  Vec q = predict(w, ndim, dt, dX, STIFF, false, m, ones(1), 0xFF, c);
  c.state_of(q);
  VecV x = q0; // classical Runge-Kutta with many steps
  int n = 200;
  double h = dt / n;
  for (int s = 0; s < n; s++) {
    VecV k1, k2, k3, k4, y;
    source(k1, x, m);
    y = x + h / 2 * k1;
    source(k2, y, m);
    y = x + h / 2 * k2;
    source(k3, y, m);
    y = x + h * k3;
    source(k4, y, m);
    x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
  }
  for (int p = 0; p < P; p++)
    for (int v = 0; v < V; v++) {
      double e = 0;
      for (int t = 0; t < N; t++)
        e += O().e1[t] * q((t * P + p) * V + v);
      c.close(e, x(v), tol, tol, "relax", mc::cat("point ", p, " component ", v));
    }
}
// masks: only requested cells, each as if it were alone, none left unwritten
static void masks(mc::Ctx &c, int ndim) {
  Par m = pick(c, 2);
  Vec dX = ndim == 1 ? dvec({0.7}) : dvec({0.7, 0.45});
  int P = npoints(ndim), n = 3;
  int alg = c.choose(4, "algorithm"); // fixed point, stiff guess, newton, half step
  int big = c.choose(alg == 2 || (ndim == 2 && !mc::thorough) ? 2 : 3, "dt");
  unsigned k = c.choose(1 << n, "mask");
  int bad = big || (ndim == 2 && !mc::thorough) ? -1 : c.choose(n + 1, "cell with vacuum") - 1;
  c.shard();
  double dt = (big == 0 ? 0.05 : big == 1 ? 0.3 : 40.) * dX.minCoeff();
  bVec mask(n);
  Vec w(n * P * V);
  for (int i = 0; i < n; i++) {
    mask(i) = k >> i & 1;
    for (int p = 0; p < P; p++)
      w.segment<V>((i * P + p) * V) = grid_state(m, (i * 2 + p) % 3, 0.5);
    if (!mask(i))
      memset((void *)(w.data() + i * P * V), 0xFF, P * V * 8);
    else if (i == bad)
      w.segment(i * P * V, P * V).setZero();
  }
  if (bad >= 0 && !mask(bad))
    throw mc::Skip();
  auto run = [&](const Vec &x, const bVec &mk, unsigned char fill) -> Vec {
    if (alg < 3)
      return predict(x, ndim, dt, dX, alg == 2, alg == 1, m, mk, fill, c);
    Guarded<Vec> g(x);
    bVec m2 = mk;
    Vec d = dX;
    midstepper(g.seg(), dt, d, m, m2);
    c.step();
    c.expect(g.intact(), "outside", "the half step wrote outside of its array");
    return g.get();
  };
  Vec a = run(w, mask, 0xFF), b = run(w, mask, 0x00);
  c.state_of(a);
  int R = a.size() / n;
  for (int i = 0; i < n; i++) {
    Vec x = a.segment(i * R, R), y = b.segment(i * R, R);
    std::string s = mc::cat("algorithm ", alg, " dt ", dt, " mask ", mask.transpose(), " cell ", i);
    c.note(s);
    if (!mask(i)) {
      if (alg < 3) {
        Vec z(R);
        memset((void *)z.data(), 0xFF, R * 8);
        c.expect(same_bits(x, z), "untouched", s + " was not selected, but written");
        z.setZero();
        c.expect(same_bits(y, z), "untouched", s + " was not selected, but written");
      } else
        c.expect(same_bits(x, Vec(w.segment(i * R, R))), "untouched", s + " was not selected, but changed");
      continue;
    }
    Vec alone = run(w.segment(i * P * V, P * V), ones(1), 0x5A);
    for (int e = 0; e < R; e++) {
      auto eq = [](double p, double q) { return p == q || (std::isnan(p) && std::isnan(q)); };
      c.expect(eq(x(e), y(e)), "unwritten", mc::cat(s, ": entry ", e, " depends on earlier contents of the array: ", x(e), " ", y(e)));
      c.expect(eq(x(e), alone(e)), "alone", mc::cat(s, ": entry ", e, " is ", x(e), " but alone ", alone(e)));
    }
    if (big < 1 && i != bad)
      c.expect(finite(x), "finite", s + " is not finite");
  }
}
static void half(mc::Ctx &c, int ndim) {
  Par m = pick(c, 6);
  Vec dX = ndim == 1 ? dvec({0.7}) : dvec({0.7, 0.45});
  Vec w = slice_of(c, ndim, m, 3);
  double dt = 0.1;
  c.shard();
  if (!MULTI && c.choose(2, "body force")) // the homogeneous system: no effect
    m.δp << 0.3, -0.2, 0.1;
  Vec h = w;
  bVec one = ones(1);
  midstepper(h, dt, dX, m, one);
  c.step();
  c.state_of(h);
  auto r = rate(w, ndim, dX, m, false);
  for (int p = 0; p < npoints(ndim); p++)
    for (int v = 0; v < V; v++)
      c.close(h(p * V + v), w(p * V + v) + dt / 2 * r[p](v), 0, 1e-12 * scale(w), "half-step", mc::cat("point ", p, " component ", v));
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  static const struct {
    const char *n;
    void (*f)(mc::Ctx &, int);
  } L[] = {{"weak", weak}, {"exact", exact}, {"relax", relax}, {"masks", masks}, {"half", half}};
  for (auto &l : L)
    for (int d = 1; d <= 2; d++) {
      if (N > 2 && l.f == masks && d == 2)
        continue; // slow, and no different
      auto f = l.f;
      s.push_back({mc::cat(l.n, "-", d, "d"), [f, d](mc::Ctx &c) { f(c, d); }, 60});
    }
  return mc::main_(argc, argv, s);
}
