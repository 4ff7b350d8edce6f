// P04: quadrature, basis polynomials and the operators made of them
#include "galerkin.h"
#include "src/etc/globals.h"
#include "src/scipy/legendre.h"
#include "src/scipy/poly.h"
#include "src/solvers/dg/dg_matrices.h"
#include "src/solvers/poly/basis.h"
#include "src/solvers/poly/evaluations.h"
using namespace gpr;
static const double TOL = N < 4 ? 1e-13 : N < 6 ? 1e-11 : 1e-9;

// quadrature rules of every order
static void quadrature(mc::Ctx &c) {
  int n = 1 + c.choose(mc::thorough ? 40 : 16, "points");
  std::vector<ld> x, w;
  rule(n, x, w);
  std::vector<Vec> r = leggauss(n);
  c.step();
  c.state_of(r[0]);
  c.expect(r[0].size() == n && r[1].size() == n, "size", "number of points");
  for (int i = 0; i < n; i++) {
    c.close(r[0](i), (double)x[i], 0, 1e-14 * n, "node", mc::cat("node ", i, " of ", n));
    c.close(r[1](i), (double)w[i], 1e-12, 1e-13, "weight", mc::cat("weight ", i, " of ", n));
  }
  for (int d = 0; d < 2 * n; d++) {
    double s = 0;
    for (int i = 0; i < n; i++)
      s += r[1](i) * pow(r[0](i), d);
    c.close(s, d % 2 ? 0 : 2. / (d + 1), 0, 1e-13 * n, "exactness", mc::cat("x^", d, " with ", n, " points"));
  }
}

static void operators(mc::Ctx &c) {
  int what = c.choose(9, "operator");
  const Base &b = B();
  int i = c.choose(N, "row"), j = c.choose(N, "column");
  double tol = TOL, sc = 1;
  for (auto &p : b.psi)
    for (ld x : p)
      sc = std::max(sc, (double)fabsl(x));
  c.step();
  c.state(mc::fnv(&what, sizeof what, c.scen_hash) * 31 + i * N + j);
  std::string at = mc::cat("entry ", i, ",", j);
  switch (what) {
  case 0:
    c.close(NODES(i), (double)b.x[i], 0, tol, "NODES", at);
    c.close(WGHTS(i), (double)b.w[i], 0, tol, "WGHTS", at);
    break;
  case 1: {
    std::vector<poly> ps = basis_polys();
    VecN nodes = scaled_nodes();
    Vec xs = nodes;
    poly p = lagrange(xs, i);
    c.close(p.eval(NODES(j)), i == j, 0, tol * sc, "lagrange", at);
    c.close(ps[i].eval(NODES(j)), i == j, 0, tol * sc, "basis", at);
    for (double t = 0; t <= 1; t += 0.125)
      c.close(ps[i].eval(t), (double)Base::val(b.psi[i], t), 0, tol * sc, "basis", mc::cat("polynomial ", i, " at ", t));
    break;
  }
  case 2:
    c.close(ENDVALS(0, j), (double)Base::val(b.psi[j], 0), 0, tol * sc, "ENDVALS", at);
    c.close(ENDVALS(1, j), (double)Base::val(b.psi[j], 1), 0, tol * sc, "ENDVALS", at);
    break;
  case 3:
    c.close(DERVALS(i, j), (double)Base::val(Base::der(b.psi[j]), b.x[i]), 0, tol * sc * N, "DERVALS", at);
    break;
  case 4: {
    ld s = 0;
    for (int a = 1; a < N; a++)
      s += Base::integral(Base::mul(Base::der(b.psi[i], a), Base::der(b.psi[j], a)), 0, 1);
    double z = SIG.cwiseAbs().maxCoeff();
    c.close(SIG(i, j), (double)s, 1e-9, 1e-11 * (1 + z), "SIG", at);
    break;
  }
  case 5: { // stencil matrices: integrals of the basis over the cells of the stencil
    std::vector<poly> ps = basis_polys();
    std::vector<MatN_N> m = coefficient_matrices(ps);
    int off[4] = {-(N - 1), 0, -(N / 2), -((N - 1) / 2)};
    for (int k = 0; k < 4; k++) {
      if (k == 2 && N % 2)
        off[k] = -((N - 1) / 2);
      double z = m[k].cwiseAbs().maxCoeff();
      c.close(m[k](i, j), (double)Base::integral(b.psi[j], off[k] + i, off[k] + i + 1), 1e-10, 1e-10 * z, "stencil", mc::cat("matrix ", k, " ", at));
    }
    break;
  }
  case 6: // u^T DG_END v = u(1) v(1)
    c.close(DG_END(i, j), (double)(Base::val(b.psi[i], 1) * Base::val(b.psi[j], 1)), 0, tol * sc * sc, "DG_END", at);
    break;
  case 7:
    c.close(DG_DER(i, j), (double)Base::integral(Base::mul(b.psi[i], Base::der(b.psi[j])), 0, 1), 0, tol * sc * sc, "DG_DER", at);
    break;
  case 8:
    c.close(DG_MAT(i, j), (double)(Base::val(b.psi[i], 1) * Base::val(b.psi[j], 1) - Base::integral(Base::mul(b.psi[j], Base::der(b.psi[i])), 0, 1)), 0,
            tol * sc * sc, "DG_MAT", at);
    break;
  }
}

// the space-time operators: DG_U u = right-hand side, for every unit vector u
static void spacetime(mc::Ctx &c) {
  int dims = 1 + c.choose(N < 5 ? 3 : 2, "dimensions");
  int n = N;
  for (int i = 0; i < dims; i++)
    n *= N;
  int e = c.choose(n, "unit vector");
  const Base &b = B();
  Mat u = Mat::Zero(n, 1), rhs(n, 1);
  u(e, 0) = 1;
  int m = n / N;
  // index: time slowest
  for (int r = 0; r < n; r++) {
    ld s = 0;
    int tr = r / m, te = e / m;
    if (r % m == e % m) {
      s = Base::val(b.psi[tr], 1) * Base::val(b.psi[te], 1) - Base::integral(Base::mul(b.psi[te], Base::der(b.psi[tr])), 0, 1);
      for (int k = 0, z = r % m; k < dims; k++, z /= N)
        s *= b.w[z % N];
    }
    rhs(r, 0) = (double)s;
  }
  Mat x = dims == 1 ? DG_U1.solve(rhs) : dims == 2 ? DG_U2.solve(rhs) : DG_U3.solve(rhs);
  c.step();
  c.state_of(x);
  for (int r = 0; r < n; r++)
    c.close(x(r, 0), u(r, 0), 0, 1e-8, "DG_U", mc::cat("space dimensions ", dims, " entry ", r));
}

// polynomial arithmetic on every polynomial with small integer coefficients: exact
static void arithmetic(mc::Ctx &c) {
  int na = 1 + c.choose(mc::thorough ? 5 : 4, "size a"), nb = 1 + c.choose(3, "size b");
  Vec a(na), b(nb);
  LP la(na), lb(nb);
  for (int i = 0; i < na; i++) {
    a(i) = la[i] = c.choose(4, "a") - 1;
    if (i == 0)
      c.shard();
  }
  for (int i = 0; i < nb; i++)
    b(i) = lb[i] = (c.choose(3, "b") - 1) * 2;
  poly p(a), q(b);
  poly r = p * q, s = p / 4., I = p.intt(), D = p.diff(1), D2 = p.diff(std::min(na - 1, 2)), D0 = p.diff(0);
  c.step(6);
  c.state_of(r.coef);
  c.expect(same_bits(p.coef, a) && same_bits(q.coef, b), "input", "an operand was changed");
  LP m = Base::mul(la, lb);
  c.expect(r.coef.size() == (long)m.size(), "size", "degree of the product");
  for (size_t i = 0; i < m.size(); i++)
    c.expect(r.coef(i) == (double)m[i], "product", mc::cat("coefficient ", i));
  LP d1 = Base::der(la), d2 = Base::der(la, std::min(na - 1, 2));
  for (int x = -3; x <= 3; x++) {
    ld v = Base::val(la, x);
    c.expect(p.eval(x) == (double)v, "eval", mc::cat("at ", x));
    c.expect(D0.eval(x) == (double)v, "diff", mc::cat("zeroth at ", x));
    c.expect(s.eval(x) == (double)(v / 4), "scaling", mc::cat("at ", x));
    c.expect(r.eval(x) == (double)(v * Base::val(lb, x)), "product", mc::cat("at ", x));
    c.expect(D.eval(x) == (double)Base::val(d1, x), "diff", mc::cat("at ", x));
    c.expect(D2.eval(x) == (double)Base::val(d2, x), "diff", mc::cat("repeated at ", x));
    c.close(I.eval(x), (double)Base::integral(la, 0, x), 1e-13, 1e-12, "integral", mc::cat("at ", x));
  }
  // free functions
  c.expect(evaluate(multiply(a, b), 2.) == (double)(Base::val(la, 2) * Base::val(lb, 2)), "multiply", "free function");
  c.close(evaluate(integrate(a), 0.5), (double)Base::integral(la, 0, 0.5), 1e-13, 1e-13, "integrate", "free function");
  c.expect(evaluate(differentiate(a), 3.) == (double)Base::val(d1, 3), "differentiate", "free function");
}

// Kronecker products of small integer matrices
static void kronecker(mc::Ctx &c) {
  int k = 2 + c.choose(3, "factors");
  std::vector<Mat> ms;
  for (int i = 0; i < k; i++) {
    int r = 1 + c.choose(3, "rows"), q = 1 + c.choose(2, "columns");
    if (i == 1)
      c.shard();
    Mat m(r, q);
    for (int a = 0; a < r; a++)
      for (int b = 0; b < q; b++)
        m(a, b) = (a + 1) * (i + 2) - 3 * b + (a == b);
    ms.push_back(m);
  }
  std::vector<Mat> in = ms;
  Mat got = kron(in);
  c.step();
  c.state_of(got);
  long R = 1, C = 1;
  for (auto &m : ms)
    R *= m.rows(), C *= m.cols();
  c.expect(got.rows() == R && got.cols() == C, "kron", "size");
  for (long i = 0; i < R; i++)
    for (long j = 0; j < C; j++) {
      double w = 1;
      long a = i, b = j;
      for (int f = k - 1; f >= 0; f--) {
        w *= ms[f](a % ms[f].rows(), b % ms[f].cols());
        a /= ms[f].rows();
        b /= ms[f].cols();
      }
      c.expect(got(i, j) == w, "kron", mc::cat("entry ", i, ",", j));
    }
}

// nodal derivatives and end values in 2D, for every pair of degrees
static void nodal(mc::Ctx &c) {
  int a = c.choose(N, "degree in x"), b = c.choose(N, "degree in y"), d = c.choose(2, "direction"), e = c.choose(2, "end");
  MatN2_V q, r;
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      for (int v = 0; v < V; v++)
        q(i * N + j, v) = (v + 1) * pow(NODES(i) - 0.3, a) * pow(NODES(j) + 0.2, b) + v;
  MatN2_V q0 = q;
  r.setConstant(NAN);
  derivs2d(r, q, d);
  MatN_V ends;
  ends.setConstant(NAN);
  endpts2d(ends, q, d, e);
  c.step(2);
  c.state_of(r);
  c.expect(q == q0, "input", "the input was changed");
  auto f = [](double x, int n) { return n < 0 ? 0 : pow(x, n); };
  for (int i = 0; i < N; i++)
    for (int v = 0; v < V; v++) {
      double x = d ? NODES(i) : e, y = d ? e : NODES(i);
      c.close(ends(i, v), (v + 1) * pow(x - 0.3, a) * pow(y + 0.2, b) + v, 1e-10, 1e-11 * V * N, "endpts2d", mc::cat("point ", i));
      for (int j = 0; j < N; j++) {
        double X = NODES(i) - 0.3, Y = NODES(j) + 0.2;
        double w = d == 0 ? a * f(X, a - 1) * pow(Y, b) : b * pow(X, a) * f(Y, b - 1);
        c.close(r(i * N + j, v), (v + 1) * w, 1e-9, 1e-10 * V * N, "derivs2d", mc::cat("point ", i, ",", j));
      }
    }
}

// Legendre series
Vec legval(Vec x, Vec c);
Vec legder(Vec c);
static void series(mc::Ctx &c) {
  int n = 1 + c.choose(mc::thorough ? 7 : 6, "size");
  Vec co(n);
  for (int i = 0; i < n; i++) {
    co(i) = c.choose(3, "coefficient") - 1;
    if (i == 1)
      c.shard();
  }
  Vec x(5);
  x << -1, -0.3, 0, 0.71, 1;
  auto L = [](int k, ld t) {
    ld p0 = 1, p1 = t;
    if (k == 0)
      return p0;
    for (int i = 2; i <= k; i++) {
      ld p2 = ((2 * i - 1) * t * p1 - (i - 1) * p0) / i;
      p0 = p1;
      p1 = p2;
    }
    return p1;
  };
  Vec v = legval(x, co);
  c.step();
  c.state_of(co);
  for (int i = 0; i < 5; i++) {
    ld w = 0;
    for (int k = 0; k < n; k++)
      w += co(k) * L(k, x(i));
    c.close(v(i), (double)w, 1e-12, 1e-12, "legval", mc::cat("at ", x(i)));
  }
  if (n > 1) {
    Vec d = legval(x, legder(co));
    c.step();
    for (int i = 1; i < 4; i++) {
      ld w = 0, t = x(i);
      for (int k = 1; k < n; k++)
        w += co(k) * k * (t * L(k, t) - L(k - 1, t)) / (t * t - 1);
      c.close(d(i), (double)w, 1e-11, 1e-11, "legder", mc::cat("at ", x(i)));
    }
  }
}

int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"quadrature", quadrature}, {"operators", operators}, {"spacetime", spacetime}, {"arithmetic", arithmetic}, {"kronecker", kronecker}, {"nodal", nodal}, {"series", series}});
}
