// P03: WENO reconstruction
#include "gpr.h"
#include "src/etc/globals.h"
#include "src/solvers/weno/weno.h"
using namespace gpr;

// accuracy of the high orders, and the smallest domain for which they are defined at corners
static const double ACC = N < 5 ? 1 : N == 5 ? 30 : 300, NONLIN = N < 3 ? 1 : N < 5 ? 3e3 : 3e5;
static const int M = N < 5 ? N : N + 1;
static Vec weno(Vec ub, iVec nX) {
  long cells = 1, pts = 1;
  for (int d = 0; d < nX.size(); d++)
    cells *= nX(d) + 2, pts *= N;
  Guarded<Vec> g(ub), w(cells * pts * V);
  Par m = material(AIR);
  weno_launcher(w.seg(), g.seg(), nX, m);
  if (!same_bits(g.get(), ub) || !g.intact() || !w.intact())
    throw mc::Fail{"bounds", "written outside of the reconstruction"};
  return w.get();
}
// polynomial of the reconstruction of cell k (1D), component v, at x in [0,1]
static double peval(const double *w, int stride, double x) {
  double r = 0;
  for (int i = 0; i < N; i++) {
    double l = 1;
    for (int j = 0; j < N; j++)
      if (j != i)
        l *= (x - NODES(j)) / (NODES(i) - NODES(j));
    r += l * w[i * stride];
  }
  return r;
}
static double mean(const double *w, int stride) {
  double r = 0;
  for (int i = 0; i < N; i++)
    r += WGHTS(i) * w[i * stride];
  return r;
}

// every sequence over an alphabet
static void sequences(mc::Ctx &c) {
  static const double AL[] = {0, 1, -0.5, 1e3};
  int n = 1 + c.choose(N == 2 ? 3 : N == 3 ? 2 : 1, "cells");
  int L = n + 2 * N, al = L > 8 && !mc::thorough ? 2 : L > 6 ? 3 : 4;
  Vec ub(L * V);
  std::vector<int> q(L);
  for (int i = 0; i < L; i++) {
    q[i] = c.choose(al, "value");
    if (i == 3)
      c.shard();
  }
  // component 0 is the sequence, others are images of it
  double lin[5] = {1, -1, 2.5, 1, 1};
  for (int i = 0; i < L; i++)
    for (int v = 0; v < V; v++) {
      int j = v % 5 == 3 ? L - 1 - i : i; // mirrored
      double x = AL[q[j]];
      ub(i * V + v) = v % 5 == 4 ? 7. - 0.25 * i : lin[v % 5] * x;
    }
  Vec w = weno(ub, ivec({n}));
  c.step();
  c.state_of(w);
  c.expect(finite(w), "finite", "the reconstruction is not finite");
  const double *p = w.data();
  for (int k = 0; k < n + 2; k++)
    for (int v = 0; v < V; v++) {
      double a = ub((k + N - 1) * V + v), sc = 1;
      for (int j = 0; j < 2 * N - 1; j++)
        sc = std::max(sc, std::abs(ub((k + j) * V + v)));
      c.close(mean(p + (k * N) * V + v, V), a, 0, 1e-11 * ACC * sc, "average", mc::cat("cell ", k - 1, " component ", v));
      for (int i = 0; i < N; i++) {
        double x = p[(k * N + i) * V + v];
        if (v % 5 == 1) // scaled by -1
          c.close(x, -p[(k * N + i) * V], 1e-12, 1e-12 * NONLIN * sc, "independent", mc::cat("cell ", k - 1, " component ", v));
        if (v % 5 == 3) // mirrored
          c.close(x, p[((n + 1 - k) * N + N - 1 - i) * V], 1e-9, 1e-9 * NONLIN * sc, "mirror", mc::cat("cell ", k - 1, " component ", v));
        if (v % 5 == 4) // linear, among other data
          c.close(x, 7. - 0.25 * (k + N - 1 + NODES(i) - 0.5), 1e-11, 1e-11 * ACC, "exact", mc::cat("cell ", k - 1, " component ", v));
      }
    }
}

// every polynomial of degree below N with small coefficients, in 1D
static void polynomials(mc::Ctx &c) {
  int n = N + c.choose(3, "cells");
  double co[8] = {};
  for (int i = 0; i < N; i++)
    co[i] = (c.choose(N > 4 ? 3 : 5, "coefficient") - (N > 4 ? 1 : 2)) * (i ? 0.7 / i : 1.);
  c.shard();
  Vec ub((n + 2 * N) * V);
  auto F = [&](double x) { // the integral
    double r = 0, y = x;
    for (int i = 0; i < N; i++, y *= x)
      r += co[i] * y / (i + 1);
    return r;
  };
  auto f = [&](double x) {
    double r = 0;
    for (int i = N - 1; i >= 0; i--)
      r = r * x + co[i];
    return r;
  };
  for (int i = 0; i < n + 2 * N; i++)
    for (int v = 0; v < V; v++)
      ub(i * V + v) = (F(i - N - 1 + 1.) - F(i - N - 1.)) * (1 + 0.5 * v);
  Vec w = weno(ub, ivec({n}));
  c.step();
  c.state_of(w);
  double sc = ub.cwiseAbs().maxCoeff() + 1;
  for (int k = 0; k < n + 2; k++)
    for (int i = 0; i < N; i++)
      for (int v = 0; v < V; v++)
        c.close(w((k * N + i) * V + v), f(k - 2 + NODES(i)) * (1 + 0.5 * v), 1e-9, 1e-11 * ACC * sc, "exact", mc::cat("cell ", k - 1, " node ", i, " component ", v));
}

// an isolated jump, of either sign, on backgrounds that are nearly flat
static void jump(mc::Ctx &c) {
  int n = N + c.choose(4, "cells"), L = n + 2 * N;
  int at = 1 + c.choose(L - 1, "position");
  static const double J[] = {1, -1, 1e-3, -40, 1e5};
  double j = J[c.choose(5, "height")], base = c.choose(3, "base") * 10.;
  if (N > 4 && base * base > 1e5 * j * j) // not resolved by the indicator in doubles
    throw mc::Skip();
  int back = c.choose(3, "background"), mir = c.choose(2, "mirrored");
  Vec ub(L * V);
  for (int i = 0; i < L; i++)
    for (int v = 0; v < V; v++) {
      int k = mir ? L - 1 - i : i;
      double x = base + (k >= at ? j : 0);
      if (back)
        x += j * 1e-3 * (back == 1 ? k : std::sin(0.5 * k));
      ub(i * V + v) = x;
    }
  c.note(mc::cat("jump of ", j, " before cell ", at));
  Vec w = weno(ub, ivec({n}));
  c.step();
  c.state_of(w);
  for (int k = 0; k < n + 2; k++) {
    double tol = 0.03 * std::abs(j) + (N < 5 ? 0 : 1e-5 * base);
    double lo = 1e300, hi = -1e300;
    for (int i = -1; i <= 1; i++) {
      double x = ub((k + N - 1 + i) * V);
      lo = std::min(lo, x);
      hi = std::max(hi, x);
    }
    for (double x = 0; x < 1.05; x += 0.1)
      for (int v = 0; v < V; v += 7) {
        double y = peval(w.data() + k * N * V + v, V, x);
        c.expect(y >= lo - tol && y <= hi + tol, "oscillation",
                 mc::cat("cell ", k - 1, " at ", x, ": ", y, " outside of [", lo, ",", hi, "]"));
      }
  }
}

// ---- 2D -----------------------------------------------------------------------
struct Grid2 {
  int nx, ny;
  Vec ub, w;
  Grid2(int a, int b) : nx(a), ny(b), ub((a + 2 * N) * (b + 2 * N) * V) {}
  double &at(int i, int j, int v) { return ub((i * (ny + 2 * N) + j) * V + v); }
  void run() { w = weno(ub, ivec({nx, ny})); }
  double *pts(int i, int j, int v) { return w.data() + ((i * (ny + 2) + j) * N * N) * V + v; }
  double rec(int i, int j, int a, int b, int v) { return pts(i, j, v)[(a * N + b) * V]; }
  // is (i,j) of the reconstructed cells used by the solvers?
  bool used(int i, int j) { return !((i == 0 || i == nx + 1) && (j == 0 || j == ny + 1)); }
  bool corner(int i, int j) { return (i < N || i >= nx + N) && (j < N || j >= ny + N); }
};
static const int SH[][2] = {{0, 0}, {0, 1}, {2, 0}, {1, 3}};

static void products(mc::Ctx &c) { // x^a y^b exactly, with every pair of degrees at once
  int sh = c.choose(4, "shape");
  Grid2 g(M + SH[sh][0], M + SH[sh][1]);
  int a = c.choose(N, "degree in x"), b = c.choose(N, "degree in y");
  double x0 = -1. - g.nx / 2, y0 = -1. - g.ny / 2.;
  auto I = [](double x, int a) { return (pow(x + 1, a + 1) - pow(x, a + 1)) / (a + 1); };
  for (int i = 0; i < g.nx + 2 * N; i++)
    for (int j = 0; j < g.ny + 2 * N; j++)
      for (int v = 0; v < V; v++)
        g.at(i, j, v) = 1 + (v + 1) * I(i + x0, a) * I(j + y0, b) + 0.3 * I(i + x0, N - 1) - 0.2 * I(j + y0, N - 1);
  g.run();
  c.step();
  c.state_of(g.w);
  double sc = g.ub.cwiseAbs().maxCoeff() + 1;
  for (int i = 0; i < g.nx + 2; i++)
    for (int j = 0; j < g.ny + 2; j++)
      for (int p = 0; p < N; p++)
        for (int q = 0; q < N; q++)
          for (int v = 0; v < V; v++) {
            double x = i + N - 1 + x0 + NODES(p), y = j + N - 1 + y0 + NODES(q);
            double want = 1 + (v + 1) * pow(x, a) * pow(y, b) + 0.3 * pow(x, N - 1) - 0.2 * pow(y, N - 1);
            c.close(g.rec(i, j, p, q, v), want, 1e-9, 1e-10 * ACC * sc, "exact 2D", mc::cat("cell ", i - 1, ",", j - 1, " component ", v));
          }
}

// patterns: which cells of a small pattern are raised; averages, symmetry, corners
static void patterns(mc::Ctx &c) {
  int sh = c.choose(2, "shape");
  int nx = M + SH[sh][0], ny = M + SH[sh][1], mx = nx + 2 * N, my = ny + 2 * N;
  // a small window of arbitrary bits at every position of the extended grid
  int sx = N > 3 ? 1 : N > 2 && !mc::thorough ? 2 : 3, sy = N > 3 || !mc::thorough ? 2 : 3;
  int bits = c.choose(1 << (sx * sy), "window");
  c.shard();
  int wx = c.choose(mx - sx + 1, "window x"), wy = c.choose(my - sy + 1, "window y");
  int bg = c.choose(2, "background");
  Grid2 g(nx, ny);
  for (int i = 0; i < mx; i++)
    for (int j = 0; j < my; j++)
      for (int v = 0; v < V; v++) {
        int a = i - wx, b = j - wy;
        double x = a >= 0 && a < sx && b >= 0 && b < sy && (bits >> (sy * a + b) & 1) ? 2. : bg ? 0.1 * i - 0.2 * j + 0.03 * i * j : 1.;
        g.at(i, j, v) = v == 0 ? x : v == 1 ? -3 * x : v == 2 ? 1 : x + 0.01 * v * std::sin(i + 2. * j);
      }
  g.run();
  c.step();
  c.state_of(g.w);
  // corner cells of the ghost layers only matter for themselves
  Grid2 h = g, mxg = g, myg = g;
  for (int i = 0; i < mx; i++)
    for (int j = 0; j < my; j++)
      for (int v = 0; v < V; v++) {
        if (h.corner(i, j))
          h.at(i, j, v) = g.at(i, j, v) * 1.7 + 0.4 * (i - j) + 0.3;
        mxg.at(i, j, v) = g.at(mx - 1 - i, j, v);
        myg.at(i, j, v) = g.at(i, my - 1 - j, v);
      }
  mxg.run();
  myg.run();
  c.step(2);
  if (NO_CORNERS) {
    h.run();
    c.step();
  }
  for (int i = 0; i < nx + 2; i++)
    for (int j = 0; j < ny + 2; j++)
      for (int v = 0; v < V; v++) {
        double m = 0, sc = 10;
        for (int p = 0; p < N; p++)
          for (int q = 0; q < N; q++) {
            double x = g.rec(i, j, p, q, v);
            c.expect(std::isfinite(x), "finite", mc::cat("cell ", i - 1, ",", j - 1));
            m += WGHTS(p) * WGHTS(q) * x;
            if (v == 1)
              c.close(x, -3 * g.rec(i, j, p, q, 0), 1e-10, 1e-10 * NONLIN * sc, "independent", mc::cat("cell ", i - 1, ",", j - 1));
            c.close(mxg.rec(nx + 1 - i, j, N - 1 - p, q, v), x, 1e-8, 1e-8 * NONLIN * sc, "mirror", mc::cat("in x, cell ", i - 1, ",", j - 1, " component ", v));
            c.close(myg.rec(i, ny + 1 - j, p, N - 1 - q, v), x, 1e-8, 1e-8 * NONLIN * sc, "mirror", mc::cat("in y, cell ", i - 1, ",", j - 1, " component ", v));
            if (NO_CORNERS && g.used(i, j))
              c.close(h.rec(i, j, p, q, v), x, 1e-12, 1e-12 * NONLIN * sc, "corners", mc::cat("cell ", i - 1, ",", j - 1, " component ", v));
          }
        c.close(m, g.at(i + N - 1, j + N - 1, v), 0, 1e-11 * ACC * sc, "average", mc::cat("cell ", i - 1, ",", j - 1, " component ", v));
      }
}

// data along one axis: as in 1D
static void axes(mc::Ctx &c) {
  int sh = c.choose(4, "shape"), ax = c.choose(2, "axis");
  int nx = M + SH[sh][0], ny = M + SH[sh][1], mx = nx + 2 * N, my = ny + 2 * N;
  int n = ax ? ny : nx, L = n + 2 * N;
  static const double AL[] = {0, 1, -0.5};
  std::vector<double> s(L);
  int al = L <= 6 ? 3 : 2, free = std::min(L, mc::thorough ? 11 : 9);
  for (int i = 0; i < L; i++) {
    s[i] = i < free ? AL[c.choose(al, "value")] : AL[i % 3];
    if (i == 3)
      c.shard();
  }
  Grid2 g(nx, ny);
  Vec u1(L * V);
  for (int i = 0; i < mx; i++)
    for (int j = 0; j < my; j++)
      for (int v = 0; v < V; v++) {
        int k = ax ? j : i;
        g.at(i, j, v) = u1(k * V + v) = s[k] * (1 + v) + 0.1 * (v % 3) * k;
      }
  g.run();
  Vec w1 = weno(u1, ivec({n}));
  c.step(2);
  c.state_of(g.w);
  for (int i = 0; i < nx + 2; i++)
    for (int j = 0; j < ny + 2; j++)
      if (g.used(i, j)) {
        // ghost columns and rows next to the corners use fewer stencils
        bool edge = ax == 0 ? (j == 0 || j == ny + 1) : (i == 0 || i == nx + 1);
        if (NO_CORNERS && edge)
          continue;
        for (int p = 0; p < N; p++)
          for (int q = 0; q < N; q++)
            for (int v = 0; v < V; v++)
              c.close(g.rec(i, j, p, q, v), w1(((ax ? j : i) * N + (ax ? q : p)) * V + v), 1e-9, 1e-9 * NONLIN * (V + 2), "axis", mc::cat("cell ", i - 1, ",", j - 1, " component ", v));
      }
}

int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"sequences", sequences}, {"polynomials", polynomials}, {"jump", jump}, {"products", products}, {"patterns", patterns}, {"axes", axes}});
}
