// P10: evolving commutes with reflections, exchanges, translations and extrusion
#include "evolve.h"
#include "src/solvers/dg/dg.h"
#include "src/solvers/fv/fv.h"
#include "src/solvers/split/homogeneous.h"
using namespace gpr;

static const int MATS[] = {AIR, SOLID_SMG, EXPL_CC, PLASTIC_GR, BINGHAM_SG};
static Par pick(mc::Ctx &c) {
  if (MULTI) {
    Par m = mild(EXPL_JWL);
    m.REACTION = 0;
    m.Kc = 0.4; m.Ti = 0.1; m.Qc = 0.5;
    return m;
  }
  return mild(MATS[c.choose(mc::thorough ? 5 : 3, "material")]);
}
static double tol(int flux) { return flux == RUSANOV ? 2e-11 : 1e-6; }
struct Op {
  int st, fl, big;
  double dt;
  std::string name;
};
static Op op(mc::Ctx &c, const Domain &D, bool stiff) {
  Op o;
  o.st = c.choose(stiff ? 4 : 3, "stepper");
  o.fl = c.choose(3, "flux");
  int big = mc::thorough ? c.choose(2, "dt") : o.st == ADER;
  o.big = big;
  o.dt = (big ? 0.14 : 0.03) * D.dX.minCoeff() / D.ndim();
  o.name = mc::cat(" ", stepper_name(o.st), "/", flux_name(o.fl), " dt=", o.dt);
  return o;
}
// the closed form of the split scheme takes roots of differences that may vanish
// ... and the absolute value of a matrix that is not diagonalizable, as next to a
// wall, is only determined up to the root of the rounding errors
static double tol_of(const Op &o) { return o.st == ADER_STIFF ? 1e-5 : std::max(tol(o.fl), o.st == ADER ? 0. : 2e-7); }
// blur: how far this history amplifies rounding errors; asked for only if there is a difference
static void grid_close(mc::Ctx &c, const Vec &got, const Vec &want, double tol, const char *key, const std::string &w, bool split, std::function<double()> blur) {
  double sc = scale(want), b = -1;
  for (long i = 0; i < want.size(); i++) {
    double t = split ? std::max(tol, i % V >= 5 && i % V < 14 ? 1e-4 : 2e-5) : tol;
    if (!(std::abs(got(i) - want(i)) <= t * sc)) {
      b = b < 0 ? blur() : b;
      if (!(b < 1e-3 * sc)) // rounding decides
        throw mc::Skip();
      t += 30 * b / sc;
    }
    c.close(got(i), want(i), 0, t * sc, key, mc::cat("cell ", i / V, " component ", i % V, " after", w));
  }
}
typedef std::function<Vec(const Vec &)> Map;

// after a first split step strains are small and nearly isotropic: the split relaxation
// divides them between the axes only up to their size
// evolves u and its image side by side
static void both(mc::Ctx &c, const char *key, Vec u, Domain D, Domain E, Map f, int depth, Par m, bool stiff) {
  Par m2 = m;
  Vec w = f(u), u0 = u;
  std::vector<Op> ops;
  std::string s;
  double t = 0;
  bool split = false, before;
  int any_big = 0;
  for (int k = 0; k < depth; k++) {
    Op o = op(c, D, stiff);
    before = split;
    split |= o.st == SPLIT_FULL || o.st == SPLIT_HALF;
    s += o.name;
    t = std::max(t, o.fl == ROE && D.bt.maxCoeff() > 1 ? 1e-4 : tol_of(o)) * (k ? 4 : 1);
    c.note(mc::cat(key, " cells ", D.nX.transpose(), s));
    if (k == 0)
      c.shard();
    step(u, D, o.st, o.fl, o.dt, m);
    step(w, E, o.st, o.fl, o.dt, m2);
    c.step(2);
    c.state_of(u);
    any_big |= o.big;
    if (any_big && (!all_finite(u) || !all_finite(w)))
      throw mc::Skip(); // a step near the limit of stability: not what is claimed here
    c.expect(all_finite(u), "finite", "the solution is not finite after" + s);
    ops.push_back(o);
    grid_close(c, w, f(u), t, key, s, before, [&] {
      double b = 0;
      for (double noise : {1e-15, -7e-15, 2e-13}) {
        Vec x = u0;
        for (int i = 0; i < x.size(); i++)
          if (i % V < V - LSET)
            x(i) *= 1 + noise * ((i * 7 + 3) % 5 - 2);
        for (Op &p : ops)
          step(x, D, p.st, p.fl, p.dt, m);
        double d = (x - u).cwiseAbs().maxCoeff();
        b = d <= b ? b : d;
        if (!(d < INFINITY))
          return (double)INFINITY;
      }
      return b;
    });
  }
}
static bool reflectable(int b) { return b != B_MOVING; }

static void one(mc::Ctx &c) {
  Par m = pick(c);
  int kind = 1 + c.choose(2, "map"); // reflection, translation
  int n = std::max(N, 2) + (N == 2 ? 1 : 0);
  static const int B[][2] = {{B_PERIODIC, B_PERIODIC}, {B_TRANSMISSIVE, B_SLIP}, {B_STICK, B_SYMMETRIC}, {B_SYMMETRIC, B_TRANSMISSIVE}};
  int b = kind == 2 ? 0 : c.choose(4, "boundaries");
  Vec u(n * V);
  int diff = 0, k0 = 0;
  for (int i = 0; i < n; i++) {
    int k = c.choose(i < 3 ? 3 : 1, "state");
    u.segment<V>(i * V) = grid_state(m, k, 0.4);
    if (!i) k0 = k;
    diff |= k != k0;
  }
  if (!diff)
    throw mc::Skip();
  Domain D = line(n, 0.8, B[b][0], B[b][1]), E = line(n, 0.8, B[b][1], B[b][0]);
  Mat3_3 R = reflection(0);
  Map f;
  if (kind < 2)
    f = [=](const Vec &x) {
      Vec y(x.size());
      for (int i = 0; i < n; i++) {
        VecV q = cell(x, n - 1 - i);
        y.segment<V>(i * V) = transform2(q, R);
      }
      return y;
    };
  else
    f = [=](const Vec &x) {
      Vec y(x.size());
      for (int i = 0; i < n; i++)
        y.segment<V>(i * V) = x.segment<V>((i + 1) % n * V);
      return y;
    };
  both(c, kind < 2 ? "reflection" : "translation", u, D, E, f, mc::thorough ? 2 : 1 + c.choose(2, "steps"), m, kind == 1 && b == 0 && N == 2 && !MULTI);
}
// reflections in y and z of 1D data, and exchanging y and z
static void transverse(mc::Ctx &c) {
  Par m = pick(c);
  int kind = c.choose(3, "map");
  int n = std::max(N, 2);
  static const int B[][2] = {{B_PERIODIC, B_PERIODIC}, {B_TRANSMISSIVE, B_SLIP}, {B_STICK, B_TRANSMISSIVE}, {B_MOVING, B_SLIP}, {B_SLIP, B_MOVING}};
  int b = c.choose(5, "boundaries");
  Vec u(n * V);
  for (int i = 0; i < n; i++)
    u.segment<V>(i * V) = grid_state(m, i == 0 ? 1 + c.choose(2, "state") : c.choose(i < 2 ? 3 : 1, "state"), 0.4);
  Domain D = line(n, 0.8, B[b][0], B[b][1]);
  Mat3_3 R = kind == 2 ? exchange(1, 2) : reflection(1 + kind);
  Map f = [=](const Vec &x) {
    Vec y(x.size());
    for (int i = 0; i < n; i++)
      y.segment<V>(i * V) = transform2(cell(x, i), R);
    return y;
  };
  both(c, kind == 2 ? "exchange-yz" : "reflection-transverse", u, D, D, f, 2, m, false);
}
// 2D data
static void two(mc::Ctx &c) {
  Par m = pick(c);
  int map = c.choose(4, "map"); // reflection x, y, z; translation
  int sh = N == 2 ? c.choose(2, "shape") : 0;
  int nx = N == 2 ? (sh ? 3 : 2) : N, ny = N == 2 ? (sh ? 2 : 3) : N;
  int p = c.choose(4, "pattern");
  Vec u(nx * ny * V);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      int k = p == 0 ? (i == 0 && j == 0) * 2 : p == 1 ? (i * 2 + j) % 3 : p == 2 ? (i == j ? 1 : 2 * (j == 0)) : (i == nx - 1 && j > 0 ? 1 : 2 * (j % 2));
      u.segment<V>((i * ny + j) * V) = grid_state(m, k, 0.3);
    }
  static const int B[][4] = {{B_PERIODIC, B_PERIODIC, B_PERIODIC, B_PERIODIC}, {B_TRANSMISSIVE, B_SLIP, B_STICK, B_TRANSMISSIVE}, {B_SLIP, B_STICK, B_PERIODIC, B_PERIODIC}, {B_PERIODIC, B_PERIODIC, B_MOVING, B_STICK}};
  int b = map == 3 ? 0 : c.choose(4, "boundaries");
  if (map == 3 && NO_CORNERS)
    throw mc::Skip();
  Domain D = plane(nx, ny, 0.8, 0.55, B[b][0], B[b][1], B[b][2], B[b][3]), E = D;
  if (map == 0)
    std::swap(E.bt(0), E.bt(1));
  if (map == 1)
    std::swap(E.bt(2), E.bt(3));
  if (map == 0 && b == 3) // the wall moves along x
    throw mc::Skip();
  Map f;
  if (map < 3) {
    Mat3_3 R = reflection(map);
    f = [=](const Vec &x) {
      Vec y(x.size());
      for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
          int a = map == 0 ? nx - 1 - i : i, e = map == 1 ? ny - 1 - j : j;
          y.segment<V>((i * ny + j) * V) = transform2(cell(x, a * ny + e), R);
        }
      return y;
    };
  } else {
    int dx = c.choose(2, "dx"), dy = dx ? c.choose(2, "dy") : 1;
    f = [=](const Vec &x) {
      Vec y(x.size());
      for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++)
          y.segment<V>((i * ny + j) * V) = x.segment<V>(((i + dx) % nx * ny + (j + dy) % ny) * V);
      return y;
    };
  }
  both(c, map < 3 ? "reflection-2d" : "translation-2d", u, D, E, f, mc::thorough ? 2 : 1, m, false);
}
// 1D data extended along the other axis, against the 1D solution
static void extrude(mc::Ctx &c) {
  Par m = pick(c);
  int axis = c.choose(2, "axis"), w = N + c.choose(mc::thorough ? 2 : 1, "width"); // data vary along this axis
  int n = 2 * N + 1;
  static const int B[][2] = {{B_PERIODIC, B_PERIODIC}, {B_TRANSMISSIVE, B_SLIP}, {B_SLIP, B_STICK}};
  static const int S[][2] = {{B_PERIODIC, B_PERIODIC}, {B_TRANSMISSIVE, B_TRANSMISSIVE}};
  int b = c.choose(3, "boundaries"), s = c.choose(2, "sides"), p = c.choose(3, "pattern");
  if (b == 1 && NO_CORNERS)
    b = 0; // the ghost cells of a wall are not flat
  if (b == 2 && NO_CORNERS)
    throw mc::Skip();
  Vec u(n * V);
  for (int i = 0; i < n; i++) {
    int k = NO_CORNERS ? (i == N ? 1 + p : 0) : (p == 0 ? i % 3 : p == 1 ? (i < 2 ? 1 : 2) : (i == 1 ? 3 : 0));
    u.segment<V>(i * V) = grid_state(m, k, 0.4);
  }
  Domain D = line(n, 0.8, B[b][0], B[b][1]);
  Domain E = axis == 0 ? plane(n, w, 0.8, 0.6, B[b][0], B[b][1], S[s][0], S[s][1])
                       : plane(w, n, 0.6, 0.8, S[s][0], S[s][1], B[b][0], B[b][1]);
  Mat3_3 R = axis ? exchange(0, 1) : Mat3_3(Mat3_3::Identity());
  Map f = [=](const Vec &x) {
    Vec y(n * w * V);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < w; j++)
        y.segment<V>((axis ? j * n + i : i * w + j) * V) = transform2(cell(x, i), R);
    return y;
  };
  both(c, "extrusion", u, D, E, f, NO_CORNERS ? 1 : 2, m, false);
}
// exchanging the axes of reconstructed 2D data: predictors, half step and fluxes
static void exchange_axes(mc::Ctx &c) {
  Par m = pick(c), m2 = m;
  int nx = 1 + c.choose(2, "nx"), ny = 2;
  int what = c.choose(3, "operation"), fl = c.choose(3, "flux"), p = c.choose(4, "data");
  c.shard();
  int cx = nx + 2, cy = ny + 2, K = N * N;
  Vec wh(cx * cy * K * V), wt(wh.size());
  auto at = [&](int i, int j, int s) { return grid_state(m, (i * (p + 1) + j * (1 + p / 2) + (p == 3 ? s : 0)) % 3, 0.6); };
  Mat3_3 R = exchange(0, 1);
  for (int i = 0; i < cx; i++)
    for (int j = 0; j < cy; j++)
      for (int a = 0; a < N; a++)
        for (int b = 0; b < N; b++) {
          VecV q = at(i, j, a * 2 + b), q0 = at(i, j, 0);
          VecV r = at(i + 1, j, 1), t = at(i, j + 1, 2);
          VecV v = q0 + 0.2 * (a + 0.3) / N * (r - q0) + 0.3 * (b + 0.1) / N * (t - q0) + 0.1 * a * b * (q - t);
          wh.segment<V>((((i * cy + j) * N + a) * N + b) * V) = v;
          wt.segment<V>((((j * cx + i) * N + b) * N + a) * V) = transform2(v, R);
        }
  iVec nX = ivec({nx, ny}), nY = ivec({ny, nx});
  Vec dX = dvec({0.8, 0.55}), dY = dvec({0.55, 0.8});
  bVec mask = ones(cx * cy);
  double dt = what == 0 ? 0.05 : 0.02;
  c.note(mc::cat("operation ", what, " flux ", flux_name(fl), " cells ", nx, "x", ny, " data ", p));
  Vec u = Vec::Zero(nx * ny * V), ut = u;
  double t = tol(fl);
  if (what == 0) { // predictor and flux update
    Vec q(cx * cy * K * N * V), qt(q.size());
    predictor(q, wh, dt, dX, false, false, m, mask);
    predictor(qt, wt, dt, dY, false, false, m2, mask);
    for (int i = 0; i < cx; i++)
      for (int j = 0; j < cy; j++)
        for (int s = 0; s < N; s++)
          for (int a = 0; a < N; a++)
            for (int b = 0; b < N; b++) {
              VecV x = q.segment<V>(((((i * cy + j) * N + s) * N + a) * N + b) * V);
              VecV y = qt.segment<V>(((((j * cx + i) * N + s) * N + b) * N + a) * V);
              VecV z = transform2(x, R);
              c.close_all(y, z, 0, 1e-9, "exchange-predictor", mc::cat("predictor of cell ", i, ",", j));
            }
    fv_launcher(u, q, nX, dt, dX, true, true, fl, m, mask);
    fv_launcher(ut, qt, nY, dt, dY, true, true, fl, m2, mask);
  } else {
    if (what == 2) {
      midstepper(wh, dt, dX, m, mask);
      midstepper(wt, dt, dY, m2, mask);
      for (int i = 0; i < cx; i++)
        for (int j = 0; j < cy; j++)
          for (int a = 0; a < N; a++)
            for (int b = 0; b < N; b++) {
              VecV x = wh.segment<V>((((i * cy + j) * N + a) * N + b) * V);
              VecV y = wt.segment<V>((((j * cx + i) * N + b) * N + a) * V);
              VecV z = transform2(x, R);
              c.close_all(y, z, 0, 1e-11, "exchange-halfstep", mc::cat("half step of cell ", i, ",", j));
            }
    }
    fv_launcher(u, wh, nX, dt, dX, false, false, fl, m, mask);
    fv_launcher(ut, wt, nY, dt, dY, false, false, fl, m2, mask);
  }
  c.step(2);
  c.state_of(u);
  c.expect(finite(u) && u.cwiseAbs().maxCoeff() > 1e-6, "trivial", "nothing was computed");
  double sc = scale(u);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      VecV x = transform2(cell(u, i * ny + j), R), y = cell(ut, j * nx + i);
      for (int k = 0; k < V; k++)
        c.close(y(k), x(k), 0, t * sc, "exchange", mc::cat("update of cell ", i, ",", j, " component ", k));
    }
}
int main(int argc, char **argv) {
  return mc::main_(argc, argv, {{"one", one, 60}, {"transverse", transverse, 60}, {"two", two, 120}, {"extrude", extrude, 120}, {"exchange", exchange_axes, 60}});
}
