// P20: split relaxation of strain and heat flux
#include "evolve.h"
#include "src/solvers/split/ode.h"
#include "src/system/relaxation/analytic.h"
using namespace gpr;
typedef long double R;

static const double STRAIN[] = {0.02, 0.1, 0.3, 0.6, 1};
// unimodular distortions of growing strain
static Mat3_3 strain(int kind, double e) {
  Mat3_3 A = Mat3_3::Identity();
  switch (kind) {
  case 0: A.diagonal() << exp(e), exp(-e / 2), exp(-e / 2); break; // two equal stretches
  case 1: A.diagonal() << exp(e / 2), exp(e / 2), exp(-e); break;
  case 2: A(0, 1) = e; break;
  case 3: A.diagonal() << exp(-0.3 * e), exp(e), exp(-0.7 * e); break;
  default: {
    Mat3_3 S = Mat3_3::Identity() + e * (shape(kind - 4 + 3) - Mat3_3::Identity());
    A = S / cbrt(S.determinant());
  }
  }
  return A;
}
static const int NK = 7;
static VecV make(const Par &m, const Mat3_3 &A, int comp, int vel) {
  Prim w = prim(m, comp, 0, vel, 1);
  w.A = A * cbrt(w.ρ / m.ρ0);
  return conserved(w, m);
}
static Mat3_3 Aof(const VecV &q) { return Eigen::Map<const Mat3_3>(q.data() + 5); }
// 1 if the principal stretches are well separated, 0 if two are equal
static double apart(const VecV &q) {
  Mat3_3 A = Aof(q);
  Eigen::JacobiSVD<Mat3_3> d(A);
  Vec3 s = d.singularValues().array().square();
  double u = pow(s(0) - s(1), 2) + pow(s(1) - s(2), 2) + pow(s(2) - s(0), 2);
  double v = (s(0) - s(1)) * (s(1) - s(2)) * (s(0) - s(2));
  return u > 0 ? 54 * v * v / (u * u * u) : 0;
}
static double shear(const VecV &q, const Par &m) { // norm of the shear stress
  return (double)ref::von_mises(ref::stress(ref::st(q), m));
}
static R rate(const VecV &q, const Par &m) { // norm of the exact rate of the distortion
  auto d = ref::source(ref::st(q), m);
  R s = 0;
  for (int i = 5; i < 14; i++)
    s += d[i] * d[i];
  return sqrtl(s);
}
static int shape_of; // shape of the current strain
static void setup(mc::Ctx &c, Par &m, VecV &q, Mat3_3 &A, std::string &w, double &e, bool few) {
  int k = MULTI ? AIR : c.choose(few && !mc::thorough ? 8 : NMAT, "material");
  m = mild(k);
  e = STRAIN[c.choose(5, "strain")];
  int kind = c.choose(NK, "shape");
  A = strain(kind, e);
  shape_of = kind;
  int comp = c.choose(2, "compression");
  int flip = c.choose(2, "rotated");
  if (flip)
    A = rotation(0.4, -0.9, 1.3) * A * rotation(-0.7, 0.2, 0.5);
  q = make(m, A, comp, 1);
  w = mc::cat(name(k), " shape ", kind, " strain ", e, comp ? " compressed" : "", flip ? " rotated" : "");
  c.note(w);
}
static VecV relax(mc::Ctx &c, VecV q, double dt, Par m) {
  Guarded<Vec> g((Vec)q);
  ode_launcher(g.seg(), dt, m);
  c.step();
  c.expect(g.intact(), "outside", "wrote outside of the state");
  return g.get();
}
// rate at the start: the mean squared stretch follows the relaxation equation exactly
static void start(mc::Ctx &c) {
  Par m;
  VecV q;
  Mat3_3 A;
  std::string w;
  double e;
  setup(c, m, q, A, w, e, false);
  c.shard();
  R n = rate(q, m);
  auto d = ref::source(ref::st(q), m);
  if (n == 0) { // elastic, or below the yield stress
    for (double dt : {1e-3, 1., 1e4}) {
      VecV r = relax(c, q, dt, m);
      c.state_of(r);
      c.close_all(Vec(r.head<14>()), Vec(q.head<14>()), 1e-14, 0, "elastic", w + ": strain relaxed where it must not");
    }
    return;
  }
  R want = 0;
  for (int i = 5; i < 14; i++)
    want += 2 * q(i) * d[i];
  double a[2], h = 2e-3 * A.norm() / (double)n * std::min(e, 0.2);
  for (int k = 0; k < 2; k++) {
    double t = h / (k + 1);
    VecV r = relax(c, q, t, m);
    c.state_of(r);
    a[k] = (Aof(r).squaredNorm() - Aof(q).squaredNorm()) / t;
  }
  c.close(2 * a[1] - a[0], (double)want, apart(q) > 0.05 ? 2e-3 : 0.02 + 0.8 * e, 1e-12, "rate", w + ": rate of the mean squared stretch");
}
// properties of steps of every length
static void steps(mc::Ctx &c) {
  Par m;
  VecV q;
  Mat3_3 A;
  std::string w;
  double e;
  setup(c, m, q, A, w, e, false);
  c.shard();
  if (e > 0.7) { // beyond the linearisation
    for (int k = -8; k < 14; k++)
      c.expect(finite(relax(c, q, e / (1e-300 + (double)rate(q, m)) * pow(2., k), m)), shape_of == 0 || shape_of == 3 ? "large-strain" : "finite", w + ": not finite");
    return;
  }
  bool sep = apart(q) > 0.05;
  R n = rate(q, m);
  double T = n > 0 ? e / (double)n : 1;
  double last = shear(q, m), s0 = last;
  double scl = std::abs(q(1)) + 1;
  VecV r0 = relax(c, q, 0, m);
  c.close_all(Vec(r0.head<14>()), Vec(q.head<14>()), 2e-7 , 2e-7, "zero-time", w + ": a step of no time changed the state");
  Mat3_3 A0 = Aof(q);
  double det = A0.determinant();
  Eigen::SelfAdjointEigenSolver<Mat3_3> es(A0 * A0.transpose());
  for (int k = -8; k < 14; k += mc::thorough ? 1 : 3) {
    double t = T * pow(2., k);
    std::string wt = w + mc::cat(", step ", t);
    VecV r = relax(c, q, t, m);
    c.state_of(r);
    c.expect(finite(r), "finite", wt + ": not finite");
    for (int i = 0; i < V; i++)
      if (i < 5 || (i >= 14 && !(THERMAL && i < 17)))
        c.expect(r(i) == q(i), "others", wt + mc::cat(": variable ", i, " was changed"));
    Mat3_3 B = Aof(r);
    c.close(B.determinant(), det, 1e-11, 0, "volume", wt + ": determinant");
    // B = P A with P symmetric, positive, and with the axes of A A^T
    Mat3_3 P = B * A0.inverse(), PT = P.transpose();
    double cond = A0.norm() * A0.inverse().norm();
    c.close_all(PT, P, 0, 1e-9 * cond, "axes", wt + ": symmetric stretch");
    Mat3_3 X = A0 * A0.transpose(), K1 = P * X, K2 = X * P;
    c.close_all(K1, K2, 0, 1e-9 * cond, "axes", wt + ": common axes");
    // each principal stretch moves towards the others without overtaking
    Eigen::JacobiSVD<Mat3_3> s1(A0), s2(B);
    Vec3 x = s1.singularValues(), y = s2.singularValues();
    Mat3_3 U = es.eigenvectors();
    Vec3 z;
    for (int i = 0; i < 3; i++) // stretch along the i-th axis, ascending
      z(i) = (U.col(i).transpose() * B).norm();
    double tol = 2e-7 * x(0);
    bool equal = x(0) - x(1) < 1e-6 || x(1) - x(2) < 1e-6; // the axes are not unique
    c.expect(equal || (z(0) <= z(1) + tol && z(1) <= z(2) + tol), "order", wt + mc::cat(": order of the stretches was reversed: ", z.transpose()));
    c.expect(y(0) - y(2) <= (x(0) - x(2)) * (1 + 0.06 * e) + tol, "spread", wt + mc::cat(": the stretches ", x.transpose(), " moved apart to ", y.transpose()));
    double sh = shear(r, m);
    c.expect(sh <= last * (1 + 1e-9 + (sep ? 0 : 0.08 * e)) + 1e-6 * s0, "monotone", wt + mc::cat(": shear stress ", sh, " is more than ", last, " after a shorter step"));
    last = sh;
    // the mean squared stretch decays at most down to that of no strain
    c.expect(B.squaredNorm() >= 3 * cbrt(det * det) * (1 - 1e-9) && B.squaredNorm() <= A0.squaredNorm() * (1 + 1e-7), "energy", wt + ": mean squared stretch out of bounds");
    // rotations of the body and of the reference
    static const double RT[][3] = {{0.3, 1.1, -0.4}, {M_PI / 2, 0, 0}, {-2, 0.6, 2.2}};
    for (auto &t3 : RT) {
      Mat3_3 Q = rotation(t3[0], t3[1], t3[2]);
      VecV q2 = q, q3 = q;
      Eigen::Map<Mat3_3>(q2.data() + 5) = A0 * Q.transpose();
      Eigen::Map<Mat3_3>(q3.data() + 5) = Q * A0;
      VecV r2 = relax(c, q2, t, m), r3 = relax(c, q3, t, m);
      c.close_all(Mat3_3(Aof(r2) * Q), B, 0, sep ? 1e-6 : 0.4 * e, "rotation", wt + ": rotated space");
      c.close_all(Mat3_3(Q.transpose() * Aof(r3)), B, 0, sep ? 1e-6 : 0.4 * e, "rotation", wt + ": rotated reference");
    }
    // linear relaxation: two steps equal one of the same length
    if (!m.POWER_LAW && !m.BINGHAM && sep && e < 0.2) {
      VecV r2 = relax(c, relax(c, q, 0.3 * t, m), 0.7 * t, m);
      c.close_all(Mat3_3(Aof(r2)), B, 0, 2e-6 * cond, "composition", wt + ": two shorter steps");
    }
  }
}
// the whole path against the relaxation equation: the error vanishes with the strain
static void path(mc::Ctx &c) {
  Par m;
  VecV q;
  Mat3_3 A;
  std::string w;
  double e;
  setup(c, m, q, A, w, e, true);
  if (e > 0.5)
    throw mc::Skip();
  c.shard();
  R n = rate(q, m);
  if (n == 0)
    throw mc::Skip();
  double T = e / (double)n;
  ref::St s = ref::st(q);
  double s0 = shear(q, m), t = 0, big = 0;
  for (int k = 0; k < 3; k++) {
    double tf = T * (k == 0 ? 0.1 : k == 1 ? 0.5 : 2), done = t;
    int nstep = m.BINGHAM ? 160 : 60;
    R h = (tf - done) / nstep;
    for (int i = 0; i < nstep; i++) { // Runge-Kutta
      auto f = [&](const ref::St &x) { return ref::source(x, m); };
      auto add = [&](const ref::St &x, const ref::St &d, R a) {
        ref::St y = x;
        for (int v = 5; v < 14; v++)
          y[v] += a * d[v];
        return y;
      };
      auto k1 = f(s), k2 = f(add(s, k1, h / 2)), k3 = f(add(s, k2, h / 2)), k4 = f(add(s, k3, h));
      for (int v = 5; v < 14; v++)
        s[v] += h / 6 * (k1[v] + 2 * k2[v] + 2 * k3[v] + k4[v]);
    }
    t = tf;
    // many small steps, so that only the error of each rate remains
    int split = m.BINGHAM || m.POWER_LAW ? 40 : 1;
    VecV r = q;
    for (int i = 0; i < split; i++)
      r = relax(c, r, tf / split, m);
    double D = 0;
    Mat3_3 B = Aof(r);
    for (int i = 0; i < 9; i++)
      D = std::max(D, std::abs(B(i / 3, i % 3) - (double)s[5 + i]));
    big = std::max(big, D / e);
    double got = shear(r, m), want = (double)ref::von_mises(ref::stress(s, m));
    c.state_of(r);
    c.close(got, want, 0, s0 * (0.02 + 0.9 * e), "path", w + mc::cat(": shear stress after time ", tf, " of ", T));
    c.expect(D <= e * (0.02 + 1.2 * e) * A.norm(), "path-strain", w + mc::cat(": distortion after time ", tf, " of ", T, " differs by ", D));
  }
  (void)big;
}
// body forces: impulse on the momentum and nothing else (strain at rest)
static void force(mc::Ctx &c) {
  int k = MULTI ? AIR : c.choose(NMAT, "material");
  Par m = mild(k);
  static const double F[] = {0, 0.7, -2};
  for (int i = 0; i < 3; i++)
    m.δp(i) = F[c.choose(3, "force")];
  int vel = c.choose(3, "velocity");
  double dt = c.choose(2, "step") ? 0.8 : 1e-3;
  int cells = 1 + c.choose(3, "cells");
  c.shard();
  Vec u(cells * V);
  for (int i = 0; i < cells; i++) {
    VecV q = make(m, Mat3_3::Identity(), i % 2, vel);
    if (THERMAL)
      q.segment<3>(14).setZero();
    u.segment<V>(i * V) = q;
  }
  Vec r = u;
  ode_launcher(r, dt, m);
  c.step(cells);
  c.state_of(r);
  for (int i = 0; i < cells * V; i++) {
    int v = i % V;
    double want = u(i) + (v >= 2 && v < 5 ? dt * m.δp(v - 2) : 0);
    c.close(r(i), want, 1e-14, 1e-14, "force", mc::cat(name(k), " cell ", i / V, " variable ", v));
  }
}
// every cell of a grid relaxes by itself
static void cells(mc::Ctx &c) {
  int k = MULTI ? AIR : c.choose(NMAT, "material"), n = 1 + c.choose(4, "cells");
  Par m = mild(k);
  Vec u(n * V);
  for (int i = 0; i < n; i++)
    u.segment<V>(i * V) = make(m, strain(c.choose(4, "shape"), 0.4), i % 2, i % 3);
  c.shard();
  Vec r = u;
  ode_launcher(r, 0.3, m);
  c.step(n);
  c.state_of(r);
  for (int i = 0; i < n; i++) {
    VecV one = relax(c, u.segment<V>(i * V), 0.3, m);
    c.expect((one - r.segment<V>(i * V)).cwiseAbs().maxCoeff() <= 1e-13 * (1 + one.cwiseAbs().maxCoeff()), "cells", mc::cat(name(k), ": cell ", i, " of ", n, " differs from the cell by itself"));
  }
}
// thermal impulse: exact solution of its equation, at the strain after the step
static void heat(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = mild(k);
  m.κ *= c.choose(2, "conductivity") ? 20 : 1;
  int comp = c.choose(3, "compression"), vel = c.choose(4, "velocity"), pres = c.choose(3, "pressure");
  double amp = c.choose(2, "amplitude") ? 4 : 0.5;
  static const double DT[] = {0, 1e-3, 0.05, 0.4, 3};
  double dt = DT[c.choose(5, "step")];
  c.shard();
  Prim w0 = prim(m, comp, 0, vel, pres);
  for (int i = 0; i < 3; i++)
    w0.J[i] *= amp;
  VecV q = conserved(w0, m);
  std::string w = mc::cat(name(k), " compression ", comp, " velocity ", vel, " pressure ", pres, " step ", dt);
  c.note(w);
  VecV r = relax(c, q, dt, m);
  c.state_of(r);
  // J' = -α² T(J) / (κ ρ) J, by Runge-Kutta
  auto T = [&](R y) { // temperature with impulse y J0
    ref::St s = ref::st(q);
    for (int i = 14; i < 17; i++)
      s[i] *= y;
    return ref::temperature(s, m);
  };
  R fac = (R)m.cα2 / ((R)m.κ * q(0)), y = 1;
  R stiff = fac * T(0) * dt;
  int n = 40 + (int)std::min<R>(20000, 40 * stiff);
  R h = dt / (R)n;
  auto f = [&](R y) { return -fac * T(y) * y; };
  for (int i = 0; i < n; i++) {
    R a = f(y), b = f(y + h / 2 * a), d = f(y + h / 2 * b), e = f(y + h * d);
    y += h / 6 * (a + 2 * b + 2 * d + e);
  }
  for (int i = 0; i < V; i++) {
    if (i >= 14 && i < 17)
      c.close(r(i), (double)(q(i) * y), 1e-6, 1e-9, "heat", w + mc::cat(": impulse ", i - 14));
    else if (i < 5 || i > 16)
      c.expect(r(i) == q(i), "others", w + mc::cat(": variable ", i, " was changed"));
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"start", start, 20});
  s.push_back({"steps", steps, 20});
  s.push_back({"path", path, 20});
  s.push_back({"force", force, 20});
  s.push_back({"cells", cells, 20});
  if (THERMAL && !MULTI)
    s.push_back({"heat", heat, 20});
  return mc::main_(argc, argv, s);
}
