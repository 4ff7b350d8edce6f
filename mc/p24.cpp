// P24: star states of interfaces
#include "evolve.h"
#include "src/system/multi/riemann.h"
#include "src/system/multi/rotations.h"
#include "src/system/variables/state.h"
using namespace gpr;

static const double NORMAL[][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {-2, -1, 0}, {1, -3, 0}, {0.1, 5, 0},
                                   {0, 0, 1}, {0, 0, -1}, {1, 1, 1}, {-1, 2, -3}, {2, -1, 1}, {1, -1, -1}, {-3, -2, 1}, {0, 1, -1}, {0, 1, 1}};
static const int NN = 18, NN2 = 9;
static Vec3 normal(int k) { return Vec3(NORMAL[k][0], NORMAL[k][1], NORMAL[k][2]).normalized(); }
static Vec3 traction(const VecV &q, const Vec3 &n, const Par &m) { // of the total stress, on the normal
  ref::St s = ref::st(q);
  ref::M3 σ = ref::stress(s, m);
  double p = (double)ref::pressure(s, m);
  Vec3 t;
  for (int i = 0; i < 3; i++) {
    t(i) = p * n(i);
    for (int j = 0; j < 3; j++)
      t(i) -= (double)σ[i][j] * n(j);
  }
  return t;
}
static Vec3 vel(const VecV &q) { return q.segment<3>(2) / q(0); }
static VecV star(mc::Ctx &c, const VecV &l, const VecV &r, Par ml, Par mr, double dt, const Vec3 &n, int ndim) {
  Vec nn = n.head(ndim);
  VecV ret = left_star_state(l, r, ml, mr, dt, nn);
  c.step();
  c.state_of(ret);
  return ret;
}
static Par mat(int k) {
  if (k == NMAT)
    return vacuum();
  Par m = mild(k);
  m.T0 = 1;
  if (THERMAL) { // comparable but different heat waves
    m.cα2 = 0.8 + 0.1 * (k % 3);
    m.κ = 0.05;
  }
  return m;
}
// a state with the material's own density, at a common pressure
static VecV make(const Par &m, double x, double p, const Vec3 &v, int shp, double e, const Vec3 &J) {
  Prim w;
  w.ρ = m.ρ0 * x;
  w.p = p;
  for (int i = 0; i < 3; i++) {
    w.v[i] = v(i);
    w.J[i] = THERMAL ? J(i) : 0;
  }
  Mat3_3 A = Mat3_3::Identity() + e * (shape(shp) - Mat3_3::Identity());
  A *= cbrt(x / A.determinant());
  w.A = A;
  return conserved(w, m);
}
// the system is hyperbolic here: real wave speeds, and the slowest heat wave is not standing
static bool hyperbolic(const VecV &q, const Vec3 &n, const Par &m) {
  Mat3_3 R;
  Vec3 t = n.cross(std::abs(n(0)) < 0.7 ? Vec3(1, 0, 0) : Vec3(0, 1, 0)).normalized();
  R.row(0) = n.transpose();
  R.row(1) = t.transpose();
  R.row(2) = n.cross(t).transpose();
  VecV a = transform2(q, R);
  int k = 17;
  Eigen::MatrixXd M = (ref::jacobian(ref::st(a), 0, m) + ref::block(ref::st(a), 0)).topLeftCorner(k, k);
  M += 0.37 * Eigen::MatrixXd::Identity(k, k);
  return M.eigenvalues().imag().cwiseAbs().maxCoeff() < 1e-3;
}
struct Pair {
  Par l, r;
  VecV L, R;
  Vec3 n;
  int ndim;
  std::string w;
};
static Pair pair_(mc::Ctx &c, double size, bool vac) {
  Pair P;
  int nm = mc::thorough ? NMAT : 8;
  int a = c.choose(nm, "left"), b = vac ? NMAT : c.choose(nm, "right");
  P.l = mat(a);
  P.r = mat(b);
  int jump = c.choose(mc::thorough ? 12 : 7, "jump");
  c.shard();
  int k = mc::thorough ? c.choose(NN, "normal") : std::vector<int>{0, 1, 3, 6, 8, 12, 14}[c.choose(7, "normal")];
  P.n = normal(k);
  P.ndim = k < 2 ? 1 : k < NN2 ? 2 : 3;
  static const double J[][7] = {// pressure, normal velocity, tangential, strain left, right, density, impulse
                                {0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0}, {0, -1, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0, 0}, {-0.5, 0.4, 0.6, 1, 0, 0, 1},
                                {0, 0, 0, 1, -1, 0, 0}, {0.3, -0.2, -0.4, -0.6, 0.8, 1, -1}, {0, 1, 0, 0, 0, 0, 0.5}, {-1, 0, 0, 0, 0, 0, 0},
                                {0, 0, -1, -1, 0, -1, 1}, {0.7, 0.7, 0.7, 0.7, 0.7, 0.7, 0.7}, {0, 0, 0, 0, 0, 0, 1}};
  const double *j = J[jump];
  if (THERMAL && vac) // close to the border of the hyperbolic region
    size *= 0.3;
  Vec3 t = P.n.cross(Vec3(0.3, -0.5, 0.8)).normalized();
  Vec3 v0(0.3, -0.2, 0.1);
  double p = 1.1;
  Vec3 J0 = Vec3(0.05, -0.03, 0.04);
  P.L = make(P.l, 1.05, p, v0, 4, size * 0.5 * j[3], size * j[6] * J0);
  P.R = P.r.EOS == VACUUM ? VecV(VecV::Zero())
                          : make(P.r, 1.05 + 0.1 * size * j[5], p + 0.4 * size * j[0], v0 + 0.3 * size * (j[1] * P.n + j[2] * t), 3, size * 0.5 * j[4], -size * 0.7 * j[6] * J0);
  if (P.r.EOS == VACUUM) // tractions next to a vacuum are small
    P.L = make(P.l, 1.02, 0.02 * size * (1 + j[0]), v0 + 0.3 * size * (j[1] * P.n + j[2] * t), 4, size * 0.5 * j[3], size * j[6] * J0);
  if (THERMAL && !((double)ref::temperature(ref::st(P.L), P.l) > (vac ? 0.3 : 0.05)))
    throw mc::Skip(); // not a state of this material
  if (THERMAL && !(hyperbolic(P.L, P.n, P.l) && (vac || hyperbolic(P.R, P.n, P.r))))
    throw mc::Skip();
  P.w = mc::cat(name(a), " | ", b == NMAT ? "vacuum" : name(b), " jump ", jump, " normal ", P.n.transpose());
  c.note(P.w);
  return P;
}
static double units(const Pair &P) { return P.r.EOS == VACUUM ? P.l.b02 * P.l.ρ0 : std::min(P.l.b02, P.r.b02) * std::min(P.l.ρ0, P.r.ρ0); }
// what the two star states must satisfy
static void satisfied(mc::Ctx &c, const Pair &P, const VecV &L, const VecV &R, double tol, const std::string &w) {
  double s = units(P), v = sqrt(std::min(P.l.b02, P.r.EOS == VACUUM ? P.l.b02 : P.r.b02));
  Vec3 tl = traction(L, P.n, P.l), d = tl, u = Vec3::Zero();
  Vec3 tang = tl - tl.dot(P.n) * P.n;
  bool vac = P.r.EOS == VACUUM;
  if (!vac) {
    d = tl - traction(R, P.n, P.r);
    u = vel(L) - vel(R);
  }
  bool full = RIEMANN_STICK || vac;
  double dn = std::abs(d.dot(P.n)), un = std::abs(u.dot(P.n));
  c.expect(dn <= tol * s, "normal-traction", w + mc::cat(": normal tractions differ by ", dn));
  c.expect(un <= tol * v, "normal-velocity", w + mc::cat(": normal velocities differ by ", un));
  if (full) {
    c.expect(d.norm() <= 3 * tol * s, "traction", w + mc::cat(": tractions differ by ", d.transpose()));
    c.expect(u.norm() <= 3 * tol * v, "velocity", w + mc::cat(": velocities differ by ", u.transpose()));
  }
  if (THERMAL) {
    auto q = [&](const VecV &x, const Par &m) { return m.cα2 * (double)ref::temperature(ref::st(x), m) * x.segment<3>(14).dot(P.n) / x(0); };
    double ql = q(L, P.l), qr = vac ? 0 : q(R, P.r), q0 = 1;
    c.expect(std::abs(ql - qr) <= tol * q0, "heat-flux", w + mc::cat(": normal heat fluxes ", ql, " and ", qr));
    if (!vac) {
      double a = (double)ref::temperature(ref::st(L), P.l), b = (double)ref::temperature(ref::st(R), P.r);
      c.expect(std::abs(a - b) <= tol, "temperature", w + mc::cat(": temperatures ", a, " and ", b));
    }
  }
  if (!RIEMANN_STICK && !vac)
    c.expect(tang.norm() <= 1e-4 * s, "tangential-traction", w + mc::cat(": tangential traction ", tang.norm()));
}
static void conditions(mc::Ctx &c) {
  Pair P = pair_(c, c.choose(2, "size") ? 0.5 : 0.1, c.choose(2, "vacuum"));
  double dt = RIEMANN_RELAXATION && c.choose(2, "dt") ? 0.01 : 0;
  VecV L0 = P.L, R0 = P.R;
  VecV L = star(c, P.L, P.R, P.l, P.r, dt, P.n, P.ndim);
  VecV R = P.r.EOS == VACUUM ? P.R : star(c, P.R, P.L, P.r, P.l, dt, -P.n, P.ndim);
  c.expect(finite(L) && finite(R), "finite", P.w);
  c.expect(same_bits(L0, P.L) && same_bits(R0, P.R), "inputs", P.w);
  for (int i = mV; i < V; i++)
    c.close(L(i) / (i == mV && MULTI ? L(0) : 1), P.L(i) / (i == mV && MULTI ? P.L(0) : 1), 1e-12, 1e-14, "others", P.w + mc::cat(": variable ", i));
  satisfied(c, P, L, R, THERMAL && dt > 0 ? 2e-2 : 1e-6, P.w + mc::cat(" dt ", dt));
}

// small jumps: the change of the left state is a sum of the waves that travel to the left
static void waves(mc::Ctx &c) {
  double e = c.choose(2, "size") ? 1e-5 : 1e-4;
  Pair P = pair_(c, e, false);
  if (P.w.find("jump 0") != std::string::npos)
    throw mc::Skip();
  // both sides start with the same pressure, temperature and no stress: the jump is small
  if (THERMAL)
    throw mc::Skip();
  VecV L = star(c, P.L, P.R, P.l, P.r, 0, P.n, P.ndim);
  // in the frame of the normal
  Mat3_3 R;
  Vec3 t = P.n.cross(std::abs(P.n(0)) < 0.7 ? Vec3(1, 0, 0) : Vec3(0, 1, 0)).normalized();
  R.row(0) = P.n.transpose();
  R.row(1) = t.transpose();
  R.row(2) = P.n.cross(t).transpose();
  VecV a = transform2(P.L, R), b = transform2(L, R);
  int n = 14;
  Eigen::MatrixXd M = (ref::jacobian(ref::st(a), 0, P.l) + ref::block(ref::st(a), 0)).topLeftCorner(n, n);
  double v = a(2) / a(0);
  Eigen::VectorXd d = (b - a).head(n);
  if (d.cwiseAbs().maxCoeff() < 1e-9)
    throw mc::Skip();
  M -= v * Eigen::MatrixXd::Identity(n, n);
  Eigen::VectorXcd ev = (M + 0.37 * Eigen::MatrixXd::Identity(n, n)).eigenvalues();
  std::vector<double> left;
  double top = 0;
  for (int i = 0; i < n; i++) {
    double x = ev(i).real() - 0.37;
    top = std::max(top, std::abs(x));
    if (x < -0.05)
      left.push_back(x);
  }
  c.expect(left.size() == 3, "waves", P.w + mc::cat(": ", left.size(), " waves to the left"));
  Eigen::VectorXd r = d;
  for (double x : left)
    r = (M - x * Eigen::MatrixXd::Identity(n, n)) * r / top;
  c.expect(r.norm() <= 0.02 * d.norm(), "waves", P.w + mc::cat(": part ", r.norm() / d.norm(), " of the change does not travel to the left; ", d.transpose()));
}
// states in contact that satisfy the conditions stay as they are
static void fixed_(mc::Ctx &c) {
  int nm = NMAT, a = c.choose(nm, "left"), b = c.choose(nm + 1, "right");
  int k = c.choose(NN, "normal"), mv = c.choose(3, "velocity"), tang = c.choose(3, "sliding");
  c.shard();
  Par l = mat(a), r = mat(b);
  Vec3 n = normal(k), v(0, 0, 0);
  if (mv)
    v << 0.3 * mv, -0.2, 0.5 - mv * 0.4;
  Vec3 t = n.cross(Vec3(0.3, -0.5, 0.8)).normalized();
  bool vac = b == nm;
  double p = vac ? 0 : 1.1;
  double dt = 0.01;
  // elastic states without shear; equal temperature through the density of gases only: skipped with heat
  if (THERMAL && (a != b || vac))
    throw mc::Skip();
  VecV L = make(l, 1, p, v, 0, 0, Vec3::Zero());
  Vec3 vr = v;
  if (tang && RIEMANN_STICK)
    throw mc::Skip();
  if (tang)
    vr += (tang == 1 ? 0.4 : -1.3) * t;
  VecV R = vac ? VecV(VecV::Zero()) : make(r, 1, p, vr, 0, 0, Vec3::Zero());
  std::string w = mc::cat(name(a), " | ", vac ? "vacuum" : name(b), " normal ", n.transpose(), " velocity ", v.transpose(), " sliding ", tang);
  c.note(w);
  VecV S = star(c, L, R, l, r, dt, n, k < 2 ? 1 : k < NN2 ? 2 : 3);
  c.close_all(S, L, 0, 1e-13, "returned", w);
}
// sheared bodies of one material in the same state slide freely: only the tangential conditions are violated
static void sheared(mc::Ctx &c) {
  int nm = NMAT, a = c.choose(nm, "left"), k = c.choose(NN, "normal"), sh = c.choose(3, "shape"), e = c.choose(3, "size"), slide = c.choose(2, "sliding");
  c.shard();
  if (THERMAL)
    throw mc::Skip();
  Pair P;
  P.l = P.r = mat(a);
  P.n = normal(k);
  P.ndim = k < 2 ? 1 : k < NN2 ? 2 : 3;
  Vec3 t = P.n.cross(Vec3(0.3, -0.5, 0.8)).normalized(), v(0.2, 0.1, -0.3);
  double s = (e == 0 ? 0.3 : e == 1 ? 0.05 : 1e-3);
  P.L = make(P.l, 1.02, 1.1, v, 3 + sh, s, Vec3::Zero());
  P.R = make(P.l, 1.02, 1.1, v + (slide ? 0.4 : 0) * t, 3 + sh, s, Vec3::Zero());
  P.w = mc::cat(name(a), " twice, shape ", sh, " strain ", s, " normal ", P.n.transpose(), " sliding ", slide);
  c.note(P.w);
  VecV L = star(c, P.L, P.R, P.l, P.r, 0, P.n, P.ndim), R = star(c, P.R, P.L, P.r, P.l, 0, -P.n, P.ndim);
  c.expect(finite(L) && finite(R), "finite", P.w);
  satisfied(c, P, L, R, 1e-6, P.w);
}
// rotations and reflections of the whole configuration
static void symmetry(mc::Ctx &c) {
  Pair P = pair_(c, 0.3, c.choose(2, "vacuum"));
  static const double RT[][3] = {{0.3, 1.1, -0.4}, {M_PI / 2, 0, 0}, {0, 0, M_PI}, {-2, 0.6, 2.2}, {0, 0, 0}};
  int k = c.choose(5, "map");
  double dt = RIEMANN_RELAXATION ? 0.01 * c.choose(2, "dt") : 0;
  Mat3_3 Q = rotation(RT[k][0], RT[k][1], RT[k][2]);
  if (k == 4) { // reflection
    Q = Mat3_3::Identity();
    Q(1, 1) = -1;
  }
  VecV S = star(c, P.L, P.R, P.l, P.r, dt, P.n, P.ndim);
  VecV l2 = transform2(P.L, Q), r2 = transform2(P.R, Q);
  Vec3 n2 = Q * P.n;
  VecV T = star(c, l2, r2, P.l, P.r, dt, n2, 3), want = transform2(S, Q);
  c.close_all(T, want, 0, THERMAL && dt > 0 ? 2e-2 : dt > 0 ? 2e-3 : 1e-7, "rotated", P.w + mc::cat(" map ", k));
}
static void frames(mc::Ctx &c) {
  int dim = 1 + c.choose(3, "dimension");
  int m = mc::thorough ? 13 : 9, h = m / 2;
  Vec n(dim);
  for (int i = 0; i < dim; i++)
    n(i) = c.choose(m, "component") - h;
  if (n.norm() == 0)
    throw mc::Skip();
  if (c.choose(2, "tilt"))
    n(dim - 1) += 1e-9;
  n.normalize();
  Vec n0 = n;
  Mat3_3 R = rotation_matrix(n);
  c.step();
  c.state_of(R);
  std::string w = mc::cat("normal ", n.transpose());
  Mat3_3 I = R * R.transpose(), one = Mat3_3::Identity();
  c.close_all(I, one, 0, 1e-12, "orthogonal", w);
  c.close(R.determinant(), 1, 1e-12, 0, "proper", w);
  Vec3 e(0, 0, 0);
  e.head(dim) = n;
  Vec3 f = R * e;
  c.close(f(0), 1, 1e-12, 0, "first-axis", w);
  c.expect(same_bits(n, n0), "inputs", w);
  // vectors and tensors turn with it
  Par p = mat(AIR);
  VecV q = state(p, 1, 4, 1, 0), g = q;
  rotate_tensors(g, R);
  c.step();
  VecV want = transform2(q, R);
  c.close_all(g, want, 1e-13, 1e-13, "tensors", w);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"conditions", conditions, 20});
  s.push_back({"waves", waves, 20});
  s.push_back({"fixed", fixed_, 20});
  s.push_back({"sheared", sheared, 20});
  s.push_back({"symmetry", symmetry, 20});
  s.push_back({"frames", frames, 20});
  return mc::main_(argc, argv, s);
}
