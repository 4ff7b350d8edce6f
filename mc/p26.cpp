// P26: clean-up of the distortion
#include "evolve.h"
#include "src/solvers/utils.h"
#include "src/system/functions/matrices.h"
using namespace gpr;

static const double STRETCH[][3] = {{1, 1, 1}, {1, 1, 1.3}, {0.8, 1.2, 1.2}, {0.9, 1, 1.25}, {1, 1 + 1e-9, 1 - 1e-12}, {1, 1 - 3e-5, 1 + 1e-4}, {0.3, 1, 4}, {1e-2, 3, 2}, {0.05, 0.05, 7}};
static const double ROT[][3] = {{0, 0, 0}, {0.3, -1.2, 0.7}, {M_PI, 0, 0}, {0, M_PI / 2, 0}, {2, 2.9, -1}, {0, 0, 1e-8}};
const int NST = 9, NROT = 6;
// left rotation, stretch, right rotation
static Mat3_3 distortion(mc::Ctx &c, std::string &w) {
  int s = c.choose(NST, "stretch"), l = c.choose(NROT, "left"), r = c.choose(mc::thorough ? NROT : 4, "right");
  static const double DET[] = {1, 0.2, 6};
  double d = DET[c.choose(3, "determinant")];
  Vec3 v(STRETCH[s][0], STRETCH[s][1], STRETCH[s][2]);
  Mat3_3 A = rotation(ROT[l][0], ROT[l][1], ROT[l][2]) * v.asDiagonal() * rotation(ROT[r][0], ROT[r][1], ROT[r][2]);
  A *= cbrt(d / A.determinant());
  w += mc::cat(" stretch ", v.transpose(), " rotations ", l, " ", r, " determinant ", d);
  return A;
}
static Mat3_3 A_(const Vec &u, int i) { return Mat3_3Map((double *)u.data() + i * V + 5); }
static void levels(Vec &u, int i, int m) { // material m
  for (int l = 0; l < LSET; l++)
    u(i * V + V - LSET + l) = l < m ? 0.3 + l : -0.2 - l;
}
static double small(const Mat3_3 &A) { return std::max(1., A.norm()); }
// everything but the given components is the same, bit for bit
static void others(mc::Ctx &c, const Vec &a, const Vec &b, int i, bool energy, const std::string &w) {
  for (int v = 0; v < V; v++)
    if (!(v >= 5 && v < 14) && !(energy && v == 1))
      c.expect(a(i * V + v) == b(i * V + v), "others", w + mc::cat(": variable ", v, " of cell ", i, " changed"));
}
// a cell of the material, with the distortion
static void put(Vec &u, int i, const Par &m, const Mat3_3 &A, double x, double p, int vel) {
  Prim w = prim(m, 0, 0, vel, 0);
  w.ρ = m.ρ0 * x;
  w.p = base_pressure(w.ρ, m) * p;
  w.A = A;
  u.segment<V>(i * V) = conserved(w, m);
}
static const int MATS[] = {AIR, SOLID_GR, PLASTIC_SMG, EXPL_JWL, WATER};
static Par pick(int k) {
  Par m = material(MATS[k]);
  if (MULTI)
    m = k % 2 ? mixture(EXPL_JWL, AIR) : m;
  return m;
}
// rotating leaves only what the metric and the determinant determine: however the distortion was turned
// before, the result is the same
static void turned(mc::Ctx &c, const Vec &r, const Vec &u, int i, std::vector<Par> &MPs, const std::string &w) {
  for (int k = 0; k < 3; k++) {
    Mat3_3 R;
    if (k == 0)
      R << 0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1;
    else if (k == 1)
      R << 0, 0, 1, 1, 0, 0, 0, 1, 0;
    else
      R << -1, 0, 0, 0, 0.28, 0.96, 0, 0.96, -0.28; // half a turn about an axis between y and z
    Mat3_3 B = R * A_(u, i);
    Vec v = u;
    v.segment<9>(i * V + 5) = Vec9Map(B.data());
    rotate_distortion(v, MPs);
    c.step();
    c.close_all(A_(v, i), A_(r, i), 0, 1e-12, "rotate-canonical", w + mc::cat(", turned ", k));
  }
}
// one distorted cell between others, each operation
static void cells(mc::Ctx &c) {
  std::string w;
  int op = c.choose(3, "operation"), k = c.choose(5, "material");
  Mat3_3 A = distortion(c, w);
  c.shard();
  static const double X[] = {1, 0.7, 1.4};
  double x = X[c.choose(3, "density")];
  Par m = pick(k);
  Vec u(3 * V);
  std::vector<Par> MPs = {m};
  put(u, 0, m, Mat3_3::Identity() * 1.1, 1.2, 1, 0);
  put(u, 1, m, A, x, 1.1, 1 + k % 4);
  put(u, 2, m, shape(4), 0.9, 1.3, 2);
  for (int i = 0; i < 3; i++)
    levels(u, i, 0);
  w = mc::cat(name(MATS[k]), " density ", x) + w;
  c.note(w);
  Guarded<Vec> g(u);
  (op == 0 ? renorm_distortion : op == 1 ? rotate_distortion : reset_distortion)(g.seg(), MPs);
  c.step();
  Vec r = g.get();
  c.state_of(r);
  c.expect(g.intact(), "outside", w);
  for (int i = 0; i < 3; i++) {
    Mat3_3 a = A_(u, i), b = A_(r, i);
    double ρ = u(i * V);
    std::string wi = w + mc::cat(", cell ", i);
    others(c, r, u, i, op == 2, wi);
    if (op == 0) {
      double f = cbrt(ρ / (m.ρ0 * a.determinant()));
      c.close_all(b, Mat3_3(f * a), 1e-13, 1e-15, "renorm", wi);
      c.close(b.determinant(), ρ / m.ρ0, 1e-12, 1e-13 * pow(b.norm(), 3), "renorm-determinant", wi);
    }
    if (op == 1) {
      Mat3_3 G = a.transpose() * a, H = b.transpose() * b;
      c.close_all(H, G, 0, 1e-13, "rotate-metric", wi);
      c.close(b.determinant(), a.determinant(), 1e-12, 1e-13 * pow(b.norm(), 3), "rotate-determinant", wi);
      turned(c, r, u, i, MPs, wi);
    }
    if (op == 2) {
      Mat3_3 I = cbrt(ρ / m.ρ0) * Mat3_3::Identity();
      c.close_all(b, I, 1e-14, 1e-15, "reset", wi);
      ref::St q0 = ref::st(cell(u, i)), q1 = ref::st(cell(r, i));
      double E = scale_of(m, cell(u, i));
      c.close((double)q1[1], (double)(q0[1] - q0[0] * ref::shear_energy(q0, m)), 1e-12, 1e-13 * E, "reset-energy", wi);
      double p0 = (double)ref::pressure(q0, m), p1 = (double)ref::pressure(q1, m);
      c.close(p1, p0, 1e-9, 1e-11 * E, "reset-pressure", wi);
      c.expect(q1[1] <= q0[1] + 1e-13 * E, "reset-lower", wi);
      ref::M3 s = ref::stress(q1, m);
      for (int j = 0; j < 9; j++)
        c.close((double)s[j / 3][j % 3], 0, 0, 1e-12 * E, "reset-stress", wi);
    }
  }
  // a second time
  Guarded<Vec> g2(r);
  (op == 0 ? renorm_distortion : op == 1 ? rotate_distortion : reset_distortion)(g2.seg(), MPs);
  c.step();
  Vec r2 = g2.get();
  c.close_all(r2, r, 0, 1e-12, "idempotent", w);
  // neighbouring states have neighbouring results
  double h = 1e-9;
  Vec v = u;
  for (int j = 0; j < 9; j++)
    v(V + 5 + j) += h * ((j * 7 + 3) % 5 - 2);
  Vec v0 = v;
  (op == 0 ? renorm_distortion : op == 1 ? rotate_distortion : reset_distortion)(v, MPs);
  c.step();
  double d = (v - r).cwiseAbs().maxCoeff();
  double stiff = 1 / std::min(1., Eigen::JacobiSVD<Mat3_3>(A).singularValues()(2)) * small(A);
  c.expect(d <= 100 * h * stiff * scale_of(m, cell(u, 1)) * 10, "continuous", w + mc::cat(": a change by ", h, " changes the result by ", d));
}
// arrangements of materials and vacuum, some cells without density
static void arrangements(mc::Ctx &c) {
  int op = c.choose(3, "operation"), nmat = 1 + c.choose(LSET + 1, "materials"), vac = c.choose(1 << nmat, "vacua");
  int n = 3;
  std::vector<Par> MPs;
  for (int m = 0; m < nmat; m++)
    MPs.push_back(vac >> m & 1 ? vacuum() : pick((m * 2 + 1) % 5));
  c.shard();
  Vec u(n * V);
  std::vector<int> id, empty;
  std::string w = mc::cat("operation ", op, " vacua ", vac, " materials");
  for (int i = 0; i < n; i++) {
    int m = c.choose(nmat, "material"), k = c.choose(3, "content");
    const Par &M = MPs[m];
    id.push_back(m);
    empty.push_back(k == 2);
    if (M.EOS == VACUUM)
      u.segment<V>(i * V) = k == 2 ? VecV(VecV::Zero()) : VecV(VecV::Constant(0.3 + 0.1 * i));
    else
      put(u, i, M, k == 0 ? shape(3) : Mat3_3(0.8 * shape(4)), k == 0 ? 1.2 : 0.8, 1.2, 1 + i);
    if (k == 2 && M.EOS != VACUUM) {
      if (op)
        throw mc::Skip();
      u.segment<V>(i * V).setZero();
    }
    levels(u, i, m);
    w += mc::cat(" ", m, k == 2 ? "-" : "");
  }
  c.note(w);
  Guarded<Vec> g(u);
  (op == 0 ? renorm_distortion : op == 1 ? rotate_distortion : reset_distortion)(g.seg(), MPs);
  c.step();
  Vec r = g.get();
  c.state_of(r);
  c.expect(g.intact(), "outside", w);
  for (int i = 0; i < n; i++) {
    const Par &M = MPs[id[i]];
    std::string wi = w + mc::cat(", cell ", i);
    if (M.EOS == VACUUM || empty[i]) {
      for (int v = 0; v < V; v++)
        c.expect(r(i * V + v) == u(i * V + v), "vacuum", wi + mc::cat(": variable ", v, " changed"));
      continue;
    }
    others(c, r, u, i, op == 2, wi);
    Mat3_3 a = A_(u, i), b = A_(r, i);
    if (op == 0)
      c.close_all(b, Mat3_3(cbrt(u(i * V) / (M.ρ0 * a.determinant())) * a), 1e-13, 1e-15, "renorm", wi);
    else if (op == 1)
      c.close_all(Mat3_3(b.transpose() * b), Mat3_3(a.transpose() * a), 0, 1e-13, "rotate-metric", wi);
    else {
      c.close_all(b, Mat3_3(cbrt(u(i * V) / M.ρ0) * Mat3_3::Identity()), 1e-14, 1e-15, "reset", wi);
      ref::St q0 = ref::st(cell(u, i)), q1 = ref::st(cell(r, i));
      c.close((double)q1[1], (double)(q0[1] - q0[0] * ref::shear_energy(q0, M)), 1e-12, 1e-13 * scale_of(M, cell(u, i)), "reset-energy", wi);
    }
  }
}
// the criterion
static void criterion(mc::Ctx &c) {
  std::string w;
  Mat3_3 A = distortion(c, w);
  c.shard();
  int n = 1 + c.choose(4, "cells"), at = c.choose(n, "position"), rest = c.choose(3, "others");
  static const double F[] = {0.5, 1 - 1e-7, 1 + 1e-7, 2};
  int f = c.choose(4, "tolerance");
  long double tr = 0;
  for (int j = 0; j < 9; j++)
    tr += (long double)A(j / 3, j % 3) * A(j / 3, j % 3);
  long double D = (long double)A.determinant(), x = tr / 3 / powl(D * D, 1.L / 3) - 1;
  double tol = x * F[f];
  if (x < 1e-7) // rounding
    tol = f < 2 ? -1e-8 : 1e-7 + x;
  Vec u(n * V);
  for (int i = 0; i < n; i++) {
    u.segment<V>(i * V).setConstant(0.7);
    Mat3_3 B = i == at ? A : rest == 0 ? Mat3_3(0.7 * Mat3_3::Identity()) : rest == 1 ? Mat3_3(Mat3_3::Zero()) : Mat3_3(rotation(1, 2, 3) * 1.3);
    u.segment<9>(i * V + 5) = Vec9Map(B.data());
  }
  if (tol < 1e-9 && f >= 2)
    tol = 1e-7;
  bool want = f < 2;
  Vec u0 = u;
  bool got = contorted(u, tol);
  c.step();
  c.state_of(u);
  w = mc::cat("cells ", n, " at ", at, " others ", rest, " contortion ", (double)x, " tolerance ", tol) + w;
  c.note(w);
  c.expect(got == want, "criterion", w + (got ? ": triggered" : ": not triggered"));
  c.expect(same_bits(u, u0), "criterion-input", w);
}
// removing stress at walls
static void destress_(mc::Ctx &c) {
  int k = c.choose(5, "material"), sh = c.choose(5, "shape"), e = c.choose(4, "size"), l = c.choose(NROT, "left"), r = c.choose(NROT, "right");
  static const double X[] = {1, 0.7, 1.4};
  double x = X[c.choose(3, "density")];
  c.shard();
  static const double S[][3] = {{1, 0, -1}, {1, 1, -2}, {-1, -1, 2}, {0.7, -0.2, 0.3}, {0, 0, 0}};
  static const double E[] = {1e-1, 1e-2, 1e-3, 1e-4};
  Par m = pick(k);
  Vec3 s(1 + E[e] * S[sh][0], 1 + E[e] * S[sh][1], 1 + E[e] * S[sh][2]);
  Mat3_3 A = rotation(ROT[l][0], ROT[l][1], ROT[l][2]) * s.asDiagonal() * rotation(ROT[r][0], ROT[r][1], ROT[r][2]);
  A *= cbrt(x / A.determinant());
  Vec u(V);
  put(u, 0, m, A, x, 1.1, 1);
  levels(u, 0, 0);
  Guarded<Vec> g(u);
  destress(g.all.segment<V>(g.g));
  c.step();
  Vec q = g.get();
  c.state_of(q);
  std::string w = mc::cat(name(MATS[k]), " strain ", E[e], " shape ", sh, " rotations ", l, " ", r, " density ", x);
  c.note(w);
  c.expect(g.intact(), "outside", w);
  others(c, q, u, 0, false, w);
  // opposite strain, in the same directions and orientation
  double f = cbrt(x / s.prod());
  Vec3 t = 2 * cbrt(x) * Vec3::Ones() - f * s;
  Mat3_3 B = rotation(ROT[l][0], ROT[l][1], ROT[l][2]) * t.asDiagonal() * rotation(ROT[r][0], ROT[r][1], ROT[r][2]);
  c.close_all(A_(q, 0), B, 0, 1e-13, "destress", w);
  ref::M3 a = ref::stress(ref::st(cell(u, 0)), m), b = ref::stress(ref::st(cell(q, 0)), m);
  double unit = m.ρ0 * m.b02 * 10;
  for (int j = 0; j < 9; j++)
    c.close((double)(b[j / 3][j % 3] + a[j / 3][j % 3]), 0, 0, unit * (E[e] * E[e] * 16 + 1e-13), "destress-stress", w);
}
int main(int argc, char **argv) {
  std::vector<mc::Scenario> s;
  s.push_back({"cells", cells, 30});
  s.push_back({"arrangements", arrangements, 30});
  s.push_back({"criterion", criterion, 30});
  s.push_back({"destress", destress_, 30});
  return mc::main_(argc, argv, s);
}
