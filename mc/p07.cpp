// P07: wave speeds and the time step
#include "eigen3/Eigenvalues"
#include "gpr.h"
#include "src/solvers/iterator.h"
#include "src/system/eig.h"
#include "src/system/equations.h"
#include "src/system/jacobians.h"
#include "src/system/multi/eigenvecs.h"
using namespace gpr;

// largest absolute eigenvalue of the oracle's system; false if it is not hyperbolic
static bool spectrum(const VecV &q, int d, const Par &m, double &mx) {
  ref::St s = ref::st(q);
  MatV_V M = ref::jacobian(s, d, m) + ref::block(s, d);
  double h = M.cwiseAbs().maxCoeff(); // the solver does not cope with multiple zeros
  M.diagonal().array() += h;
  Eigen::EigenSolver<MatV_V> es(M, false);
  if (es.info() != Eigen::Success)
    return false;
  mx = 0;
  double im = 0;
  for (int i = 0; i < V; i++) {
    mx = std::max(mx, std::abs(es.eigenvalues()(i).real() - h));
    im = std::max(im, std::abs(es.eigenvalues()(i).imag()));
  }
  return im < 1e-4 * mx;
}

static void speeds(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  int comp = c.choose(mc::thorough ? NCOMP : 3, "compression"), shp = c.choose(NSHAPE, "distortion");
  c.shard();
  int vel = c.choose(NVEL, "velocity"), pres = c.choose(NPRES, "pressure");
  Prim w = prim(m, comp, shp, vel, pres);
  if (m.EOS == SHOCK_MG && comp == 0) {
    w.ρ *= 1.003;
    w.A *= cbrt(1.003);
  }
  VecV q = conserved(w, m), q0 = q;
  c.note(mc::cat(name(k), " Q=", q.transpose()));
  c.state_of(q);
  for (int d = 0; d < 3; d++) {
    double mx;
    if (!spectrum(q, d, m, mx))
      continue;
    double got = max_abs_eigs(q, d, m);
    c.step();
    c.outcome(mc::fnv(&got, 8));
    c.close(got, mx, 1e-5, 1e-6, "max_abs_eigs", mc::cat("largest wave speed in direction ", d));
    // the tensor's eigenvalues are squares of the wave speeds relative to the flow
    Mat X = thermo_acoustic_tensor(q, d, m);
    c.step();
    Eigen::EigenSolver<Mat> es(X, false);
    ref::St s = ref::st(q);
    MatV_V M = ref::jacobian(s, d, m) + ref::block(s, d);
    double h = M.cwiseAbs().maxCoeff();
    M.diagonal().array() += h;
    Eigen::EigenSolver<MatV_V> ef(M, false);
    for (int i = 0; i < X.rows(); i++) {
      double a = sqrt(std::max(0., es.eigenvalues()(i).real()));
      for (double x : {w.v[d] + a, w.v[d] - a}) {
        double best = 1e9;
        for (int j = 0; j < V; j++)
          best = std::min(best, std::abs(ef.eigenvalues()(j) - h - x));
        c.close(best, 0, 0, 2e-3 * (1 + mx), "tensor", mc::cat("wave speed ", x, " in direction ", d));
      }
    }
    // equivariant: reflecting the state leaves the speed
    for (int e = 0; e < 3; e++) {
      VecV r = transform(q, reflection(e));
      c.close(max_abs_eigs(r, d, m), got, 1e-9, 0, "reflection", "speed of the reflected state");
      VecV x = transform(q, exchange(d, e));
      c.close(max_abs_eigs(x, e, m), got, 1e-9, 0, "exchange", "speed with the axes exchanged");
      c.step(2);
    }
  }
  c.expect(same_bits(q, q0), "input", "the input was changed");
}

// mixtures in equilibrium (configuration 'multi')
static void mixtures(mc::Ctx &c) {
  static const int pairs[][2] = {{EXPL_JWL, AIR}, {WATER, AIR}, {EXPL_CC, EXPL_JWL}, {AIR, WATER}};
  int k = c.choose(4, "pair");
  Par m = mixture(pairs[k][0], pairs[k][1]);
  static const double L[] = {0.5, 0.2, 0.9, 1, 0};
  double λ = L[c.choose(5, "fraction")];
  static const double PP[] = {1, 2.5, 0.5};
  double p = PP[c.choose(3, "pressure")];
  int shp = c.choose(3, "distortion");
  c.shard();
  int vel = c.choose(2, "velocity");
  typedef ref::R R;
  R ρ1 = ref::density(p, 0.5L, m), ρ2 = ref::density(p, 0.5L, m.MP2);
  if (!std::isfinite((double)(ρ1 + ρ2)))
    throw mc::Skip();
  VecV q = VecV::Zero();
  q(0) = (double)(1 / (λ / ρ1 + (1 - λ) / ρ2));
  for (int i = 0; i < 3; i++)
    q(2 + i) = q(0) * (vel ? 0.4 - 0.3 * i : 0);
  Mat3_3 A = shape(shp);
  for (int i = 0; i < 9; i++)
    q(5 + i) = A(i / 3, i % 3);
  q(mV) = q(0) * λ;
  q(V - 1) = q(V - LSET) = -1;
  R e = λ * ref::e_of_p(ρ1, p, m) + (1 - λ) * ref::e_of_p(ρ2, p, m.MP2);
  q(1) = q(0) * (double)(e + ref::other_energy(ref::st(q), m));
  c.note(mc::cat("λ=", λ, " p=", p, " Q=", q.transpose()));
  c.state_of(q);
  for (int d = 0; d < 3; d++) {
    double mx;
    if (!spectrum(q, d, m, mx))
      continue;
    double got = max_abs_eigs(q, d, m);
    c.step();
    c.close(got, mx, 3e-3, 1e-6, "mixture speed", mc::cat("largest wave speed in direction ", d));
  }
}

// eigenvectors of the primitive system in the x direction, atypical ordering
static void vectors(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  int comp = c.choose(3, "compression"), shp = c.choose(NSHAPE - 1, "distortion");
  c.shard();
  int vel = c.choose(NVEL, "velocity"), pres = c.choose(NPRES, "pressure");
  Prim w = prim(m, comp, shp, vel, pres);
  if (m.EOS == SHOCK_MG && comp == 0) {
    w.ρ *= 1.003;
    w.A *= cbrt(1.003);
  }
  VecV q = conserved(w, m);
  double mx;
  if (!spectrum(q, 0, m, mx))
    throw mc::Skip();
  c.note(mc::cat(name(k), " Q=", q.transpose()));
  c.state_of(q);
  ref::St s = ref::st(q);
  MatV_V M = ref::jacobian(s, 0, m) + ref::block(s, 0);
  MatV_V DP = dPdQ(q, m);
  MatV_V Mp = DP * M * DP.inverse(); // primitive, typical ordering
  // to [ρ, p, A by columns, v, J..]
  int perm[V];
  for (int i = 0; i < V; i++)
    perm[i] = i;
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 3; i++)
      perm[2 + 3 * j + i] = 5 + 3 * i + j;
  for (int i = 0; i < 3; i++)
    perm[11 + i] = 2 + i;
  MatV_V P;
  for (int i = 0; i < V; i++)
    for (int j = 0; j < V; j++)
      P(i, j) = Mp(perm[i], perm[j]);
  MatV_V E = eigen(q, 0, m);
  c.step();
  c.outcome(mc::fnv(E.data(), sizeof(double) * V * V));
  Eigen::EigenSolver<Mat> es(thermo_acoustic_tensor(q, 0, m), false);
  for (int j = 0; j < V; j++) {
    VecV r = E.col(j);
    double n = r.norm();
    if (n == 0 && THERMAL)
      continue; // the thermal branch leaves some linear waves out
    c.expect(n > 0 && std::isfinite(n), "eigen zero", mc::cat("eigenvector ", j, " is zero or not finite"));
    r /= n;
    double lam = r.dot(P * r);
    double res = (P * r - lam * r).norm();
    if (THERMAL && j >= 2 * n1)
      continue;
    c.close(res, 0, 0, 1e-5 * (1 + P.norm()), "eigen", mc::cat("eigenvector ", j, " residual"));
    double want = w.v[0];
    if (j < 2 * n1) {
      double best = 1e9, a = std::abs(lam - w.v[0]);
      for (int i = 0; i < n1; i++)
        best = std::min(best, std::abs(a * a - es.eigenvalues()(i).real()));
      c.close(best, 0, 0, 1e-3 * (1 + mx * mx), "eigen order", mc::cat("eigenvalue of vector ", j));
      c.expect((lam > w.v[0]) == (j < n1), "eigen order", mc::cat("direction of wave ", j));
    } else
      c.close(lam, want, 1e-4, 1e-4, "eigen order", mc::cat("eigenvalue of linear wave ", j));
  }
  if (!THERMAL) {
    Eigen::FullPivLU<MatV_V> lu(E);
    lu.setThreshold(1e-10);
    c.expect(lu.rank() == V, "eigen rank", mc::cat("rank ", lu.rank()));
  }
}

static void steps(mc::Ctx &c) {
  int nd = 1 + c.choose(2, "dimensions");
  static const int MATS[][2] = {{AIR, SOLID_GR}, {WATER, AIR}, {PLASTIC_SMG, WATER}};
  int ms = c.choose(3, "materials");
  int vac = c.choose(3, "vacuum"); // none, first, second
  int cells = 3;
  int mask0 = c.choose(8, "mask 0"), mask1 = c.choose(8, "mask 1");
  c.shard();
  int count = c.choose(mc::thorough ? 9 : 8, "count");
  static const double T[][2] = {{0, 100}, {0.35, 0.36}, {0, 1e-9}, {0.4, 0.4 + 0.02}};
  int tt = c.choose(4, "time");
  static const double DX[][2] = {{0.1, 0.25}, {0.3, 0.02}, {0.05, 0.05}};
  int dx = c.choose(3, "cell size");
  std::vector<Par> MPs;
  std::vector<Vec> grids;
  std::vector<bVec> masks;
  for (int i = 0; i < 2; i++) {
    Par m = material(MATS[ms][i]);
    if (vac == i + 1)
      m = vacuum();
    MPs.push_back(m);
    Vec g(cells * V);
    for (int k = 0; k < cells; k++)
      g.segment<V>(k * V) = m.EOS == VACUUM ? VecV(VecV::Zero()) : state(m, k % 3, (k + i) % 4, (2 * k + i + 1) % NVEL, k % 3);
    grids.push_back(g);
    bVec b(cells);
    for (int k = 0; k < cells; k++)
      b(k) = ((i ? mask1 : mask0) >> k) & 1;
    masks.push_back(b);
  }
  aVec dX(nd);
  for (int i = 0; i < nd; i++)
    dX(i) = DX[dx][i];
  double mx = 0;
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < cells; k++)
      if (masks[i](k) && MPs[i].EOS != VACUUM) {
        double s = 0;
        for (int d = 0; d < nd; d++) {
          static double known[3][2][3][2];
          double &x = known[ms][i][k][d];
          if (!x) {
            VecV q = grids[i].segment<V>(k * V);
            spectrum(q, d, MPs[i], x);
          }
          s += x / dX(d);
        }
        mx = std::max(mx, s);
      }
  double CFL = 0.37, t = T[tt][0], tf = T[tt][1];
  double want = CFL / mx * (count < 6 ? 0.2 : 1);
  if (!(t + want <= tf))
    want = tf - t;
  double got = timestep(grids, masks, dX, CFL, t, tf, count, MPs, 2);
  c.step();
  c.state(mc::fnv(&got, 8, c.scen_hash));
  c.outcome(mc::fnv(&got, 8));
  c.close(got, want, 1e-5, 1e-15, "timestep", "time step");
  c.expect(t + got <= tf + 1e-12 * (1 + tf), "overshoot", "the step passes the final time");
}

int main(int argc, char **argv) {
  if (MULTI && !THERMAL) // the rest is the same in the other configurations
    return mc::main_(argc, argv, {{"mixtures", mixtures}});
  return mc::main_(argc, argv, {{"speeds", speeds}, {"vectors", vectors}, {"steps", steps}});
}
