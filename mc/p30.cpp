// P30: source terms
#include "gpr.h"
#include "src/system/equations.h"
#include "src/system/variables/sources.h"
using namespace gpr;

static void sources(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  int react = MULTI ? c.choose(4, "reaction") : 0;
  static const double F[][3] = {{0, 0, 0}, {0.3, -1.2, 0.05}};
  int body = c.choose(2, "force");
  m.δp << F[body][0], F[body][1], F[body][2];
  m.Qc = 0.4;
  if (react == 1) {
    m.REACTION = 0;
    m.Kc = 3;
    m.Ti = 0.6;
  } else if (react == 2) {
    m.REACTION = 1;
    m.Bc = 4;
    m.Ea = 0.5;
    m.Rc = 1.3;
  } else if (react == 3) {
    m.REACTION = 2;
    m.I = 20; m.G1 = 3; m.G2 = 5; m.a = 0.014; m.b = 0.66; m.c = 0.6; m.d = 0.3; m.e = 0.3; m.g = 1;
    m.x = 4; m.y = 1.2; m.z = 1; m.φI = 0.3; m.φG1 = 0.5; m.φG2 = 0.1;
  }
  if (!react)
    m.Qc = 0;
  int comp = c.choose(mc::thorough ? NCOMP : 4, "compression"), shp = c.choose(NSHAPE, "distortion");
  c.shard();
  int vel = c.choose(3, "velocity"), pres = c.choose(NPRES, "pressure");
  static const double L[] = {1, 0.05, 0.6, 0.95, 0};
  int nl = react ? 5 : 1;
  Prim w = prim(m, comp, shp, vel, pres);
  w.λ = L[c.choose(nl, "fraction")];
  VecV q = conserved(w, m), q0 = q;
  ref::St s = ref::st(q);
  c.note(mc::cat(name(k), " reaction ", m.REACTION, " Q=", q.transpose()));
  c.state_of(q);
  VecV S = VecV::Constant(3.25);
  source(S, q, m);
  c.step();
  c.outcome(mc::fnv(S.data(), sizeof(double) * V));
  ref::St so = ref::source(s, m);
  double sc = 1;
  for (int i = 5; i < 14; i++)
    sc = std::max(sc, std::abs((double)so[i]));
  for (int i = 0; i < V; i++)
    c.close(S(i), (double)so[i], 1e-8, 1e-11 * sc, "source", mc::cat("component ", i));
  // the rates themselves
  double t1 = theta1inv(q, m);
  c.step();
  if (m.POWER_LAW && !m.SOLID && shp % 5 == 0)
    ; // rest: 0 to a power, or its round-off
  else
    c.close(t1, (double)ref::theta1inv(s, m), 1e-8, 1e-12, "theta1inv", "relaxation rate");
  if (THERMAL) {
    c.close(theta2inv(q, m), (double)ref::theta2inv(s, m), 1e-9, 0, "theta2inv", "relaxation rate of J");
    c.step();
  }
  // relaxation dissipates: ∂E/∂A : S_A <= 0, and keeps det A: tr(A^-1 S_A) = 0
  if (VISCOUS) {
    ref::M3 EA = ref::E_A(s, m);
    double diss = 0, n = 0;
    Mat3_3 A = w.A, SA;
    for (int i = 0; i < 9; i++) {
      diss += (double)EA[i / 3][i % 3] * S(5 + i);
      n += std::abs((double)EA[i / 3][i % 3] * S(5 + i));
      SA(i / 3, i % 3) = S(5 + i);
    }
    c.expect(diss <= 1e-12 * n + 1e-14, "dissipation", mc::cat("shear energy rate ", diss));
    c.close((A.inverse() * SA).trace(), 0, 0, 1e-10 * sc, "determinant", "change of the determinant");
    bool rest = shp == 0 || shp == 5;
    if (rest || (m.SOLID && !m.POWER_LAW))
      c.close(SA.norm(), 0, 0, 1e-12 * sc, "equilibrium", "relaxation in equilibrium");
    if (!rest && !(m.SOLID && !m.POWER_LAW) && !m.BINGHAM)
      c.expect(SA.norm() > 1e-6, "relaxes", "no relaxation out of equilibrium");
    if (m.BINGHAM) {
      ref::M3 σ = ref::stress(s, m);
      bool flows = sqrtl(ref::normsq(σ) / 2) > m.σY;
      c.expect((SA.norm() > 0) == flows, "yield", mc::cat("flow=", flows, " rate ", SA.norm()));
    }
  }
  // rotations of space commute
  Mat3_3 Rm = rotation(0.7, -0.4, 1.1);
  Par m2 = m;
  m2.δp = Rm * m.δp;
  VecV qr = transform(q, Rm), Sr = VecV::Zero();
  source(Sr, qr, m2);
  c.step();
  VecV want = S;
  want = transform(S, Rm);
  for (int i = 0; i < V; i++)
    c.close(Sr(i), want(i), 1e-7, 1e-9 * sc, "rotation", mc::cat("component ", i));
  c.expect(same_bits(q, q0), "input", "the input was changed");
}

int main(int argc, char **argv) { return mc::main_(argc, argv, {{"sources", sources}}); }
