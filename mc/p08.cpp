// P08: numerical fluxes and the jump term
#include "eigen3/Eigenvalues"
#include "gpr.h"
#include "src/etc/globals.h"
#include "src/solvers/fv/fluxes.h"
#include "src/system/eig.h"
#include "src/system/equations.h"
using namespace gpr;

static const char *FN[] = {"Rusanov", "Roe", "Osher"};
static VecV D(int f, VecV qL, VecV qR, int d, Par &m) {
  return f == 0 ? D_RUS(qL, qR, d, m) : f == 1 ? D_ROE(qL, qR, d, m) : D_OSH(qL, qR, d, m);
}
typedef Eigen::Matrix<long double, V, V> LM;
typedef Eigen::Matrix<long double, V, 1> LV;
// |M| x from a decomposition in extended precision; false if M has no real spectrum
static bool absmul(const MatV_V &M, const VecV &x, VecV &r) {
  // shifted, because the solver does not cope with multiple eigenvalues that are zero
  LM S = M.cast<long double>();
  long double mx = M.cwiseAbs().maxCoeff();
  S.diagonal().array() += mx;
  Eigen::EigenSolver<LM> es(S);
  if (es.info() != Eigen::Success)
    return false;
  for (int i = 0; i < V; i++)
    if (std::abs(es.eigenvalues()(i).imag()) > 1e-7L * mx)
      return false;
  typedef Eigen::Matrix<std::complex<long double>, V, V> CM;
  CM E = es.eigenvectors();
  Eigen::FullPivLU<CM> lu(E);
  if (lu.rcond() < 1e-9L)
    return false;
  Eigen::Matrix<std::complex<long double>, V, 1> b = lu.solve(x.cast<std::complex<long double>>());
  for (int i = 0; i < V; i++)
    b(i) *= std::abs(es.eigenvalues()(i).real() - mx);
  r = (E * b).real().cast<double>();
  return true;
}
static VecV F(const VecV &q, int d, const Par &m) { return ref::vec(ref::flux(ref::st(q), d, m)); }
static MatV_V Mx(const VecV &q, int d, const Par &m) {
  return ref::jacobian(ref::st(q), d, m) + ref::block(ref::st(q), d);
}

static void fluxes(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  int sl = c.choose(mc::thorough ? 6 : 4, "left distortion"), jump = c.choose(4, "jump");
  c.shard();
  int vel = c.choose(mc::thorough ? NVEL : 3, "velocity"), f = c.choose(3, "flux"), d = c.choose(2, "direction");
  Prim a = prim(m, 1, sl, vel, 0), b = a;
  switch (jump) {
  case 0:
    break;
  case 1: // small, in everything
    b.ρ *= 1.0007;
    b.p += 0.0011;
    b.v[0] += 0.0009;
    b.v[1] -= 0.0013;
    b.v[2] += 0.0004;
    b.A(0, 1) += 0.0012;
    b.A(2, 2) -= 0.0008;
    b.A(1, 0) += 0.0005;
    b.J[1] += 0.0007;
    b.λ -= 0.001;
    b.ls[LSET - 1] += 0.3;
    break;
  case 2: // large, but uniform velocity
    b = prim(m, 3, (sl + 1) % 6, vel, 1);
    break;
  case 3: // large
    b = prim(m, 2, (sl + 2) % 6, (vel + 1) % NVEL, 2);
    break;
  }
  VecV qL = conserved(a, m), qR = conserved(b, m), l0 = qL, r0 = qR;
  c.note(mc::cat(name(k), " ", FN[f], " L=", qL.transpose(), " R=", qR.transpose()));
  VecV fL = F(qL, d, m), fR = F(qR, d, m), Δ = qL - qR;
  double sc = 1 + std::abs(qL(1)) + std::abs(qR(1)) + fL.cwiseAbs().maxCoeff();
  VecV got = D(f, qL, qR, d, m);
  c.step();
  c.state_of(got);
  VecV diss = got - fL - fR;
  if (jump == 0) {
    for (int i = 0; i < V; i++)
      c.close(diss(i), 0, 0, 1e-8 * sc, "consistent", mc::cat(FN[f], " component ", i));
  } else {
    VecV want;
    bool ok = true;
    if (f == 0) {
      double s = 0;
      for (auto q : {qL, qR}) {
        // shifted: see absmul
        LM M = Mx(q, d, m).cast<long double>();
        long double h = M.cwiseAbs().maxCoeff();
        M.diagonal().array() += h;
        Eigen::EigenSolver<LM> es(M, false);
        ok &= es.info() == Eigen::Success;
        for (int i = 0; i < V; i++) {
          s = std::max(s, (double)std::abs(es.eigenvalues()(i).real() - h));
          ok &= std::abs(es.eigenvalues()(i).imag()) < 1e-4;
        }
      }
      want = s * Δ;
    } else {
      // Gauss-Legendre average over the segment of states, of order N
      if (f == 1) {
        MatV_V M = MatV_V::Zero();
        for (int i = 0; i < N; i++)
          M += WGHTS(i) * Mx(qL + NODES(i) * (qR - qL), d, m);
        ok = absmul(M, Δ, want);
      } else {
        want.setZero();
        for (int i = 0; i < N; i++) {
          VecV t;
          ok &= absmul(Mx(qL + NODES(i) * (qR - qL), d, m), Δ, t);
          if (ok)
            want += WGHTS(i) * t;
        }
      }
    }
    if (ok)
      for (int i = 0; i < V; i++)
        c.close(diss(i), want(i), 1e-4, 1e-5 * sc * (Δ.norm() + 1e-3), "dissipation", mc::cat(FN[f], " component ", i));
    c.outcome(ok);
  }
  // symmetries
  double tol = 1e-6 * sc;
  for (int e = 0; e < 3; e++) {
    Mat3_3 R = reflection(e);
    VecV l = transform(qL, R), r = transform(qR, R), want = transform(got, R);
    VecV g = e == d ? VecV(-D(f, r, l, d, m)) : D(f, l, r, d, m);
    if (e == d) // F changes sign and the dissipation too
      ;
    c.step();
    c.state_of(g);
    if (g.allFinite() || want.allFinite())
      for (int i = 0; i < V; i++)
        c.close(g(i), want(i), 1e-6, tol, "reflection", mc::cat(FN[f], " axis ", e, " component ", i));
    if (e != d) {
      Mat3_3 P = exchange(d, e);
      VecV g3 = D(f, transform(qL, P), transform(qR, P), e, m), w3 = transform(got, P);
      c.step();
      for (int i = 0; i < V; i++)
        c.close(g3(i), w3(i), 1e-6, tol, "exchange", mc::cat(FN[f], " axis ", e, " component ", i));
    }
  }
  // swapping the states of uniform jumps reverses the dissipation alone
  VecV sw = D(f, qR, qL, d, m);
  c.step();
  for (int i = 0; i < V; i++)
    c.close(sw(i) - fL(i) - fR(i), -diss(i), 1e-6, tol, "swap", mc::cat(FN[f], " component ", i));
  c.expect(same_bits(qL, l0) && same_bits(qR, r0), "input", "an input was changed");
}

static VecV B(VecV qL, VecV qR, int d, Par &m) { return Bint(qL, qR, d, m); }
// the jump term of the non-conservative product
static void jumps(mc::Ctx &c) {
  int k = c.choose(3, "material");
  Par m = material(k);
  int sl = c.choose(NSHAPE, "left distortion"), sr = c.choose(NSHAPE, "right distortion");
  c.shard();
  int vl = c.choose(NVEL, "left velocity"), vr = c.choose(NVEL, "right velocity");
  int cr = c.choose(3, "right density"), d = c.choose(3, "direction");
  VecV qL = state(m, 0, sl, vl, 0), qR = state(m, cr, sr, vr, 1);
  for (int i = 0; i < LSET; i++)
    qR(V - LSET + i) = 0.4 - 0.7 * i;
  VecV got = B(qL, qR, d, m);
  c.step();
  c.state_of(got);
  // the integral, by a fine rule of the oracle
  ref::St s{};
  int n = 40;
  static const double gx[] = {0.1127016653792583, 0.5, 0.8872983346207417}, gw[] = {5. / 18, 8. / 18, 5. / 18};
  ref::St Δ;
  for (int i = 0; i < V; i++)
    Δ[i] = qR(i) - qL(i);
  for (int j = 0; j < n; j++)
    for (int g = 0; g < 3; g++) {
      double t = (j + gx[g]) / n;
      ref::St q;
      for (int i = 0; i < V; i++)
        q[i] = qL(i) + t * Δ[i];
      ref::St b = ref::noncons(q, Δ, d);
      for (int i = 0; i < V; i++)
        s[i] += b[i] * gw[g] / n;
    }
  bool uniform = vl == vr, exact = uniform || cr == 0; // the integrand is polynomial
  double sc = 1;
  for (int i = 0; i < V; i++)
    sc = std::max(sc, std::abs((double)s[i]));
  for (int i = 0; i < V; i++)
    c.close(got(i), (double)s[i], exact ? 1e-11 : 1e-2, (exact ? 1e-12 : N < 2 ? 2e-1 : 5e-3) * sc, "Bint", mc::cat("component ", i));
  // quadrature of the code's own order
  ref::St t{};
  for (int j = 0; j < N; j++) {
    ref::St q;
    for (int i = 0; i < V; i++)
      q[i] = qL(i) + NODES(j) * Δ[i];
    ref::St b = ref::noncons(q, Δ, d);
    for (int i = 0; i < V; i++)
      t[i] += b[i] * WGHTS(j);
  }
  for (int i = 0; i < V; i++)
    c.close(got(i), (double)t[i], 1e-10, 1e-12 * sc, "Bint order", mc::cat("component ", i));
  VecV back = B(qR, qL, d, m);
  c.step();
  for (int i = 0; i < V; i++)
    c.close(back(i), -got(i), 1e-11, 1e-12 * sc, "antisymmetric", mc::cat("component ", i));
  for (int e = 0; e < 3; e++) {
    VecV g = B(transform(qL, reflection(e)), transform(qR, reflection(e)), d, m);
    VecV w = transform(got, reflection(e)) * (e == d ? -1 : 1);
    VecV g2 = B(transform(qL, exchange(d, e)), transform(qR, exchange(d, e)), e, m), w2 = transform(got, exchange(d, e));
    if (e == d)
      w2 = got, g2 = got;
    c.step(2);
    for (int i = 0; i < V; i++) {
      c.close(g(i), w(i), 1e-11, 1e-12 * sc, "reflection", mc::cat("axis ", e, " component ", i));
      c.close(g2(i), w2(i), 1e-11, 1e-12 * sc, "exchange", mc::cat("axis ", e, " component ", i));
    }
  }
}

int main(int argc, char **argv) { return mc::main_(argc, argv, {{"fluxes", fluxes}, {"jumps", jumps}}); }
