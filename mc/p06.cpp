// P06: fluxes, non-conservative products and Jacobians
#include "gpr.h"
#include "src/system/equations.h"
#include "src/system/jacobians.h"
#include "src/system/variables/state.h"
using namespace gpr;
typedef ref::R R;

static Par pick(mc::Ctx &c, int &k) {
  k = c.choose(NMAT, "material");
  Par m = material(k);
  if (MULTI && c.choose(2, "reacts")) {
    m.REACTION = 1;
    m.Qc = 0.37;
    m.Bc = 1;
    m.Ea = 0.2;
    m.Rc = 1;
  }
  return m;
}

static void jacobians(mc::Ctx &c) {
  int k;
  Par m = pick(c, k);
  int comp = c.choose(mc::thorough ? NCOMP : 3, "compression"), shp = c.choose(NSHAPE, "distortion");
  c.shard();
  int vel = c.choose(NVEL, "velocity"), pres = c.choose(NPRES, "pressure");
  Prim w = prim(m, comp, shp, vel, pres);
  // the shock reference curve is only once differentiable at its reference density
  if (m.EOS == SHOCK_MG && comp == 0) {
    w.ρ *= 1.003;
    w.A *= cbrt(1.003);
  }
  VecV q = conserved(w, m), q0 = q;
  ref::St s = ref::st(q);
  c.note(mc::cat(name(k), " Q=", q.transpose()));
  c.state_of(q);
  double sc = 1 + std::abs(q(1)) + std::abs(w.p);
  // dP/dQ: differentiate the primitive variables of the oracle
  MatV_V DP = dPdQ(q, m);
  c.step();
  auto primitive = [&](const ref::St &t) {
    ref::St r = t;
    r[1] = ref::pressure(t, m);
    for (int i = 2; i < 5; i++)
      r[i] /= t[0];
    if (THERMAL)
      for (int i = 14; i < 17; i++)
        r[i] /= t[0];
    if (MULTI)
      r[mV] /= t[0];
    return r;
  };
  MatV_V DPo;
  for (int j = 0; j < V; j++) {
    ref::St x{};
    x[j] = 1;
    R h = 1e-4L * (j >= 5 && j < 14 ? 1.L : std::max<R>(fabsl(s[j]), 0.05L * s[0]));
    ref::St col = ref::deriv(primitive, s, x, h);
    for (int i = 0; i < V; i++)
      DPo(i, j) = (double)col[i];
  }
  c.close_all(DP, DPo, 1e-7, 1e-8, "dPdQ", "primitive by conserved variables");
  for (int d = 0; d < 3; d++) {
    // the flux itself
    VecV f = VecV::Zero();
    flux(f, q, d, m);
    c.step();
    VecV fo = ref::vec(ref::flux(s, d, m));
    for (int i = 0; i < V; i++)
      c.close(f(i), fo(i), 1e-10, 1e-11 * sc, "flux", mc::cat("flux ", d, " component ", i));
    // it is added to what is there
    VecV g = VecV::Constant(1.25);
    flux(g, q, d, m);
    c.step();
    for (int i = 0; i < V; i++)
      c.close(g(i), 1.25 + fo(i), 1e-10, 1e-11 * sc, "flux adds", mc::cat("flux ", d, " component ", i));
    c.state_of(f);
    // its Jacobian
    MatV_V J = ref::jacobian(s, d, m), B = ref::block(s, d);
    MatV_V M = system_matrix(q, d, m);
    c.step();
    c.close_all(M, MatV_V(J + B), 1e-7, 1e-8, "system_matrix", mc::cat("system matrix ", d));
    MatV_V DF = dFdP(q, d, m);
    c.step();
    c.close_all(MatV_V(DF * DPo), J, 1e-7, 1e-8, "dFdP", mc::cat("flux by primitive variables, ", d));
    MatV_V Bl = MatV_V::Zero();
    block(Bl, q, d);
    c.step();
    c.close_all(Bl, B, 1e-12, 1e-13, "block", mc::cat("non-conservative block ", d));
    // the product with every unit vector and a mixed one, into any memory
    for (int j = 0; j <= V; j++) {
      VecV x = VecV::Zero(), y;
      if (j < V)
        x(j) = 1;
      else
        for (int i = 0; i < V; i++)
          x(i) = 0.3 + 0.1 * i - (i % 3) * 0.4;
      y.setConstant(7.5);
      Bdot(y, q, x, d, m);
      VecV yo = B * x;
      c.step();
      for (int i = 0; i < V; i++)
        c.close(y(i), yo(i), 1e-12, 1e-13, "Bdot", mc::cat("product ", d, " with vector ", j, " component ", i));
    }
    // flux equivariance: reflection and exchange of axes, at this state
    for (int e = 0; e < 3; e++) {
      VecV q2 = transform(q, reflection(e)), f2 = VecV::Zero();
      flux(f2, q2, d, m);
      VecV want = transform(fo, reflection(e)) * (e == d ? -1 : 1);
      c.step();
      for (int i = 0; i < V; i++)
        c.close(f2(i), want(i), 1e-10, 1e-11 * sc, "flux reflection", mc::cat("axis ", e, " flux ", d, " component ", i));
      if (e == d)
        continue;
      VecV q3 = transform(q, exchange(d, e)), f3 = VecV::Zero();
      flux(f3, q3, e, m);
      VecV want3 = transform(fo, exchange(d, e));
      c.step();
      for (int i = 0; i < V; i++)
        c.close(f3(i), want3(i), 1e-10, 1e-11 * sc, "flux exchange", mc::cat("axes ", d, e, " component ", i));
    }
  }
  c.expect(same_bits(q, q0), "input", "an input vector was changed");
}

// mixtures: the flux uses the pressure of the mixture, the matrix its derivatives
static void mixture_flux(mc::Ctx &c) {
  static const int pairs[][2] = {{EXPL_JWL, AIR}, {WATER, AIR}, {EXPL_CC, EXPL_JWL}};
  Par m = mixture(pairs[c.choose(3, "pair")][0], AIR);
  m.MP2 = (Params)material(c.choose(2, "second") ? WATER : AIR);
  static const double L[] = {0.5, 1, 0, 0.2, 0.9};
  double λ = L[c.choose(5, "fraction")];
  int shp = c.choose(3, "distortion");
  c.shard();
  int vel = c.choose(3, "velocity"), pres = c.choose(2, "pressure");
  Prim w = prim(m, 0, shp, vel, pres);
  w.λ = λ;
  w.ρ = λ == 0 ? m.MP2.ρ0 : 1 / (λ / m.ρ0 + (1 - λ) / m.MP2.ρ0);
  VecV q = conserved(w, m);
  ref::St s = ref::st(q);
  // the mixture's pressure is an iterative solution, P05 is about that one
  double po = pressure(q, m);
  if (!std::isfinite(po))
    throw mc::Skip();
  c.note(mc::cat("λ=", λ, " p=", po, " Q=", q.transpose()));
  c.state_of(q);
  for (int d = 0; d < 3; d++) {
    VecV f = VecV::Zero(), fo = ref::vec(ref::flux(s, d, m, po));
    flux(f, q, d, m);
    c.step();
    for (int i = 0; i < V; i++)
      c.close(f(i), fo(i), 1e-10, 1e-11, "mixture flux", mc::cat("flux ", d, " component ", i));
  }
}

// ... and at equilibrium of pressure and temperature, where the density of each component
// changes with the pressure and the fraction, the matrix is that of the mixture
static void mixture_jacobians(mc::Ctx &c) {
  static const int pairs[][2] = {{EXPL_JWL, AIR}, {WATER, AIR}, {EXPL_CC, EXPL_JWL}, {AIR, WATER}};
  int k = c.choose(4, "pair");
  Par m = mixture(pairs[k][0], pairs[k][1]);
  if (c.choose(2, "reacts")) {
    m.REACTION = 1;
    m.Qc = 0.37;
    m.Bc = 1;
    m.Ea = 0.2;
    m.Rc = 1;
  }
  static const double L[] = {0.5, 0.2, 0.9};
  double λ = L[c.choose(3, "fraction")];
  static const double PP[] = {1, 2.5, 0.5};
  double p = PP[c.choose(3, "pressure")];
  int shp = c.choose(3, "distortion");
  c.shard();
  int vel = c.choose(2, "velocity");
  R ρ1 = ref::density(p, 0.5L, m), ρ2 = ref::density(p, 0.5L, m.MP2);
  if (!std::isfinite((double)(ρ1 + ρ2)))
    throw mc::Skip();
  VecV q = VecV::Zero();
  q(0) = (double)(1 / (λ / ρ1 + (1 - λ) / ρ2));
  for (int i = 0; i < 3; i++)
    q(2 + i) = q(0) * (vel ? 0.4 - 0.3 * i : 0);
  Mat3_3 A = shape(shp);
  for (int i = 0; i < 9; i++)
    q(5 + i) = A(i / 3, i % 3);
  q(mV) = q(0) * λ;
  q(V - 1) = q(V - LSET) = -1;
  R e = λ * ref::e_of_p(ρ1, p, m) + (1 - λ) * ref::e_of_p(ρ2, p, m.MP2);
  q(1) = q(0) * (double)(e + ref::other_energy(ref::st(q), m));
  ref::St s = ref::st(q);
  c.note(mc::cat("ρ1=", (double)ρ1, " ρ2=", (double)ρ2, " λ=", λ, " p=", p, " Q=", q.transpose()));
  c.state_of(q);
  // its pressure is an iterative solution: so far are the entries
  MatV_V DP = dPdQ(q, m);
  c.step();
  for (int j = 0; j < V; j++) {
    ref::St x{};
    x[j] = 1;
    R h = 1e-4L * (j >= 5 && j < 14 ? 1.L : std::max<R>(fabsl(s[j]), 0.05L * s[0]));
    R want = ref::deriv([&](const ref::St &t) { return ref::St{ref::pressure(t, m)}; }, s, x, h)[0];
    c.close(DP(1, j), (double)want, 1e-2, 1e-2, "mixture dPdQ", mc::cat("pressure of the mixture by component ", j));
  }
  for (int d = 0; d < 3; d++) {
    MatV_V want = ref::jacobian(s, d, m) + ref::block(s, d);
    MatV_V M = system_matrix(q, d, m);
    c.step();
    c.close_all(M, want, 1e-2, 1e-2, "mixture matrix", mc::cat("system matrix ", d, " of the mixture"));
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Scenario> s = {{"jacobians", jacobians}};
  if (MULTI && !THERMAL)
    s.push_back({"mixture_flux", mixture_flux}), s.push_back({"mixture_jacobians", mixture_jacobians});
  return mc::main_(argc, argv, s);
}
