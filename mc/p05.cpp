// P05: equations of state, conversions and their derivatives
#include "gpr.h"
#include "src/etc/globals.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/multi.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include "src/system/waves/speeds.h"
using namespace gpr;
typedef ref::R R;

static R num(const std::function<R(R)> &f, R x) {
  R h = 1e-4L * std::max<R>(fabsl(x), 1e-2L);
  auto D = [&](R h) { return (f(x + h) - f(x - h)) / (2 * h); };
  return (4 * D(h / 2) - D(h)) / 3;
}

static void eos_functions(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  static const double X[] = {1, 1.0004, 0.9996, 1.02, 0.98, 1.2, 0.85, 1.5, 0.6, 2.2, 0.35};
  double ρ = m.ρ0 * X[c.choose(mc::thorough ? 11 : 9, "compression")];
  static const double P[] = {0.4, 0, 1.1, 3.5, 9};
  double p = base_pressure(ρ, m) * 0 + (double)ref::pref(ρ, m) + 0.05 + P[c.choose(5, "pressure")];
  c.shard();
  c.note(mc::cat(name(k), " ρ=", ρ, " p=", p));
  bool kink = m.EOS == SHOCK_MG && std::abs(ρ / m.ρ0 - 1) < 1e-3;
  double dt = kink ? 2e-3 : 1e-8;
  double sc = std::abs(p) + 1;
  // values against the oracle
  struct { const char *n; double got, want, at; } v[] = {
      {"Γ", Γ_MG(ρ, m), (double)ref::Gam(ρ, m), 0},
      {"p_ref", p_ref(ρ, m), (double)ref::pref(ρ, m), 1e-12},
      {"e_ref", e_ref(ρ, m), (double)ref::eref(ρ, m), 1e-12},
      {"φ", φ(ρ, m), (double)ref::phi(ρ, m), 0},
      {"temperature", temperature_mg(ρ, p, m), (double)ref::temp(ρ, p, m), 1e-12},
      {"temperature_prim", temperature_prim(ρ, p, m), (double)ref::temp(ρ, p, m), 1e-12},
      {"E_1", E_1(ρ, p, m), (double)ref::e_of_p(ρ, p, m), 1e-12},
      {"p of e", pressure_mg(ρ, (double)ref::e_of_p(ρ, p, m), m), p, 1e-11},
      {"c_s2", c_s2(ρ, m), (double)ref::cs2(ρ, m), 0},
      {"C_0", C_0(ρ, m), (double)ref::C0(ρ, m), 1e-13},
  };
  c.step(10);
  for (auto &x : v)
    c.close(x.got, x.want, 1e-11, x.at, x.n, mc::cat(x.n, " of ", name(k)));
  struct { const char *n; double got; R want; } d[] = {
      {"dΓ", dΓ_MG(ρ, m), num([&](R r) { return ref::Gam(r, m); }, ρ)},
      {"dp_ref", dp_ref(ρ, m), num([&](R r) { return ref::pref(r, m); }, ρ)},
      {"de_ref", de_ref(ρ, m), num([&](R r) { return ref::eref(r, m); }, ρ)},
      {"dedρ", dedρ(ρ, p, m), num([&](R r) { return ref::e_of_p(r, p, m); }, ρ)},
      {"dedp", dedp(ρ, m), num([&](R x) { return ref::e_of_p(ρ, x, m); }, p)},
      {"dTdρ", dTdρ(ρ, p, m), num([&](R r) { return ref::temp(r, p, m); }, ρ)},
      {"dTdp", dTdp(ρ, m), num([&](R x) { return ref::temp(ρ, x, m); }, p)},
      {"dc_s2", dc_s2dρ(ρ, m), num([&](R r) { return ref::cs2(r, m); }, ρ)},
      {"dC_0", dC_0dρ(ρ, m), num([&](R r) { return ref::C0(r, m); }, ρ)},
  };
  c.step(9);
  for (auto &x : d)
    c.close(x.got, (double)x.want, dt, dt * sc * 0.1, x.n, mc::cat(x.n, " of ", name(k)));
  // thermodynamics of the reference curve of the code itself; the shock
  // reference is a Hugoniot, the linear branch below ρ0 is a cold curve only to
  // first order
  if (m.EOS != SHOCK_MG)
    c.close(de_ref(ρ, m) * ρ * ρ, p_ref(ρ, m), 1e-11, 1e-12, "de_ref=p/ρ²", "de_ref ρ²");
  double h = 1e-6 * ρ;
  c.close((e_ref(ρ + h, m) - e_ref(ρ - h, m)) / (2 * h), de_ref(ρ, m), 1e-5, kink ? 1e-3 : 1e-6 * sc, "de_ref", "difference quotient");
  c.close((p_ref(ρ + h, m) - p_ref(ρ - h, m)) / (2 * h), dp_ref(ρ, m), 1e-5, kink ? 1e-3 : 1e-6 * sc, "dp_ref", "difference quotient");
  double s[3] = {v[1].got, v[4].got, d[5].got};
  c.state(mc::fnv(s, sizeof s, c.scen_hash));
}

static void states(mc::Ctx &c) {
  int k = c.choose(NMAT, "material");
  Par m = material(k);
  int react = MULTI ? c.choose(2, "reacts") : 0;
  if (react) {
    m.REACTION = 1;
    m.Qc = 0.37;
    m.Bc = 1;
    m.Ea = 0.2;
    m.Rc = 1;
  }
  int comp = c.choose(mc::thorough ? NCOMP : 3, "compression"), shp = c.choose(NSHAPE, "distortion");
  c.shard();
  int vel = c.choose(mc::thorough ? NVEL : 4, "velocity"), pres = c.choose(NPRES, "pressure");
  Prim w = prim(m, comp, shp, vel, pres);
  VecV q = conserved(w, m), q0 = q;
  c.note(mc::cat(name(k), " Q=", q.transpose()));
  ref::St s = ref::st(q);
  double sc = 1 + std::abs(q(1));
  // the state is read back
  c.state_of(q);
  c.step();
  c.close(pressure(q, m), w.p, 1e-10, 1e-11 * sc, "pressure", "pressure of the conserved state");
  c.close(internal_energy(q, m), (double)ref::internal(s, m), 1e-11, 1e-12 * sc, "internal", "internal energy");
  c.close(temperature(q, m), (double)ref::temp(w.ρ, w.p, m), 1e-10, 1e-11 * sc, "temperature", "temperature");
  Vec3 v(w.v[0], w.v[1], w.v[2]), J(w.J[0], w.J[1], w.J[2]);
  Mat3_3 A = w.A;
  c.close(E_3(v), v.squaredNorm() / 2, 1e-13, 1e-14, "E_3", "kinetic energy");
  c.close(E_2A(w.ρ, A, m), (double)ref::shear_energy(s, m), 1e-11, 1e-13, "E_2A", "shear energy");
  c.close(E_2J(J, m), m.cα2 * J.squaredNorm() / 2, 1e-12, 1e-15, "E_2J", "thermal energy");
  double e1 = (double)(ref::e_of_p(w.ρ, w.p, m) + ref::shear_energy(s, m)) + v.squaredNorm() / 2;
  double eJ = m.cα2 * J.squaredNorm() / 2, eR = m.Qc * (w.λ - 1);
  c.close(total_energy(w.ρ, w.p, A, v, m), e1, 1e-11, 1e-12, "total", "total energy");
  c.close(total_energy(w.ρ, w.p, A, J, v, m), e1 + eJ, 1e-11, 1e-12, "total", "total energy with J");
  c.close(total_energy(w.ρ, w.p, A, v, w.λ, m), e1 + eR, 1e-11, 1e-12, "total", "total energy with λ");
  c.close(total_energy(w.ρ, w.p, A, J, v, w.λ, m), e1 + eJ + eR, 1e-11, 1e-12, "total", "total energy with J, λ");
  // step 1: to primitive and back, typical ordering
  VecV P = q;
  Pvec(P, m);
  c.step();
  c.state_of(P);
  VecV want = VecV::Zero();
  want(0) = w.ρ;
  want(1) = w.p;
  for (int i = 0; i < 3; i++)
    want(2 + i) = w.v[i];
  for (int i = 0; i < 9; i++)
    want(5 + i) = w.A(i / 3, i % 3);
  if (THERMAL)
    for (int i = 0; i < 3; i++)
      want(14 + i) = w.J[i];
  if (MULTI)
    want(mV) = w.λ;
  for (int i = 0; i < LSET; i++)
    want(V - LSET + i) = w.ls[i];
  c.close_all(P, want, 1e-10, 1e-12, "Pvec", "primitive vector");
  bool backable = !MULTI || m.REACTION > -1 || m.Qc == 0;
  if (backable) {
    VecV B = P;
    Cvec(B, m);
    c.step();
    c.close_all(B, q0, 1e-10, 1e-12, "Cvec", "conserved vector of the primitive one");
  }
  // step 2: the other ordering
  VecV P2 = Cvec_to_Pvec(q, m);
  c.step();
  c.state_of(P2);
  VecV want2 = want;
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 3; i++)
      want2(2 + 3 * j + i) = w.A(i, j);
  for (int i = 0; i < 3; i++)
    want2(11 + i) = w.v[i];
  c.close_all(P2, want2, 1e-10, 1e-12, "Cvec_to_Pvec", "reordered primitive vector");
  VecV B2 = Pvec_to_Cvec(P2, m);
  c.step();
  c.close_all(B2, q0, 1e-10, 1e-12, "Pvec_to_Cvec", "conserved vector of the reordered one");
  // derivatives along the state
  auto energy_at = [&](R ρ, R p, const ref::M3 &a) {
    ref::St t = s;
    t[0] = ρ;
    for (int i = 0; i < 9; i++)
      t[5 + i] = a[i / 3][i % 3];
    return ref::e_of_p(ρ, p, m) + ref::shear_energy(t, m);
  };
  ref::M3 a0 = ref::A_of(s);
  bool kink = m.EOS == SHOCK_MG && std::abs(w.ρ / m.ρ0 - 1) < 1e-3;
  double dt = kink ? 2e-3 : 1e-8;
  R Eρ = num([&](R r) { return energy_at(r, w.p, a0); }, w.ρ);
  R Ep = num([&](R p) { return energy_at(w.ρ, p, a0); }, w.p);
  c.step(3);
  c.close(dEdρ(q, m), (double)Eρ, dt, dt, "dEdρ", "energy by density");
  c.close(dEdp(q, m), (double)Ep, 1e-8, 1e-10, "dEdp", "energy by pressure");
  Mat3_3 DA = dEdA(q, m), DAs = dEdA_s(q, m), Sg = sigma(q, m);
  ref::M3 S = ref::stress(s, m), EA = ref::E_A(s, m);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      R e = num([&](R x) { ref::M3 b = a0; b[i][j] = x; return energy_at(w.ρ, w.p, b); }, a0[i][j]);
      c.close(DA(i, j), (double)e, 1e-8, 1e-9, "dEdA", "energy by distortion");
      c.close(DAs(i, j), (double)EA[i][j], 1e-10, 1e-11, "dEdA_s", "energy by distortion at constant entropy");
      c.close(Sg(i, j), (double)S[i][j], 1e-10, 1e-11, "sigma", "shear stress");
    }
  c.close(sigma_norm(Sg), (double)ref::von_mises(S), 1e-9, 1e-11, "sigma_norm", "norm of the stress");
  for (int d = 0; d < 3; d++) {
    Vec3 col = sigma(q, m, d), tot = Sigma(q, m, d), sr = dsigmadρ(q, m, d);
    Mat3_3 dA = dsigmadA(q, m, d);
    for (int i = 0; i < 3; i++) {
      c.close(col(i), (double)S[i][d], 1e-10, 1e-11, "sigma(d)", "column of the shear stress");
      c.close(tot(i), (i == d ? w.p : 0) - (double)S[i][d], 1e-10, 1e-10 * sc, "Sigma", "column of the total stress");
      R x = num([&](R r) { ref::St t = s; t[0] = r; return ref::stress(t, m)[i][d]; }, w.ρ);
      c.close(sr(i), (double)x, 1e-8, 1e-9, "dsigmadρ", "stress by density");
      for (int j = 0; j < 3; j++) {
        R y = num([&](R r) { ref::St t = s; t[5 + 3 * j + d] = r; return ref::stress(t, m)[i][d]; }, s[5 + 3 * j + d]);
        c.close(dA(i, j), (double)y, 1e-8, 1e-8, "dsigmadA", "stress by distortion");
      }
    }
  }
  c.step(9);
  // adiabatic sound speed: dp/dρ at constant entropy and distortion
  R c2 = ((R)w.p / ((R)w.ρ * w.ρ) - Eρ) / Ep;
  if (c2 > 0) {
    double c0 = c_0(q, m);
    c.step();
    c.close(c0 * c0, (double)c2, kink ? 1e-2 : 1e-8, 1e-9, "c_0", "square of the sound speed");
  }
  if (THERMAL) {
    double T = temperature(q, m);
    c.close(c_h(w.ρ, T, m), sqrt(m.cα2 * T / m.cv) / w.ρ, 1e-11, 0, "c_h", "heat wave speed");
    Vec3 H = dEdJ(q, m), F = heat_flux(T, J, m);
    for (int i = 0; i < 3; i++) {
      c.close(H(i), m.cα2 * w.J[i], 1e-11, 1e-14, "dEdJ", "energy by thermal impulse");
      c.close(F(i), m.cα2 * T * w.J[i], 1e-11, 1e-13, "heat_flux", "heat flux");
    }
    c.step(3);
  }
  c.expect(same_bits(q, q0), "input", "an input vector was changed");
  // the index of the material
  int want_idx = 0;
  for (int i = 0; i < LSET; i++)
    want_idx += w.ls[i] >= 0;
  c.expect(get_material_index(q) == want_idx, "index", "material index");
}

static void indices(mc::Ctx &c) {
  VecV q = VecV::Constant(-1);
  int n = 0;
  static const double val[] = {-1.5, -1e-300, -0., 0., 1e-300, 2};
  for (int i = 0; i < LSET; i++) {
    double x = val[c.choose(6, "level set")];
    q(V - LSET + i) = x;
    n += x >= 0;
  }
  c.shard();
  c.step();
  c.state_of(q);
  c.expect(get_material_index(q) == n, "index", "material index");
}

// two components in pressure and temperature equilibrium
static void mixtures(mc::Ctx &c) {
  static const int pairs[][2] = {{EXPL_JWL, EXPL_JWL}, {EXPL_JWL, AIR}, {WATER, AIR}, {EXPL_CC, EXPL_JWL}, {AIR, WATER}};
  int k = c.choose(5, "pair");
  Par m = mixture(pairs[k][0], pairs[k][1]);
  if (k == 0) { // products of the same explosive
    m.MP2.A *= 0.8;
    m.MP2.B *= 1.4;
    m.MP2.R1 *= 0.9;
    m.MP2.cv *= 0.8;
  }
  static const double L[] = {0.5, 0, 1, 0.1, 0.9, 0.01, 0.99};
  double λ = L[c.choose(mc::thorough ? 7 : 5, "fraction")];
  static const double PP[] = {1, 2.5, 0.5};
  double p = PP[c.choose(3, "pressure")];
  int shp = c.choose(3, "distortion");
  c.shard();
  // densities at common pressure and temperature
  R T = 0.5L;
  R ρ1 = ref::density(p, T, m), ρ2 = ref::density(p, T, m.MP2);
  if (!std::isfinite((double)(ρ1 + ρ2)))
    throw mc::Skip();
  if (λ == 1)
    ρ2 = ρ1;
  if (λ == 0)
    ρ1 = ρ2;
  R ρ = 1 / (λ / ρ1 + (1 - λ) / ρ2);
  R e = λ * ref::e_of_p(ρ1, p, m) + (1 - λ) * ref::e_of_p(ρ2, p, m.MP2);
  if (λ == 0)
    e = ref::e_of_p(ρ, p, m.MP2);
  VecV q = VecV::Zero();
  q(0) = (double)ρ;
  q(2) = 0.3 * q(0);
  Mat3_3 A = shape(shp);
  for (int i = 0; i < 9; i++)
    q(5 + i) = A(i / 3, i % 3);
  q(mV) = q(0) * λ;
  q(V - 1) = q(V - LSET) = -1;
  q(1) = q(0) * (double)(e + ref::other_energy(ref::st(q), m));
  c.note(mc::cat("ρ1=", (double)ρ1, " ρ2=", (double)ρ2, " λ=", λ, " p=", p));
  c.state_of(q);
  c.step();
  Vec3 s = solve_multi(q, m);
  c.close(s(0), p, 2e-4, 2e-4, "mixture pressure", "pressure of the mixture");
  c.close(s(1), (double)ρ1, 2e-3, 0, "mixture density", "density of the first component");
  c.close(s(2), (double)ρ2, 2e-3, 0, "mixture density", "density of the second component");
  c.step();
  c.close(pressure(q, m), s(0), 1e-12, 0, "mixture pressure", "pressure()");
  VecV P = q;
  Pvec(P, m);
  c.step();
  c.close(P(1), p, 2e-4, 2e-4, "mixture pressure", "Pvec");
  c.close(P(mV), λ, 1e-12, 1e-14, "mixture fraction", "Pvec");
  if (shp == 0) {
    c.step(2);
    // derivatives at equilibrium: differentiate the mixture energy of the oracle
    R h = 1e-4L;
    auto em = [&](R r, R pp) {
      // energy of the mixture at density r and pressure pp: bisect over T
      auto rho_at = [&](const Params &n, R TT) {
        R lo = n.ρ0 * 0.02L, hi = n.ρ0 * 4;
        for (int i = 0; i < 90; i++) {
          R x = (lo + hi) / 2;
          ((ref::temp(x, pp, n) > TT) ? lo : hi) = x;
        }
        return lo;
      };
      R a = T * 0.5L, b = T * 2;
      R r1 = 0, r2 = 0;
      for (int i = 0; i < 90; i++) {
        R x = (a + b) / 2;
        r1 = rho_at(m, x);
        r2 = rho_at(m.MP2, x);
        (λ / r1 + (1 - λ) / r2 < 1 / r ? a : b) = x;
      }
      return λ * ref::e_of_p(r1, pp, m) + (1 - λ) * ref::e_of_p(r2, pp, m.MP2);
    };
    if (λ > 0 && λ < 1) {
      R Eρ = (em(ρ * (1 + h), p) - em(ρ * (1 - h), p)) / (2 * h * ρ);
      c.close(dEdρ(q, m), (double)Eρ, 2e-2, 1e-2, "mixture dEdρ", "energy by density");
      R Ep = (em(ρ, p * (1 + h)) - em(ρ, p * (1 - h))) / (2 * h * p);
      c.close(dEdp(q, m), (double)Ep, 2e-2, 1e-2, "mixture dEdp", "energy by pressure");
    }
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Scenario> s = {{"eos_functions", eos_functions}, {"states", states}, {"material_index", indices}};
  if (MULTI && !THERMAL)
    s.push_back({"mixtures", mixtures});
  return mc::main_(argc, argv, s);
}
