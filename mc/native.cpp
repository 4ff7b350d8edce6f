// GPRnative: the functions of GPRpy bound a second time, each by hand: arguments are copied
// in, and the result is returned together with every argument as it is after the call.
#include "src/etc/types.h"
#include "pybind11/stl.h"
#include "pybind11/eigen.h"
#include "pybind11/functional.h"
#include "pybind11/pybind11.h"

#include "src/etc/globals.h"
#include "src/etc/grid.h"
#include "src/multi/fill.h"
#include "src/multi/functions.h"
#include "src/multi/pfmm.h"
#include "src/scipy/lgmres.h"
#include "src/scipy/newton_krylov.h"
#include "src/scipy/poly.h"
#include "src/solvers/dg/dg_matrices.h"
#include "src/solvers/fv/fluxes.h"
#include "src/solvers/fv/fv.h"
#include "src/solvers/iterator.h"
#include "src/solvers/poly/basis.h"
#include "src/solvers/split/homogeneous.h"
#include "src/solvers/split/numeric.h"
#include "src/solvers/split/ode.h"
#include "src/solvers/split/rk.h"
#include "src/solvers/steppers.h"
#include "src/solvers/utils.h"
#include "src/solvers/weno/weno.h"
#include "src/solvers/weno/weno_matrices.h"
#include "src/system/eig.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/mg.h"
#include "src/system/energy/multi.h"
#include "src/system/equations.h"
#include "src/system/jacobians.h"
#include "src/system/multi/eigenvecs.h"
#include "src/system/multi/riemann.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/relaxation/numerical.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"

namespace py = pybind11;
typedef std::vector<Vec> Vecs;
typedef std::vector<bVec> bVecs;
typedef std::vector<Par> Pars;
#define NONE py::none()
template <class... A> static py::tuple out(A &&... a) { return py::make_tuple(std::forward<A>(a)...); }

template <class P> static py::dict base_fields(P &p) {
  py::dict d;
  d["EOS"] = (int)p.EOS;
  d["ρ0"] = p.ρ0; d["Tref"] = p.Tref; d["cv"] = p.cv; d["pINF"] = p.pINF; d["Γ0"] = p.Γ0; d["c02"] = p.c02;
  d["s"] = p.s; d["α"] = p.α; d["β"] = p.β; d["γ"] = p.γ; d["A"] = p.A; d["B"] = p.B; d["R1"] = p.R1;
  d["R2"] = p.R2; d["b02"] = p.b02; d["μ"] = p.μ; d["τ0"] = p.τ0; d["σY"] = p.σY; d["n"] = p.n;
  d["cα2"] = p.cα2; d["κ"] = p.κ;
  return d;
}

PYBIND11_MODULE(GPRnative, m) {
  m.def("params_fields", [](Params &p) { return base_fields(p); });
  m.def("par_fields", [](Par &p) {
    py::dict d = base_fields(p);
    d["SOLID"] = p.SOLID; d["POWER_LAW"] = p.POWER_LAW; d["BINGHAM"] = p.BINGHAM; d["MULTI"] = p.MULTI;
    d["T0"] = p.T0; d["bf2"] = p.bf2; d["bs2"] = p.bs2; d["τf"] = p.τf; d["τs"] = p.τs;
    d["REACTION"] = (int)p.REACTION; d["Qc"] = p.Qc; d["Kc"] = p.Kc; d["Ti"] = p.Ti; d["Bc"] = p.Bc;
    d["Ea"] = p.Ea; d["Rc"] = p.Rc; d["I"] = p.I; d["G1"] = p.G1; d["G2"] = p.G2; d["a"] = p.a; d["b"] = p.b;
    d["c"] = p.c; d["d"] = p.d; d["e"] = p.e; d["g"] = p.g; d["x"] = p.x; d["y"] = p.y; d["z"] = p.z;
    d["φI"] = p.φI; d["φG1"] = p.φG1; d["φG2"] = p.φG2;
    d["δp"] = std::vector<double>{p.δp(0), p.δp(1), p.δp(2)};
    for (auto kv : base_fields(p.MP2))
      d[py::str("MP2.") + py::str(kv.first)] = kv.second;
    return d;
  });
  m.def("options", [] {
    py::dict d;
    d["N"] = (int)N; d["NV"] = (int)V; d["VISCOUS"] = (bool)VISCOUS; d["THERMAL"] = (bool)THERMAL;
    d["MULTI"] = (bool)MULTI; d["LSET"] = (int)LSET;
    return d;
  });

  m.def("boundaries", [](Vec u, Vec ub, iVec nX, iVec bt) { boundaries(u, ub, nX, bt); return out(NONE, u, ub, nX, bt); });
  m.def("extend_mask", [](bVec a, bVec b, iVec nX) { extend_mask(a, b, nX); return out(NONE, a, b, nX); });
  m.def("poly.intt", [](Vec a) { poly p(a); return out(p.intt().coef, a); });
  m.def("poly.diff", [](Vec a, int n) { poly p(a); return out(p.diff(n).coef, a); });
  m.def("poly.eval", [](Vec a, double x) { poly p(a); return out(p.eval(x), a); });

  m.def("multi.renormalize_levelsets", [](Mat u, aVec dX, iVec nX) { renormalize_levelsets(u, dX, nX); return out(NONE, u, dX, nX); });
  m.def("multi.finite_difference", [](Mat d, Vec φ, aVec dX, iVec nX) { finite_difference(d, φ, dX, nX); return out(NONE, d, φ, dX, nX); });
  m.def("multi.find_interface_cells", [](iVec a, Vec φ, iVec nX) { find_interface_cells(a, φ, nX); return out(NONE, a, φ, nX); });
  m.def("multi.fill_boundary_cells", [](Vec g, iVec a, int mat, Vec φ, Mat d, aVec dX, Pars MPs, double dt, iVec nX) {
    fill_boundary_cells(g, a, mat, φ, d, dX, MPs, dt, nX);
    return out(NONE, g, a, NONE, φ, d, dX, NONE, NONE, nX);
  });
  m.def("multi.fill_neighbor_cells", [](Vec g, iVec a, Mat d, aVec dX, iVec nX) { fill_neighbor_cells(g, a, d, dX, nX); return out(NONE, g, a, d, dX, nX); });
  m.def("multi.fill_ghost_cells", [](Vecs g, bVecs k, Vec u, iVec nX, aVec dX, double dt, Pars MPs) {
    fill_ghost_cells(g, k, u, nX, dX, dt, MPs);
    return out(NONE, g, k, u, nX, dX);
  });
  m.def("multi.material_indicator", [](Vec φ, Mat u, int mat, int nmat, aVec dX, iVec nX) { material_indicator(φ, u, mat, nmat, dX, nX); return out(NONE, φ, u, NONE, NONE, dX, nX); });

  m.def("scipy.lgmres_wrapper", [](Mat A, Vec b, Vec x0, Mat M, double tol, int maxiter, int inner, int outer, Vecs v) {
    Vec r = lgmres_wrapper(A, b, x0, M, tol, maxiter, inner, outer, v);
    return out(r, A, b, x0, M, NONE, NONE, NONE, NONE, v);
  });
  m.def("scipy.newton_krylov", [](VecFunc F, Vec x, double a, double b, double c, double d) { Vec r = nonlin_solve(F, x, a, b, c, d); return out(r, NONE, x); });
  m.def("epsilon", [] { return pow(mEPS, 1. / 3); });

  m.def("system.flux", [](VecV r, VecV Q, int d, Par P) { flux(r, Q, d, P); return out(NONE, r, Q); });
  m.def("system.source", [](VecV r, VecV Q, Par P) { source(r, Q, P); return out(NONE, r, Q); });
  m.def("system.block", [](MatV_V r, VecV Q, int d) { block(r, Q, d); return out(NONE, r, Q); });
  m.def("system.Bdot", [](VecV r, VecV Q, VecV x, int d, Par P) { Bdot(r, Q, x, d, P); return out(NONE, r, Q, x); });
  m.def("system.system_matrix", [](VecV Q, int d, Par P) { MatV_V r = system_matrix(Q, d, P); return out(r, Q); });
  m.def("system.reaction_rate", [](VecV Q, Par P) { double r = reaction_rate(Q, P); return out(r, Q); });
  m.def("system.ode_stepper_numerical", [](VecV Q, double dt, Par P) { ode_stepper_numerical(Q, dt, P); return out(NONE, Q); });
  m.def("system.max_abs_eigs", [](VecV Q, int d, Par P) { double r = max_abs_eigs(Q, d, P); return out(r, Q); });
  m.def("system.thermo_acoustic_tensor", [](VecV Q, int d, Par P) { Mat r = thermo_acoustic_tensor(Q, d, P); return out(r, Q); });
  m.def("system.dFdP", [](VecV Q, int d, Par P) { MatV_V r = dFdP(Q, d, P); return out(r, Q); });
  m.def("system.dPdQ", [](VecV Q, Par P) { MatV_V r = dPdQ(Q, P); return out(r, Q); });
  m.def("system.multi.eigen", [](VecV Q, int d, Par P) { MatV_V r = eigen(Q, d, P); return out(r, Q); });
  m.def("system.multi.riemann_constraints", [](VecV Q, double s, Par P) { MatV_V r = riemann_constraints(Q, s, P); return out(r, Q); });
  m.def("system.multi.star_stepper", [](VecV L, VecV R, Par P, Par S) { star_stepper(L, R, P, S); return out(NONE, L, R); });
  m.def("system.multi.left_star_state", [](VecV L, VecV R, Par P, Par S, double dt, Vec n) { VecV r = left_star_state(L, R, P, S, dt, n); return out(r, L, R, NONE, NONE, NONE, n); });
  m.def("system.multi.distance", [](Vec φ, aVec dX, iVec nX) { Vec r = distance(φ, dX, nX); return out(r, φ, dX, nX); });
  m.def("system.variables.pressure", [](VecV Q, Par P) { double r = pressure(Q, P); return out(r, Q); });
  m.def("system.variables.temperature", [](VecV Q, Par P) { double r = temperature(Q, P); return out(r, Q); });
  m.def("system.variables.dEdρ", [](VecV Q, Par P) { double r = dEdρ(Q, P); return out(r, Q); });
  m.def("system.variables.reaction_rate", [](VecV Q, Par P) { double r = reaction_rate(Q, P); return out(r, Q); });
  m.def("system.variables.solve_multi", [](VecV Q, Par P) { Vec3 r = solve_multi(Q, P); return out(r, Q); });
  m.def("system.variables.temperature_mg", [](double ρ, double p, Params P) { return out(temperature_mg(ρ, p, P)); });

  m.def("solvers.common.basis_polys", [] { std::vector<Vec> r; for (auto &p : basis_polys()) r.push_back(p.coef); return out(r); });
  m.def("solvers.common.scaled_nodes", [] { return out(scaled_nodes()); });
  m.def("solvers.common.scaled_weights", [] { return out(scaled_weights()); });
  m.def("solvers.common.end_values", [] { return out(end_values(basis_polys())); });
  m.def("solvers.common.derivative_values", [] { return out(derivative_values(basis_polys(), scaled_nodes())); });
  m.def("solvers.weno.coefficient_matrices", [] { return out(coefficient_matrices(basis_polys())); });
  m.def("solvers.weno.oscillation_indicator", [] { return out(oscillation_indicator(basis_polys())); });

  m.def("solvers.extended_dimensions", [](iVec nX, int e) { int r = extended_dimensions(nX, e); return out(r, nX); });
  m.def("solvers.ader_stepper", [](Vec u, Vec ub, iVec nX, double dt, Vec dX, bool s, int f, Par P, bVec k) { ader_stepper(u, ub, nX, dt, dX, s, f, P, k); return out(NONE, u, NONE, nX, NONE, dX, NONE, NONE, NONE, k); });
  m.def("solvers.ader_stepper_para", [](Vec u, Vec ub, iVec nX, double dt, Vec dX, bool s, int f, Par P, bVec k) { ader_stepper_para(u, ub, nX, dt, dX, s, f, P, k); return out(NONE, u, NONE, nX, NONE, dX, NONE, NONE, NONE, k); });
  m.def("solvers.split_stepper", [](Vec u, Vec ub, iVec nX, double dt, Vec dX, bool s, int f, Par P, bVec k) { split_stepper(u, ub, nX, dt, dX, s, f, P, k); return out(NONE, u, NONE, nX, NONE, dX, NONE, NONE, NONE, k); });
  m.def("solvers.split_stepper_para", [](Vec u, Vec ub, iVec nX, double dt, Vec dX, bool s, int f, Par P, bVec k) { split_stepper_para(u, ub, nX, dt, dX, s, f, P, k); return out(NONE, u, NONE, nX, NONE, dX, NONE, NONE, NONE, k); });
  m.def("solvers.iterator", [](Vec u, double tf, iVec nX, aVec dX, double CFL, iVec bt, bool sp, bool h, bool st, int f, Pars P, double tol) { Vecs r = iterator(u, tf, nX, dX, CFL, bt, sp, h, st, f, P, tol); return out(r); });
  m.def("solvers.make_u", [](Vec u, Vecs g, bVecs k, Pars P) { make_u(u, g, k, P); return out(NONE, u, g, k); });
  m.def("solvers.contorted", [](Vec u, double t) { bool r = contorted(u, t); return out(r, u); });
  m.def("solvers.timestep", [](Vecs g, bVecs k, aVec dX, double c, double t, double tf, int n, Pars P, int nm) { double r = timestep(g, k, dX, c, t, tf, n, P, nm); return out(r, g, k, dX); });
  m.def("solvers.renorm_distortion", [](Vec u, Pars P) { renorm_distortion(u, P); return out(NONE, u); });
  m.def("solvers.rotate_distortion", [](Vec u, Pars P) { rotate_distortion(u, P); return out(NONE, u); });
  m.def("solvers.weno.weno_launcher", [](Vec w, Vec ub, iVec nX, Par P) { weno_launcher(w, ub, nX, P); return out(NONE, w, ub, nX); });
  m.def("solvers.split.midstepper", [](Vec w, double dt, Vec dX, Par P, bVec k) { midstepper(w, dt, dX, P, k); return out(NONE, w, NONE, dX, NONE, k); });
  m.def("solvers.split.analyticSolver_distortion", [](VecV Q, double dt, Par P) { analyticSolver_distortion(Q, dt, P); return out(NONE, Q); });
  m.def("solvers.split.analyticSolver_thermal", [](VecV Q, double dt, Par P) { analyticSolver_thermal(Q, dt, P); return out(NONE, Q); });
  m.def("solvers.split.ode_launcher", [](Vec u, double dt, Par P) { ode_launcher(u, dt, P); return out(NONE, u); });
  m.def("solvers.split.ode_stepper_numerical", [](VecV Q, double dt, Par P) { ode_stepper_numerical(Q, dt, P); return out(NONE, Q); });
  m.def("solvers.split.stiff_ode_solve", [](double x, double dt, std::function<double(double)> f) { return out(stiff_ode_solve(x, dt, f)); });
  m.def("solvers.split.runge_kutta_launcher", [](std::function<double(double)> f, double tf, double y, int n) { return out(runge_kutta_launcher(f, tf, y, n)); });
  m.def("solvers.fv.Bint", [](VecV l, VecV r, int d, Par P) { VecV x = Bint(l, r, d, P); return out(x, l, r); });
  m.def("solvers.fv.D_RUS", [](VecV l, VecV r, int d, Par P) { VecV x = D_RUS(l, r, d, P); return out(x, l, r); });
  m.def("solvers.fv.D_ROE", [](VecV l, VecV r, int d, Par P) { VecV x = D_ROE(l, r, d, P); return out(x, l, r); });
  m.def("solvers.fv.D_OSH", [](VecV l, VecV r, int d, Par P) { VecV x = D_OSH(l, r, d, P); return out(x, l, r); });
  m.def("solvers.fv.centers1", [](Vec u, Vec w, int nx, double dt, double dx, bool s, bool t, Par P, bVec k) { centers1(u, w, nx, dt, dx, s, t, P, k); return out(NONE, u, w, NONE, NONE, NONE, NONE, NONE, NONE, k); });
  m.def("solvers.fv.centers2", [](Vec u, Vec w, int nx, int ny, double dt, double dx, double dy, bool s, bool t, Par P, bVec k) { centers2(u, w, nx, ny, dt, dx, dy, s, t, P, k); return out(NONE, u, w, NONE, NONE, NONE, NONE, NONE, NONE, NONE, NONE, k); });
  m.def("solvers.fv.interfs1", [](Vec u, Vec w, int nx, double dt, double dx, bool t, int f, Par P, bVec k) { interfs1(u, w, nx, dt, dx, t, f, P, k); return out(NONE, u, w, NONE, NONE, NONE, NONE, NONE, NONE, k); });
  m.def("solvers.fv.interfs2", [](Vec u, Vec w, int nx, int ny, double dt, double dx, double dy, bool t, int f, Par P, bVec k) { interfs2(u, w, nx, ny, dt, dx, dy, t, f, P, k); return out(NONE, u, w, NONE, NONE, NONE, NONE, NONE, NONE, NONE, NONE, k); });
  m.def("solvers.fv.fv_launcher", [](Vec u, Vec w, iVec nX, double dt, Vec dX, bool s, bool t, int f, Par P, bVec k) { fv_launcher(u, w, nX, dt, dX, s, t, f, P, k); return out(NONE, u, w, nX, NONE, dX, NONE, NONE, NONE, NONE, k); });
}
