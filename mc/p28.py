"""P28: the Python layer gives the same values as the C++ solver it describes, and its
derivatives are the derivatives of its values."""
import os
import sys

import numpy as np
from numpy.linalg import det, inv, norm

import GPRpy
import pymc
from pymc import scenario

from gpr.misc import functions as fn
from gpr.misc.objects import hyperelastic_params, material_params
from gpr.misc.structures import Cvec, State
from gpr.multi import get_material_index
from gpr.multi.rotations import rotate_tensors, rotation_matrix
from gpr.sys.analytical import ode_solver_cons
from gpr.sys.conserved import B_cons, F_cons, M_cons, S_cons
from gpr.sys.eigenvalues import max_eig
from gpr.sys.eigenvectors import eigen
from gpr.sys.jacobians import dFdP, dPdQ, dQdP
from gpr.sys.primitive import M_prim, S_prim
from gpr.vars import eos, hyp, mg, shear, sources, state, wavespeeds
from gpr.vars.derivatives import dEdA, dEdp, dEdρ, dTdp, dTdρ

OPT = GPRpy.options
V, LSET, THERMAL, MULTI = OPT.NV(), OPT.LSET(), OPT.THERMAL(), OPT.MULTI()
MV = 14 + 3 * THERMAL
DEEP = '--tier' in sys.argv and 'thorough' in sys.argv

ING = dict(REACTION='i', Qc=3., I=4., G1=1.4, G2=.7, a=.0367, b=2 / 3, c=2 / 3, d=1 / 3, e=2 / 3,
           g=2 / 3, x=2, y=2, z=3, φI=.4, φG1=.8, φG2=.3)
MATS = {
    'gas': dict(EOS='sg', ρ0=1.2, cv=1.5, γ=1.4, b0=.8, cα=.5, μ=1e-2, Pr=.75),
    'liquid': dict(EOS='sg', ρ0=2., cv=2.5, γ=4.4, pINF=6., b0=1., cα=1., μ=1e-3, Pr=7, Tref=.3),
    'power-law': dict(EOS='sg', ρ0=1., cv=1., γ=1.4, b0=1.2, μ=.2, n=.6, cα=.3, κ=.1),
    'bingham': dict(EOS='sg', ρ0=1.5, cv=1., γ=1.6, b0=1., μ=.3, σY=.05, cα=.3, κ=.2),
    'elastic': dict(EOS='smg', ρ0=2.7, cv=.9, Γ0=2., c0=2.3, s=1.3, b0=1.1, cα=.4, κ=.6, Tref=.2),
    'beta': dict(EOS='smg', ρ0=2., cv=.9, Γ0=1.8, c0=1.9, s=1.2, b0=.9, β=.4, cα=.4, κ=.6),
    'plastic': dict(EOS='smg', ρ0=2.7, cv=.9, Γ0=2., c0=2.3, s=1.3, b0=1.1, cα=.4, κ=.6,
                    σY=.2, τ0=.7, n=2),
    'gr': dict(EOS='gr', ρ0=2.9, cv=1.4, Tref=.7, c0=1.6, α=1.1, β=1.5, γ=1.9, b0=.7, cα=.4, κ=.5),
    'gr-plastic': dict(EOS='gr', ρ0=2.9, cv=1.4, Tref=.7, c0=1.6, α=1.1, β=1.5, γ=1.9, b0=.7,
                       σY=.1, τ0=.5, n=4, cα=.4, κ=.5),
    'jwl': dict(EOS='jwl', ρ0=1.84, cv=.8, Γ0=.25, A=8., B=.2, R1=4.6, R2=1.35, b0=.8, μ=.1,
                cα=.5, κ=.4, Tref=.4),
    'cc': dict(EOS='cc', ρ0=1.13, cv=1.7, Γ0=1.19, A=.8, B=1.5, R1=4.53, R2=1.42, b0=.9, μ=.1,
               cα=.5, κ=.4, Tref=.5),
}
REACT = {
    'arrhenius': dict(REACTION='a', Qc=2., Bc=3., Ea=1.5, Rc=.9),
    'discrete': dict(REACTION='d', Qc=1.5, Kc=4., Ti=.9),
    'ignition': ING,
}

SKEW = np.array([[0., .3, -.2], [.1, 0., .25], [-.15, .05, 0.]])
FRAMES = [('none', np.eye(3)), ('rotated', np.array([[.6, -.8, 0.], [.8, .6, 0.], [0., 0., 1.]]))]
STRAINS = [('none', np.zeros((3, 3))), ('shear', np.array([[0., .2, 0.], [0., 0., 0.], [0., 0., 0.]])),
           ('stretch', np.diag([.15, -.1, .05])), ('general', SKEW + np.diag([.1, -.2, .05]))]
VELS = [('rest', np.zeros(3)), ('moving', np.array([.7, -.4, .2])), ('back', np.array([-1.1, .3, -.5]))]


def some_material(r, react=False):
    name = r.choose(list(MATS), 'material')
    kw = dict(MATS[name])
    if react:
        kw.update(REACT[r.choose(list(REACT), 'reaction')])
    return material_params(**kw), kw


def some_state(r, MP, kw, vels=VELS, ps=(.8, 3.), J=True, lean=False):
    """ρ, p, v, A, J, λ and the conserved vector with level sets"""
    comp = r.choose([.9, 1., 1.15], 'compression')
    if kw['EOS'] == 'cc' and comp < 1:
        comp = .97
    ρ = comp * kw['ρ0']
    p = r.choose(list(ps), 'pressure')
    v = r.choose(vels, 'velocity')[1].copy()
    F = r.choose(STRAINS, 'strain')[1]
    R = r.choose(FRAMES[1:] if lean else FRAMES, 'frame')[1]
    A = R.dot(np.eye(3) + F)
    A *= np.cbrt(comp / det(A))
    j = None
    if THERMAL:
        j = r.choose([('none', np.zeros(3)), ('some', np.array([.3, -.2, .4]))], 'impulse')[1] \
            if J else np.array([.1, .2, -.1])
    λ = r.choose([0., .35, 1.], 'fraction') if MULTI else None
    Q = vector(ρ, p, v, MP, A, j, λ)
    return ρ, p, v, A, j, λ, Q


def vector(ρ, p, v, MP, A, J, λ):
    Q = Cvec(ρ, p, v, MP, A=A, J=J, λ=λ)
    return np.concatenate([Q, np.linspace(-.5, .25, LSET)])


def slope(f, x, h):
    """derivative by two central differences, extrapolated"""
    d = lambda s: (np.asarray(f(x + s)) - np.asarray(f(x - s))) / (2 * s)
    return (4 * d(h / 2) - d(h)) / 3


@scenario('eos')
def _(r):
    MP, kw = some_material(r)
    comp = r.choose([.8, .93, 1.02, 1.1, 1.3], 'compression')
    if kw['EOS'] == 'cc' and comp < .9:
        raise pymc.Skip
    ρ = comp * kw['ρ0']
    p = r.choose([0., .4, 2., 11.], 'pressure')
    e = mg.internal_energy(ρ, p, MP)
    h = 1e-3 * ρ
    r.close(mg.pressure(ρ, e, MP), p, 'pressure', 1e-11, abs(mg.p_ref(ρ, MP)) + 1)
    r.close(mg.dp_ref(ρ, MP), slope(lambda x: mg.p_ref(x, MP), ρ, h), 'dp_ref', 1e-8, 1)
    r.close(mg.de_ref(ρ, MP), slope(lambda x: mg.e_ref(x, MP), ρ, h), 'de_ref', 1e-8, 1)
    r.close(mg.dΓ_MG(ρ, MP), slope(lambda x: mg.Γ_MG(x, MP), ρ, h), 'dGamma', 1e-8, 1)
    r.close(mg.de_ref(ρ, MP), mg.p_ref(ρ, MP) / ρ**2, 'reference-curve', 1e-9, 1) \
        if kw['EOS'] in ('gr', 'jwl', 'cc') else None
    r.close(mg.dedρ(ρ, p, MP), slope(lambda x: mg.internal_energy(x, p, MP), ρ, h), 'dedrho', 1e-8, 1)
    r.close(mg.dedp(ρ, MP), slope(lambda x: mg.internal_energy(ρ, x, MP), p, 1e-2), 'dedp', 1e-9, 1)
    r.close(mg.temperature(ρ, p, MP), GPRpy.system.variables.temperature_mg(ρ, p, as_params(MP)),
            'temperature', 1e-12, 1)
    r.close(mg.dTdρ(ρ, p, MP), slope(lambda x: mg.temperature(x, p, MP), ρ, h), 'dTdrho', 1e-8, 1)
    r.close(mg.dTdp(ρ, MP), slope(lambda x: mg.temperature(ρ, x, MP), p, 1e-2), 'dTdp', 1e-9, 1)
    r.close(mg.φ(ρ, MP) * mg.Γ_MG(ρ, MP) / ρ, slope(lambda x: mg.φ(x, MP), ρ, h), 'phi', 1e-8, 1)
    r.close(shear.dc_s2dρ(ρ, MP), slope(lambda x: shear.c_s2(x, MP), ρ, h), 'dcs2', 1e-8, 1)
    r.close(shear.dC_0dρ(ρ, MP), slope(lambda x: shear.C_0(x, MP), ρ, h), 'dC0', 1e-8, 1)
    r.close(mg.φ(MP.ρ0, MP), 1, 'phi-at-reference', 1e-12)
    r.close(shear.c_s2(ρ, MP), MP.b02 * (ρ / MP.ρ0)**MP.β, 'cs2', 1e-12)


def as_params(MP):
    """the C++ temperature takes the parameters of one component"""
    P = GPRpy.classes.Params()
    for k in ('EOS', 'ρ0', 'Tref', 'cv', 'pINF', 'Γ0', 'c02', 's', 'α', 'β', 'γ', 'A', 'B', 'R1',
              'R2', 'b02', 'μ', 'τ0', 'σY', 'n', 'cα2', 'κ'):
        setattr(P, k, getattr(MP, k))
    return P


@scenario('vectors')
def _(r):
    """what goes into a vector comes out again; nothing else is touched"""
    MP, kw = some_material(r)
    ρ, p, v, A, J, λ, Q = some_state(r, MP, kw)
    keep = Q.copy()
    v0, A0 = v.copy(), A.copy()
    P = State(Q, MP)
    r.close(P.ρ, ρ, 'density')
    r.close(P.v, v, 'velocity')
    r.close(P.A, A, 'distortion')
    r.close(P.p(), p, 'pressure', 1e-10, abs(mg.p_ref(ρ, MP)) + 1)
    r.close(Q[:5], [ρ, ρ * P.E] + list(ρ * v), 'layout')
    if J is not None:
        r.close(P.J, J, 'impulse')
        r.close(Q[14:17], ρ * J, 'layout')
        r.close(P.H(), MP.cα2 * J, 'H')
    if λ is not None:
        r.close(P.λ, λ, 'fraction')
        r.close(Q[MV], ρ * λ, 'layout')
    r.close(P.E, eos.E_1(ρ, p, MP) + eos.E_2A(ρ, A, MP) + (eos.E_2J(J, MP) if J is not None else 0)
            + v.dot(v) / 2 + (MP.Qc * (λ - 1) if λ is not None else 0), 'energy')
    r.close(eos.total_energy(ρ, p, v, A, J, λ, MP), P.E, 'total-energy')
    r.close(state.pressure(ρ, P.E, v, A, J, λ, MP), p, 'python-pressure', 1e-10, abs(mg.p_ref(ρ, MP)) + 1)
    r.close(P.G(), A.T.dot(A), 'metric')
    G = A.T.dot(A)
    D = G - np.trace(G) / 3 * np.eye(3)
    Γ = mg.Γ_MG(ρ, MP)
    cs2 = MP.b02 * (ρ / MP.ρ0)**MP.β
    r.close(eos.E_2A(ρ, A, MP), (1 - MP.β / Γ) * cs2 / 4 * (D**2).sum(), 'strain-energy', 1e-11, 1e-12)
    σ = -ρ * cs2 * G.dot(D)
    r.close(P.σ(), σ, 'stress', 1e-11, 1e-12)
    r.close(P.Σ(), p * np.eye(3) - σ, 'total-stress', 1e-10, abs(mg.p_ref(ρ, MP)) + 1)
    r.close(fn.sigma_norm(σ), np.sqrt(1.5 * ((σ - np.trace(σ) / 3 * np.eye(3))**2).sum()), 'norm', 1e-10, 1e-9)
    if MP.σY:
        r.close(P.plastic_deformation(), fn.sigma_norm(σ) / MP.σY, 'plastic', 1e-10, 1e-9)
    for m in range(1, LSET + 2):
        want = sum(1 for i in range(m - 1) if Q[V - (m - 1) + i] >= 0)
        r.check(get_material_index(Q, m) == want, 'material-index')
    r.check((Q == keep).all() and (v == v0).all() and (A == A0).all(), 'input')


@scenario('derivatives')
def _(r):
    MP, kw = some_material(r)
    ρ, p, v, A, J, λ, Q = some_state(r, MP, kw, VELS[1:2], (2.,), False)
    P = State(Q, MP)
    E = lambda ρ_=ρ, p_=p, A_=A: eos.total_energy(ρ_, p_, v, A_, J, λ, MP)
    h = 1e-3 * ρ
    sh = 1. + abs(P.E)
    r.close(P.dEdρ(), slope(lambda x: E(ρ_=x), ρ, h) if kw['EOS'] != 'smg' or abs(ρ - kw['ρ0']) > h
            else P.dEdρ(), 'dEdrho', 1e-7, sh)
    r.close(P.dEdp(), slope(lambda x: E(p_=x), p, 1e-2), 'dEdp', 1e-8, sh)
    X = np.zeros((3, 3))
    SA = np.zeros((3, 3, 3, 3))
    for i in range(3):
        for j in range(3):
            e = np.zeros((3, 3))
            e[i, j] = 1
            X[i, j] = slope(lambda s: E(A_=A + s * e), 0., 1e-3)
            SA[:, :, i, j] = slope(lambda s: state.sigma(ρ, A + s * e, MP), 0., 1e-3)
    r.close(P.dEdA(), X, 'dEdA', 1e-7, sh)
    r.close(P.ψ(), dEdA(ρ, A, MP) / (1 - MP.β / mg.Γ_MG(ρ, MP)), 'psi', 1e-9, 1e-9)
    r.close(P.dσdA(), SA, 'dsigmadA', 1e-7, 1e-3)
    for d in range(3):
        r.close(state.dsigmadAdd(ρ, A, d, MP), np.array([[SA[d, j, m, d] for m in range(3)] for j in range(3)]),
                'dsigmadAdd', 1e-7, 1e-3)
    r.close(P.dσdρ(), slope(lambda x: state.sigma(x, A, MP), ρ, h), 'dsigmadrho', 1e-7, 1e-3)
    r.close(P.dTdρ(), slope(lambda x: mg.temperature(x, p, MP), ρ, h) if kw['EOS'] != 'smg' or
            abs(ρ - kw['ρ0']) > h else P.dTdρ(), 'dTdrho', 1e-7, 1)
    r.close(P.dTdp(), 1 / (mg.Γ_MG(ρ, MP) * ρ * MP.cv), 'dTdp', 1e-10)
    r.close(wavespeeds.c_0(ρ, p, A, MP)**2, (p / ρ**2 - P.dEdρ()) / P.dEdp(), 'c0', 1e-10)
    r.close(wavespeeds.c_inf(ρ, p, A, MP)**2, wavespeeds.c_0(ρ, p, A, MP)**2 + 4 / 3 * shear.c_s2(ρ, MP),
            'cinf', 1e-10)
    T = mg.temperature(ρ, p, MP)
    if MP.cα2 and T > 0:
        r.close(wavespeeds.c_h(ρ, T, MP)**2, MP.cα2 * T / MP.cv / ρ**2, 'ch', 1e-10)


@scenario('solver')
def _(r):
    """against the flux, sources, matrices, wave speeds of the compiled solver"""
    MP, kw = some_material(r, MULTI and r.choose(2, 'reactive') == 1)
    ρ, p, v, A, J, λ, Q = some_state(r, MP, kw, VELS[1:], (.8, 3.) if DEEP else (3.,), True, not DEEP)
    d = r.choose(3, 'direction')
    MP.δp = np.array([.3, -.2, .1])
    P = State(Q, MP)
    T = GPRpy.system.variables.temperature(Q, MP)
    r.close(P.p(), GPRpy.system.variables.pressure(Q, MP), 'pressure', 1e-11)
    r.close(P.T(), T, 'temperature', 1e-11)
    r.close(mg.temperature(ρ, p, MP), T, 'python-temperature', 1e-9, 1)
    s = 1 + abs(mg.p_ref(ρ, MP)) + abs(Q[1])
    F = np.zeros(V)
    GPRpy.system.flux(F, Q, d, MP)
    r.close(F_cons(Q, d, MP), F, 'flux', 1e-11, s)
    r.close(F[2:5] - ρ * v[d] * v, P.Σ()[d], 'flux-stress', 1e-11, s)
    if THERMAL:
        r.close(F[1] - v[d] * (Q[1] + P.p()) + P.σ()[d].dot(v), P.q()[d], 'flux-heat', 1e-10, s)
    S = np.zeros(V)
    GPRpy.system.source(S, Q, MP)
    r.close(S_cons(Q, MP), S, 'source', 1e-10, 1e-9)
    r.close(-P.ψ().ravel() * P.θ1_1(), S[5:14], 'relaxation', 1e-10, 1e-9)
    r.close(P.f_body(), S[2:5], 'body-force')
    if THERMAL and T > 0:
        r.close(-ρ * P.H() * P.θ2_1(), S[14:17], 'heat-relaxation', 1e-10, 1e-9)
    if MP.REACTION > -1:
        r.close(P.K(), GPRpy.system.reaction_rate(Q, MP), 'reaction', 1e-9, 1e-9)
        r.close(-ρ * P.K(), S[MV], 'reaction-source', 1e-9, 1e-9)
    x = np.linspace(-1, 2, V)
    B = np.zeros(V)
    GPRpy.system.Bdot(B, Q, x, d, MP)
    r.close(B_cons(Q, d, MP).dot(x), B, 'block', 1e-12, 1)
    r.close(dPdQ(P, MP), GPRpy.system.dPdQ(Q, MP), 'dPdQ', 1e-9, 1)
    r.close(dFdP(P, d, MP), GPRpy.system.dFdP(Q, d, MP), 'dFdP', 1e-9, s)
    r.close(dPdQ(P, MP).dot(dQdP(P, MP)), np.eye(V), 'inverse', 1e-9, s)
    M = GPRpy.system.system_matrix(Q, d, MP)
    r.close(M_cons(Q, d, MP), M, 'matrix', 1e-9, s)
    n = 14 + 3 * THERMAL
    if T > 0 or not THERMAL:
        r.close(max_eig(Q, d, MP), GPRpy.system.max_abs_eigs(Q, d, MP), 'wave-speed', 1e-9)
    if T > 0 or not THERMAL:
        # the primitive system is the conserved one in other variables
        want = dPdQ(P, MP).dot(M).dot(dQdP(P, MP))
        r.close(M_prim(Q, d, MP)[:n, :n], want[:n, :n], 'primitive-matrix', 1e-8, s)
        still = np.concatenate([[0, 1, 2, 3, 4], np.arange(5, V - LSET)])
        want = dPdQ(P, MP).dot(S)
        want[1] -= dPdQ(P, MP)[1, 2:5].dot(S[2:5])  # a body force does no work in this model
        r.close(S_prim(None, Q, MP)[still], want[still], 'primitive-source', 1e-8, 1e-6)


@scenario('eigenvectors')
def _(r):
    """left and right eigenvectors of the primitive system, in the x direction"""
    MP, kw = some_material(r)
    ρ, p, v, A, J, λ, Q = some_state(r, MP, kw, VELS[1:], (.8, 3.), True)
    P = State(Q, MP)
    n = 14 + 3 * THERMAL
    if THERMAL and P.T() <= 0:
        raise pymc.Skip
    M = M_prim(Q, 0, MP)[:n, :n]
    if abs(np.linalg.eigvals(M).imag).max() > 1e-6:
        raise pymc.Skip  # too cold for the model to be hyperbolic
    l, L, R = eigen(P, 0, False, MP)
    s = abs(M).max()
    r.close(np.sort(l), np.sort(np.linalg.eigvals(M).real), 'values', 1e-6, s)
    r.close(M.dot(R), R * l, 'right', 1e-8, s * abs(R).max())
    r.close(L.dot(M), (L.T * l).T, 'left', 1e-8, s * abs(L).max())


@scenario('reaction')
def _(r):
    """the rate laws, called with the state's values directly"""
    MP, kw = some_material(r, True)
    comp = r.choose([.9, 1., 1.02, 1.3], 'compression')
    if kw['EOS'] == 'cc' and comp < .95:
        raise pymc.Skip
    ρ = comp * kw['ρ0']
    p = r.choose([.1, .5, 3., 12.], 'pressure')
    λ = r.choose([0., .1, .45, .65, .9, 1.], 'fraction')
    T = mg.temperature(ρ, p, MP)
    φ = 1 - λ
    if kw['REACTION'] == 'a':
        if T <= 0:
            raise pymc.Skip
        r.close(sources.K_arr(ρ, λ, T, MP), 3. * λ * np.exp(-1.5 / (.9 * T)), 'arrhenius', 1e-12, 1e-12)
    elif kw['REACTION'] == 'd':
        r.close(sources.K_dis(ρ, λ, T, MP), 4. * λ if T > .9 else 0., 'discrete', 1e-12, 1e-12)
    else:
        want = 0.
        if φ < .4:
            want += 4. * λ**(2 / 3) * max(comp - 1 - .0367, 0)**2
        if φ < .8:
            want += 1.4 * λ**(2 / 3) * φ**(1 / 3) * p**2
        if φ > .3:
            want += .7 * λ**(2 / 3) * φ**(2 / 3) * p**3
        r.close(sources.K_ing(ρ, λ, p, MP), want, 'ignition', 1e-10, 1e-10)


@scenario('relaxation')
def _(r):
    """the analytic step of the distortion and of the thermal impulse"""
    MP, kw = some_material(r)
    ρ, p, v, A, J, λ, Q = some_state(r, MP, kw, VELS[1:2], (2.,))
    dt = r.choose([0., 1e-4, 1e-2, .3, 5.], 'dt')
    force = r.choose(2, 'force')
    if force:
        MP.δp = np.array([.3, -.2, .1])
    T = mg.temperature(ρ, p, MP)
    want, got = Q.copy(), Q.copy()
    GPRpy.solvers.split.analyticSolver_distortion(want, dt, MP)
    A2 = want[5:14].copy()
    want = Q.copy()
    want[2:5] += MP.δp * dt
    want[5:14] = A2
    ode_solver_cons(got, dt, MP)
    r.close(got[:14], want[:14], 'relaxation', 1e-8)
    r.close(got[17 if THERMAL else 14:], Q[17 if THERMAL else 14:], 'other', 1e-15)
    if THERMAL and T > 0:
        # after the force and the relaxation of the distortion
        if GPRpy.system.variables.temperature(want, MP) > 0:
            GPRpy.solvers.split.analyticSolver_thermal(want, dt, MP)
            r.close(got[14:17], want[14:17], 'impulse', 1e-8, 1e-9)


@scenario('hyperelastic')
def _(r):
    """the hyperelastic form of the Godunov-Romenski material is the same material"""
    name = r.choose(['gr', 'gr-plastic', 'other'], 'material')
    kw = dict(MATS['gr' if name == 'other' else name])
    if name == 'other':
        kw.update(ρ0=8.9, α=1., β=3., γ=2., c0=4.6, b0=2.1, cv=.4, Tref=1.3)
    MP = material_params(**kw)
    H = hyperelastic_params(kw['ρ0'], kw['α'], kw['β'], kw['γ'], kw['cv'], kw['Tref'], kw['b0'],
                            np.sqrt(kw['c0']**2 + 4 / 3 * kw['b0']**2))
    S = r.choose([0., .1, -.2, .5], 'entropy')
    v = r.choose(VELS, 'velocity')[1]
    strain = r.choose(STRAINS, 'strain')[1]
    frame = r.choose(FRAMES, 'frame')[1]
    F = (np.eye(3) + strain).dot(frame) * r.choose([.93, 1., 1.05], 'stretch')
    Q = hyp.Cvec_hyp(F, S, v, H)
    A = inv(F)
    ρ = kw['ρ0'] / det(F)
    r.close(Q[0], ρ, 'density')
    r.close(Q[2:5], ρ * v, 'momentum')
    r.close(Q[5:14], A.ravel(), 'distortion')
    E = Q[1] / Q[0]
    r.close(E, hyp.total_energy_hyp(A, S, v, H), 'energy', 1e-12)
    r.close(hyp.entropy_hyp(E, A, v, H), S, 'entropy', 1e-8, 1)
    G = A.T.dot(A)
    # stress and temperature are derivatives of the energy
    h = 1e-3
    r.close(hyp.temperature_hyp(S, A, H), slope(lambda s: hyp.total_energy_hyp(A, s, v, H), S, h), 'temperature', 1e-8)
    X = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            e = np.zeros((3, 3))
            e[i, j] = 1
            X[i, j] = slope(lambda s: hyp.total_energy_hyp(A + s * e, S, v, H), 0., h)
    r.close(hyp.Sigma_hyp(ρ, A, S, H), -ρ * A.T.dot(X), 'stress', 1e-7, 1e-3)
    p = hyp.pressure_hyp(ρ, A, S, H)
    if not THERMAL and not MULTI:
        Q = np.concatenate([Q, -np.ones(LSET)])
        P = State(Q, MP)
        r.close(-P.Σ(), hyp.Sigma_hyp(ρ, A, S, H), 'gpr-stress', 1e-8, 1)
        r.close(P.p(), p, 'gpr-pressure', 1e-8, 1)
        if not strain.any():
            # with strain the model's temperature contains part of the strain energy
            r.close(P.T(), hyp.temperature_hyp(S, A, H), 'gpr-temperature', 1e-8, 1)


@scenario('rotations')
def _(r):
    """frames of every normal of an integer lattice in one to three dimensions"""
    k = r.choose([1, 2, 3], 'dimensions')
    n = np.array([float(r.choose([-2, -1, 0, 1, 2], 'n')) for _ in range(k)])
    if not n.any():
        raise pymc.Skip
    n /= norm(n)
    n0 = n.copy()
    R = rotation_matrix(n)
    r.check((n == n0).all(), 'input')
    r.close(R.dot(R.T), np.eye(3), 'orthogonal', 1e-12)
    r.close(abs(det(R)), 1., 'orthogonal', 1e-12)
    r.close(R[0, :k], n, 'first-row', 1e-14)
    Q = np.linspace(-1, 2, V)
    Q0 = Q.copy()
    rotate_tensors(Q, R)
    r.close(Q[2:5], R.dot(Q0[2:5]), 'vector', 1e-12)
    r.close(Q[5:14].reshape(3, 3), R.dot(Q0[5:14].reshape(3, 3)).dot(R.T), 'tensor', 1e-12)
    if THERMAL:
        r.close(Q[14:17], R.dot(Q0[14:17]), 'vector', 1e-12)
    rest = [0, 1] + list(range(MV, V))
    r.check((Q[rest] == Q0[rest]).all(), 'scalars')
    rotate_tensors(Q, R.T)
    r.close(Q, Q0, 'inverse', 1e-12)


@scenario('tensors')
def _(r):
    """matrix functions on every small integer matrix of a lattice"""
    X = np.array([float(r.choose([-2, 0, 1] if DEEP else ([-2, 1] if k % 4 else [0, 1, -2]), 'x'))
                  for k in range(9)]).reshape(3, 3)
    r.close(fn.tr(X), np.trace(X), 'trace')
    r.close(fn.det3(X), det(X), 'det', 1e-12, 10)
    r.close(fn.L2_2D(X), (X * X).sum(), 'norm')
    r.close(fn.L2_1D(X[0]), (X[0]**2).sum(), 'norm')
    r.close(fn.dev(X), X - np.trace(X) / 3 * np.eye(3), 'dev', 1e-14, 1)
    r.close(fn.gram(X), X.T.dot(X), 'gram')
    r.close(fn.gram_rev(X), X.dot(X.T), 'gram')
    G = X.T.dot(X)
    r.close(fn.AdevG(X, G), X.dot(G - np.trace(G) / 3 * np.eye(3)), 'AdevG', 1e-14, 1)
    r.close(fn.GdevG(G), G.dot(G - np.trace(G) / 3 * np.eye(3)), 'GdevG', 1e-14, 1)
    w = np.linalg.eigvalsh(G)
    r.close(fn.I_1(G), w.sum(), 'I1', 1e-12, 1)
    r.close(fn.I_2(G), w[0] * w[1] + w[1] * w[2] + w[2] * w[0], 'I2', 1e-10, 10)
    r.close(fn.I_3(G), w.prod(), 'I3', 1e-9, 100)
    r.close(fn.sigma_norm(G), np.sqrt(1.5 * (fn.dev(G)**2).sum()), 'sigma-norm', 1e-10, 1e-6)


if __name__ == '__main__':
    sys.exit(pymc.main())
