"""P31: the extension module hands arguments and results through unchanged."""
import itertools

import numpy as np

import GPRnative
import GPRpy
from pymc import scenario

OPT = GPRpy.options
N, V, LSET, THERMAL, MULTI = OPT.N(), OPT.NV(), OPT.LSET(), OPT.THERMAL(), OPT.MULTI()
MV = 14 + 3 * THERMAL
VecD, VecB = GPRpy.VectorVec, GPRpy.VectorbVec

BASE = dict(EOS=0, ρ0=1.2, Tref=0., cv=1.5, pINF=0., Γ0=0., c02=0., s=0., α=0., β=0., γ=1.4, A=0., B=0.,
            R1=0., R2=0., b02=.64, μ=.01, τ0=1., σY=0., n=1., cα2=.3, κ=.05)
REST = dict(SOLID=False, POWER_LAW=False, BINGHAM=False, MULTI=False, T0=.7, REACTION=-1, Qc=0., Kc=0.,
            Ti=0., Bc=0., Ea=0., Rc=1., I=0., G1=0., G2=0., a=0., b=0., c=0., d=0., e=0., g=0., x=0.,
            y=0., z=0., φI=0., φG1=0., φG2=0.)
OTHER = ('bf2', 'bs2', 'τf', 'τs')
INTS = ('EOS', 'REACTION')
BOOLS = ('SOLID', 'POWER_LAW', 'BINGHAM', 'MULTI')


def params(p):
    q = GPRpy.classes.Params()
    for k in BASE:
        setattr(q, k, getattr(p, k))
    return q


def par(**kw):
    p = GPRpy.classes.Par()
    for k, v in dict(BASE, **REST).items():
        setattr(p, k, v)
    for k in OTHER:
        setattr(p, k, 0.)
    p.δp = np.zeros(3)
    q = GPRpy.classes.Params()
    for k, v in BASE.items():
        setattr(q, k, v)
    p.MP2 = q
    for k, v in kw.items():
        setattr(p, k, v)
    return p


GAS = par()
SOLID = par(EOS=1, ρ0=2.7, cv=.9, Γ0=2., c02=5., s=1.3, α=1.1, β=.5, γ=2., b02=1.2, τ0=.7, σY=.2, n=2., SOLID=True,
            POWER_LAW=True)
BURN = par(REACTION=1, Qc=1.5, Bc=2., Ea=.5, Rc=1.)
PARS = [('gas', GAS), ('solid', SOLID), ('reacting', BURN)]


def state(k=0, p=GAS, e=1.):
    """the k-th state of this material: these differ by the order of e"""
    q = np.zeros(V)
    k = e * k
    ρ = p.ρ0 * (1.02 + .03 * k)
    q[0] = ρ
    q[1] = ρ * (2.4 + .2 * k)
    q[2:5] = ρ * np.array([.2 - .1 * k, .1, -.15 + .05 * k])
    A = np.eye(3) + .05 * np.array([[.5 + k, 1., 0.], [-.3, .2, .4], [.1, -.6 * k, -.4]])
    q[5:14] = (A * np.cbrt(ρ / p.ρ0 / np.linalg.det(A))).ravel()
    if THERMAL:
        q[14:17] = ρ * np.array([.03, -.02, .01 * k])
    if MULTI:
        q[MV] = ρ * .4
    q[V - LSET:] = [(-1. - k) * (i + 1) for i in range(LSET)]
    return q


def grid(shape, p=GAS):
    n = int(np.prod(shape))
    return np.concatenate([state(k % 3, p, .02) for k in range(n)])


def levels(shape):
    """a grid with an interface in its middle"""
    x = np.arange(shape[0]) - (shape[0] - 1) / 2 + .2
    φ = x if len(shape) == 1 else (x[:, None] + .1 * np.arange(shape[1])[None, :])
    return np.ascontiguousarray(φ, dtype=float).ravel()


def two(shape):
    """grid of two materials on either side"""
    u = grid(shape).reshape(-1, V)
    for i in range(LSET):
        u[:, V - LSET + i] = levels(shape) - 100 * i
    return u.ravel().copy()


I32 = np.int32


def shapes():
    return [(4,), (4, 3)]


def dims(s):
    return np.array(s, dtype=I32), np.array([.25, .5][:len(s)])


def ext(s, k):
    return int(np.prod([n + 2 * k for n in s]))


def rows(k):
    return np.concatenate([state(i % 3, GAS, .02) for i in range(k)])


def bools(n, k):
    return np.array([(i * 7 + k) % 3 != 0 for i in range(n)])


# name -> list of argument lists; arrays are handed over as copies
CALLS = {}


def calls(name, *args):
    CALLS.setdefault(name, []).extend(args)


for s in shapes():
    nX, dX = dims(s)
    nd = len(s)
    calls('boundaries', [grid(s), np.zeros(ext(s, N) * V), nX, np.array([0, 1, 2, 0][:2 * nd], dtype=I32)],
          [grid(s), np.zeros(ext(s, N) * V), nX, np.array([2, 2, 1, 1][:2 * nd], dtype=I32)])
    m = bools(ext(s, 1), 1)
    calls('extend_mask', [m, np.zeros(ext(s, 1), dtype=bool), nX])
    calls('solvers.extended_dimensions', [nX, 1], [nX, 2])
    calls('system.multi.distance', [levels(s), dX, nX])
    calls('multi.renormalize_levelsets', [two(s).reshape(-1, V), dX, nX])
    calls('multi.finite_difference', [np.zeros((int(np.prod(s)), nd)), levels(s), dX, nX])
    calls('multi.find_interface_cells', [np.zeros(int(np.prod(s)), dtype=I32), levels(s), nX])
    φ, Δ = levels(s), np.zeros((int(np.prod(s)), nd))
    GPRpy.multi.finite_difference(Δ, φ, dX, nX)
    k = np.zeros(int(np.prod(s)), dtype=I32)
    GPRpy.multi.find_interface_cells(k, φ, nX)
    calls('multi.fill_boundary_cells', [two(s), k, 1, φ, Δ, dX, [GAS, SOLID, GAS][:LSET + 1], .01, nX])
    calls('multi.fill_neighbor_cells', [two(s), k, Δ, dX, nX])
    n = int(np.prod(s))
    calls('multi.fill_ghost_cells', [VecD([two(s) for i in range(LSET + 1)]),
                                     VecB([np.zeros(n, dtype=bool) for i in range(LSET + 1)]), two(s), nX,
                                     dX, .01, [GAS, SOLID, GAS][:LSET + 1]])
    calls('multi.material_indicator', [np.zeros(n), two(s).reshape(-1, V), 0, LSET + 1, dX, nX])
    for name in ('ader_stepper', 'ader_stepper_para', 'split_stepper', 'split_stepper_para'):
        for flag in (False, True):
            calls('solvers.' + name, [grid(s), rows(ext(s, N)), nX, .01, dX, flag, 0, GAS, bools(ext(s, 1), flag)])
    calls('solvers.weno.weno_launcher', [np.zeros(ext(s, 1) * N**nd * V), rows(ext(s, N)), nX, GAS])
    w, q = rows(ext(s, 1) * N**nd), rows(ext(s, 1) * N**(nd + 1))
    calls('solvers.split.midstepper', [w, .01, dX, GAS, bools(ext(s, 1), 0)])
    calls('solvers.fv.fv_launcher', [grid(s), w, nX, .01, dX, True, False, 0, GAS, bools(ext(s, 1), 0)],
          [grid(s), q, nX, .02, dX, False, True, 1, GAS, bools(ext(s, 1), 1)])
    if nd == 1:
        calls('solvers.fv.centers1', [grid(s), w, s[0], .01, .25, True, False, GAS, bools(ext(s, 1), 0)],
              [grid(s), q, s[0], .01, .25, False, True, GAS, bools(ext(s, 1), 0)])
        calls('solvers.fv.interfs1', [grid(s), w, s[0], .01, .25, False, 1, GAS, bools(ext(s, 1), 0)],
              [grid(s), q, s[0], .01, .25, True, 0, GAS, bools(ext(s, 1), 0)])
    else:
        calls('solvers.fv.centers2', [grid(s), w, s[0], s[1], .01, .25, .5, True, False, GAS, bools(ext(s, 1), 0)])
        calls('solvers.fv.interfs2', [grid(s), q, s[0], s[1], .01, .25, .5, True, 0, GAS, bools(ext(s, 1), 0)])
    gs = VecD([grid(s) * (1 + .01 * i) for i in range(LSET + 1)])
    ms = VecB([bools(n, i) for i in range(LSET + 1)])
    ps = [GAS, SOLID, GAS][:LSET + 1]
    calls('solvers.make_u', [grid(s), gs, ms, ps])
    calls('solvers.timestep', [gs, ms, dX, .5, 0., 1., 3, ps, LSET + 1], [gs, ms, dX, .5, .1, .1001, 9, ps, LSET + 1])
    bt = np.zeros(2 * nd, dtype=I32)
    for split, half, stiff, fl in ((True, False, False, 0), (True, True, False, 1), (False, False, False, 0), (False, True, True, 0)):
        calls('solvers.iterator', [grid(s), .02, nX, dX, .5, bt, split, half, stiff, fl, ps, 1.5])
for t in (1.01, 3.):
    calls('solvers.contorted', [grid((3,)), t])
for name in ('solvers.renorm_distortion', 'solvers.rotate_distortion'):
    calls(name, [grid((3,)) * 1.02, [GAS, SOLID, GAS][:LSET + 1]])
for _, p in PARS:
    for k in (0, 2):
        q = state(k, p)
        for d in (0, 1, 2):
            calls('system.flux', [np.full(V, .5), q, d, p])
            calls('system.block', [np.zeros((V, V)), q, d])
            calls('system.Bdot', [np.zeros(V), q, state(1, p), d, p])
            for name in ('system.system_matrix', 'system.max_abs_eigs', 'system.thermo_acoustic_tensor', 'system.dFdP'):
                calls(name, [q, d, p])
            for name in ('Bint', 'D_RUS', 'D_ROE', 'D_OSH'):
                calls('solvers.fv.' + name, [q, state(1, p), d, p])
        calls('system.multi.eigen', [q, 0, p])
        if THERMAL is False or p is not BURN:
            calls('system.source', [np.zeros(V), q, p])
        for name in ('system.dPdQ', 'system.variables.pressure', 'system.variables.temperature', 'system.variables.dEdρ'):
            calls(name, [q, p])
        calls('system.multi.riemann_constraints', [q, 1., p], [q, -1., p])
        calls('system.multi.star_stepper', [q, state(1, GAS), p, GAS])
        calls('system.multi.left_star_state', [q, state(1, GAS), p, GAS, .01, np.array([.6, .8])],
              [q, state(1, GAS), p, GAS, .01, np.array([-1.])])
        calls('system.variables.temperature_mg', [p.ρ0 * 1.1, .8 + k, params(p)])
        for dt in (.01, 2.):
            calls('solvers.split.analyticSolver_distortion', [q, dt, p])
            if THERMAL:
                calls('solvers.split.analyticSolver_thermal', [q, dt, p])
            calls('solvers.split.ode_launcher', [np.concatenate([q, state(1, p)]), dt, p])
        if MULTI and p is BURN:
            calls('system.reaction_rate', [q, p])
            calls('system.variables.reaction_rate', [q, p])
            for name in ('system.ode_stepper_numerical', 'solvers.split.ode_stepper_numerical'):
                calls(name, [q, .05, p])
MIX = par(EOS=0, MULTI=True)
if MULTI:
    for k in (0, 1):
        calls('system.variables.solve_multi', [state(k, MIX), MIX])
A0, A1 = np.array([[2., 1.], [0., 3.]]), np.array([[4., 1., 0.], [1., 3., -1.], [.5, 0., 2.]])
for A, b in ((A0, np.array([1., -2.])), (A1, np.array([1., 0., 2.]))):
    calls('scipy.lgmres_wrapper', [A, b, np.zeros(len(b)), np.eye(len(b)) * .3, 1e-9, 50, 2, 1, VecD()],
          [A, b, b * .5, np.eye(len(b)), 1e-6, 20, 30, 3, VecD([b * 1.])])
EPS = GPRnative.epsilon()
calls('scipy.newton_krylov', [lambda x: np.array([x[0]**2 - 2., x[0] * x[1] - 1.]), np.array([1., 1.]), EPS, np.inf, np.inf, np.inf],
      [lambda x: x * x * x - np.array([8., 27.]), np.array([1.5, 2.]), 1e-9, 1e-3, .5, np.inf])
for y in (.7, 2.):
    calls('solvers.split.stiff_ode_solve', [y, .3, lambda t: -2 * t])
    calls('solvers.split.runge_kutta_launcher', [lambda t: 1 - t, .4, y, 3])
NOARG = ['solvers.common.scaled_nodes', 'solvers.common.scaled_weights']
BASIS = {'solvers.common.end_values': 1, 'solvers.common.derivative_values': 2,
         'solvers.weno.coefficient_matrices': 1, 'solvers.weno.oscillation_indicator': 1}
NAMES = sorted(CALLS)


def find(name):
    f = GPRpy
    for part in name.split('.'):
        f = getattr(f, part)
    return f


def copy(a):
    if isinstance(a, np.ndarray):
        return a.copy()
    if isinstance(a, VecD):
        return VecD([np.array(x) for x in a])
    if isinstance(a, VecB):
        return VecB([np.array(x) for x in a])
    return a


def plain(a):
    """for the second binding: lists instead of the opaque vectors"""
    return [np.array(x) for x in a] if isinstance(a, (VecD, VecB)) else copy(a)


def bits(x):
    if x is None:
        return b''
    if isinstance(x, (VecD, VecB, list, tuple)):
        return b'|'.join(bits(y) for y in x)
    a = np.asarray(x)
    if a.dtype.kind == 'f':
        a = np.where(np.isnan(a), np.nan, a)
    return str(a.shape).encode() + a.dtype.kind.encode() + np.ascontiguousarray(a).tobytes()


def same(x, y):
    return bits(x) == bits(y)


def compare(r, name, args, ret, ref, key):
    r.check(same(ret, ref[0]), key + '-result', '%s returned %s, not %s' % (name, str(ret)[:120], str(ref[0])[:120]))
    for i, want in enumerate(ref[1:]):
        if want is not None:
            r.check(same(args[i], want), key + '-argument',
                    '%s: argument %d is not what the call makes of it' % (name, i))
    r.outcomes.add(hash(bits(ref[0])))


def run_native(name, args):
    return getattr(GPRnative, name)(*[plain(a) for a in args])


def vary(a, kind):
    """-> (the array in another representation, or None if it has no such)"""
    if not isinstance(a, np.ndarray):
        return None
    if kind == 'strided':
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v if a.size > 1 else None
    if kind == 'fortran':
        return np.asfortranarray(a) if a.ndim == 2 and min(a.shape) > 1 else None
    if kind == 'single':
        return a.astype(np.float32) if a.dtype == float else None
    if kind == 'long':
        return a.astype(np.int64) if a.dtype == I32 else None
    if kind == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == 'list':
        return a.tolist()
    return None


@scenario('calls')
def _(r):
    name = r.choose(NAMES, 'function')
    args = CALLS[name][r.choose(len(CALLS[name]), 'arguments')]
    ref = run_native(name, args)
    f = find(name)
    mine = [copy(a) for a in args]
    for again in range(2):
        mine = [copy(a) for a in args]
        compare(r, name, mine, f(*mine), ref, 'call')


@scenario('representations')
def _(r):
    name = r.choose(NAMES, 'function')
    args = CALLS[name][0]
    i = r.choose(len(args), 'argument')
    kind = r.choose(['strided', 'fortran', 'single', 'long', 'readonly', 'list'], 'kind')
    a = vary(args[i], kind)
    if a is None:
        return r.check(True, '')
    ref = run_native(name, args)
    mine = [copy(x) for x in args]
    mine[i] = a
    before = [bits(x) for x in mine]
    try:
        ret = find(name)(*mine)
    except TypeError:
        return r.check([bits(x) for x in mine] == before, 'refused-after',
                       '%s refused a %s argument %d after writing' % (name, kind, i))
    # accepted: as if it had been given in the usual one, and what is written arrives
    if kind == 'single':
        return r.check(ref[1 + i] is None or len(ref) <= 1 + i or same(np.array(ref[1 + i]), args[i]), 'lost',
                       '%s wrote to a copy of argument %d' % (name, i))
    r.check(same(ret, ref[0]), 'kind-result', '%s with a %s argument %d returned %s' % (name, kind, i, str(ret)[:100]))
    for j, want in enumerate(ref[1:]):
        if want is not None:
            got = np.asarray(mine[j]) if j == i else mine[j]
            w = np.asarray(want)
            if j == i and got.dtype != w.dtype and got.dtype.kind == w.dtype.kind:
                got = got.astype(w.dtype)
            r.check(same(got, want), 'lost', '%s with a %s argument %d: argument %d is not what the call makes of it' % (
                name, kind, i, j))


@scenario('pairs')
def _(r):
    first = r.choose(NAMES, 'first')
    name = r.choose(NAMES, 'then')
    if 'iterator' in first or 'iterator' in name:
        return r.check(True, '')
    find(first)(*[copy(a) for a in CALLS[first][-1]])
    args = CALLS[name][0]
    mine = [copy(a) for a in args]
    compare(r, name, mine, find(name)(*mine), run_native(name, args), 'after-' + first)


def value(k, j):
    if k in INTS:
        return j + 1
    if k in BOOLS:
        return bool(j)
    return .125 + j


@scenario('fields')
def _(r):
    cls, fields = r.choose([('Params', GPRnative.params_fields), ('Par', GPRnative.par_fields),
                            ('MP2', GPRnative.par_fields)], 'class')
    p = GPRpy.classes.Params() if cls != 'Par' else GPRpy.classes.Par()
    names = list(BASE) + (list(REST) + list(OTHER) if cls == 'Par' else [])
    k = r.choose(names, 'field')
    j = r.choose(2, 'value')
    for n, x in enumerate(names):
        setattr(p, x, value(x, 0) if x in INTS + BOOLS else 10. + n)
    if cls == 'Par':
        p.δp = np.array([1.5, 2.5, 3.5])
        p.MP2 = GAS.MP2
    before = fields(p) if cls != 'MP2' else None
    if cls == 'MP2':
        q = par()
        q.MP2 = p
        before = fields(q)
    setattr(p, k, value(k, j))
    if cls == 'MP2':
        r.check(same(list(fields(q).values()), list(before.values())), 'alias', 'MP2 follows a later change of %s' % k)
        q.MP2 = p
    after = fields(q if cls == 'MP2' else p)
    want = dict(before)
    want['MP2.' + k if cls == 'MP2' else k] = value(k, j)
    for x in want:
        r.check(same(after[x], want[x]), 'field', 'setting %s: %s is %r, not %r' % (k, x, after[x], want[x]))
    r.check(getattr(p, k) == value(k, j), 'field', '%s reads %r, not %r' % (k, getattr(p, k), value(k, j)))
    if cls == 'Par':
        p.δp = np.array([.5, -1., j])
        r.check(fields(p)['δp'] == [.5, -1., j] and list(p.δp) == [.5, -1., j], 'field', 'δp')
    if cls == 'MP2':
        r.check(getattr(q.MP2, k) == value(k, j), 'field', 'MP2.%s' % k)


@scenario('constants')
def _(r):
    k = r.choose(['options', 'basis'] + NOARG + sorted(BASIS), 'what')
    if k == 'options':
        for o, v in GPRnative.options().items():
            r.check(getattr(OPT, o)() == v, 'option', '%s is %r, not %r' % (o, getattr(OPT, o)(), v))
        return
    polys = GPRpy.solvers.common.basis_polys()
    if k == 'basis':
        want = getattr(GPRnative, 'solvers.common.basis_polys')()[0]
        return r.check(same([p.coef for p in polys], want), 'constant', 'basis_polys')
    args = [] if k in NOARG else [polys, GPRpy.solvers.common.scaled_nodes()][:BASIS[k]]
    r.check(same(find(k)(*args), getattr(GPRnative, k)()[0]), 'constant', k)


@scenario('polynomials')
def _(r):
    op = r.choose(['intt', 'diff', 'eval'], 'operation')
    c = np.array([.5, -1., 2., .25][:1 + r.choose(4, 'degree')])
    x = r.choose([0., 1., -.75], 'x')
    p = GPRpy.classes.poly(c.copy())
    r.check(same(p.coef, c), 'poly', 'coefficients')
    more = [x] if op == 'eval' else [r.choose(list(range(len(c))), 'times')] if op == 'diff' else []
    got = getattr(p, op)(*more)
    want = getattr(GPRnative, 'poly.' + op)(c, *more)[0]
    got = got if op == 'eval' else got.coef
    r.check(same(got, want), 'poly', '%s: %s, not %s' % (op, got, want))
    r.check(same(p.coef, c), 'poly', 'coefficients changed')
    p.coef = c * 2
    r.check(same(p.coef, c * 2), 'poly', 'coefficients set')


# every subset of the optional arguments left out
@scenario('defaults')
def _(r):
    A, b = r.choose([('small', (A0, np.array([1., -2.]))), ('large', (A1, np.array([1., 0., 2.])))], 'system')[1]
    std = dict(x0=np.zeros(0), M=np.zeros((0, 0)), tol=1e-5, maxiter=1000, inner_m=30, outer_k=3, outer_v=VecD())
    own = dict(x0=b * .5, M=np.diag(np.arange(1., len(b) + 1)), tol=1e-2, maxiter=1, inner_m=1, outer_k=1, outer_v=VecD([b * 1.]))
    kw = {k: own[k] for k in std if r.choose(2, k)}
    full = dict(std, **kw)
    want = run_native('scipy.lgmres_wrapper', [A, b] + [full[k] for k in std])
    mine = {k: copy(v) for k, v in kw.items()}
    a, c = A.copy(), b.copy()
    got = GPRpy.scipy.lgmres_wrapper(a, c, **mine)
    r.check(same(got, want[0]), 'default', 'lgmres_wrapper with %s: %s, not %s' % (sorted(kw), got, want[0]))
    r.check(same(a, A) and same(c, b), 'default', 'lgmres_wrapper changed its system')
    if 'outer_v' in kw:
        r.check(same(mine['outer_v'], want[9]), 'default', 'outer_v')


def nonlinear(x):
    return np.array([x[0]**2 - 2., x[0] * x[1] - 1.])


@scenario('newton-defaults')
def _(r):
    std = dict(f_tol=EPS, f_rtol=np.inf, x_tol=np.inf, x_rtol=np.inf)
    own = dict(f_tol=1e-3, f_rtol=1e-1, x_tol=1e-1, x_rtol=1e-1)
    kw = {k: own[k] for k in std if r.choose(2, k)}
    x = np.array([r.choose([1., 5.], 'start'), 1.])
    full = dict(std, **kw)
    want = run_native('scipy.newton_krylov', [nonlinear, x] + [full[k] for k in std])
    got = GPRpy.scipy.newton_krylov(nonlinear, x.copy(), **kw)
    r.check(same(got, want[0]), 'default', 'newton_krylov with %s: %s, not %s' % (sorted(kw), got, want[0]))


class Broken(Exception):
    pass


# a function of the caller fails at its k-th call: the error arrives, and leaves no trace
@scenario('faults')
def _(r):
    what = r.choose(['newton', 'stiff', 'rk'], 'solver')
    at = r.choose(12, 'fails at')
    n = [0]

    def fail(f):
        def g(x):
            n[0] += 1
            if n[0] > at:
                raise Broken()
            return f(x)
        return g

    def solve(f):
        if what == 'newton':
            return GPRpy.scipy.newton_krylov(f(nonlinear), np.array([1., 1.]))
        if what == 'stiff':
            return GPRpy.solvers.split.stiff_ode_solve(.7, .3, f(lambda t: -2 * t))
        return GPRpy.solvers.split.runge_kutta_launcher(f(lambda t: 1 - t), .4, .7, 3)
    want = solve(lambda f: f)
    try:
        got, raised = solve(fail), False
    except Broken:
        raised = True
    r.check(raised == (n[0] > at), 'fault', '%s: the error of call %d was lost' % (what, at))
    if not raised:
        r.check(same(got, want), 'fault', '%s: another result' % what)
    r.check(same(solve(lambda f: f), want), 'fault', '%s: another result after the error' % what)
