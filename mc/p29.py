"""P29: the builder sets exactly the parameters that the description of a material calls
for, from the arguments of the same name, and materials share nothing."""
import sys

import numpy as np

import GPRpy
import pymc
from pymc import scenario

from gpr.misc.objects import hyperelastic_params, material_params

CODE = {'sg': 0, 'smg': 1, 'jwl': 2, 'cc': 3, 'gr': 4}
DEEP = '--tier' in sys.argv and 'thorough' in sys.argv
NUM = ('ρ0', 'Tref', 'cv', 'pINF', 'Γ0', 'c02', 's', 'α', 'β', 'γ', 'A', 'B', 'R1', 'R2', 'b02', 'μ',
       'τ0', 'σY', 'n', 'cα2', 'κ')
FIRST = NUM + ('bf2', 'bs2', 'τf', 'τs', 'T0', 'Qc', 'Kc', 'Ti', 'Bc', 'Ea', 'Rc', 'I', 'G1', 'G2', 'a', 'b',
               'c', 'd', 'e', 'g', 'x', 'y', 'z', 'φI', 'φG1', 'φG2')
FLAGS = ('SOLID', 'POWER_LAW', 'BINGHAM', 'MULTI')


def component(r, second):
    """arguments of one component and the parameters that they call for"""
    q = 100. if second else 0.   # every argument has a value of its own
    t = '_2' if second else ''
    kw, want = {}, {}

    def give(arg, val, **sets):
        kw[arg + t] = val
        for k, v in sets.items():
            want[k] = v

    eos = r.choose(list(CODE), 'EOS' + t)
    kw['EOS' + t] = eos
    want['EOS'] = CODE[eos]
    cv = r.choose(['cv', 'cv-Tref', 'none'], 'cv')
    if cv != 'none':
        give('cv', 1.5 + q, cv=1.5 + q)
        want['Tref'] = 0.
        if cv == 'cv-Tref':
            give('Tref', 300. + q, Tref=300. + q)
    if eos == 'sg':
        give('γ', 1.4 + q, γ=1.4 + q)
        want['pINF'] = 0.
        if r.choose(2, 'pINF'):
            give('pINF', 6. + q, pINF=6. + q)
    if eos == 'smg':
        give('Γ0', 2.1 + q, Γ0=2.1 + q)
        give('c0', 3. + q, c02=(3. + q)**2)
        give('s', 1.3 + q, s=1.3 + q)
    if eos == 'gr':
        give('c0', 3. + q, c02=(3. + q)**2)
        give('α', 1.1 + q, α=1.1 + q)
        give('γ', 1.9 + q, γ=1.9 + q)
        want['β'] = 0.
    if eos in ('jwl', 'cc'):
        for i, k in enumerate(('Γ0', 'A', 'B', 'R1', 'R2')):
            give(k, .3 + i + q, **{k: .3 + i + q})
    beta = r.choose(2, 'β')
    if beta:
        give('β', 3.5 + q)
        if eos == 'gr':
            want['β'] = 3.5 + q
    shear = r.choose(2, 'b0')
    flags = dict(SOLID=False, POWER_LAW=False, BINGHAM=False)
    viscous = False
    if shear:
        give('b0', 2.5 + q, b02=(2.5 + q)**2)
        want['β'] = 3.5 + q if beta else 0.
        want['n'] = None if second else 1.
        # every combination of the arguments that choose between the laws
        given = {k: r.choose(2, k) for k in (('μ', 'n') if second else ('μ', 'n', 'σY', 'τ0'))}
        for k, v in (('μ', .01), ('n', .6), ('σY', .2), ('τ0', .7)):
            if given.get(k):
                give(k, v + q, **{k: v + q})
        viscous = given['μ']
        if given['n']:
            flags = dict(SOLID=bool(given.get('σY')), POWER_LAW=True, BINGHAM=False)
        else:
            flags = dict(SOLID=not given['μ'], POWER_LAW=False, BINGHAM=bool(given['μ'] and given.get('σY')))
    heat = r.choose(['none', 'κ'] + (['Pr'] if eos == 'sg' and cv != 'none' and
                                     viscous else []), 'heat')
    if heat != 'none':
        give('cα', .4 + q, cα2=(.4 + q)**2)
        if heat == 'κ':
            give('κ', .9 + q, κ=.9 + q)
        else:
            give('Pr', .75 + q)
            want['κ'] = (.01 + q) * (1.4 + q) * (1.5 + q) / (.75 + q)
    return kw, want, flags


def compare(r, P, want, names, what):
    for k in names:
        w = want.get(k, 0.)
        if w is None:
            continue
        g = getattr(P, k)
        r.check(abs(g - w) <= 1e-12 * abs(w), what + '-' + k, '%s is %r, not %r' % (k, g, w))


def reaction(r):
    law = r.choose(['none', 'd', 'a', 'i'], 'reaction')
    kw, want = {}, dict(REACTION=-1)
    if law != 'none':
        kw = dict(REACTION=law, Qc=7.)
        want = dict(REACTION='dai'.index(law), Qc=7.)
        args = {'d': ('Kc', 'Ti'), 'a': ('Bc', 'Ea', 'Rc'),
                'i': ('I', 'G1', 'G2', 'a', 'b', 'c', 'd', 'e', 'g', 'x', 'y', 'z', 'φI', 'φG1', 'φG2')}[law]
        for i, k in enumerate(args):
            kw[k] = want[k] = .11 * (i + 1)
    return kw, want


@scenario('single')
def _(r):
    kw, want, flags = component(r, False)
    k2, w2 = reaction(r)
    kw.update(k2)
    want.update(w2)
    δp = np.array([.1, -.2, .3]) if r.choose(2, 'δp') else None
    M = material_params(ρ0=2.7, δp=δp, **kw)
    want['ρ0'] = 2.7
    compare(r, M, want, FIRST + ('EOS', 'REACTION'), 'set')
    for k in FLAGS:
        r.check(bool(getattr(M, k)) == flags.get(k, False), 'flag-' + k, str(getattr(M, k)))
    r.close(M.δp, np.zeros(3) if δp is None else δp, 'set-δp')
    compare(r, M.MP2, {}, NUM, 'second')


FIRSTS = [
    (dict(EOS='jwl', cv=1., Γ0=.3, A=.4, B=.5, R1=.6, R2=.7, b0=2., μ=.1),
     dict(EOS=2, cv=1., Γ0=.3, A=.4, B=.5, R1=.6, R2=.7, b02=4., μ=.1, n=1.), {}),
    (dict(EOS='sg', cv=1., γ=1.6), dict(EOS=0, cv=1., γ=1.6), {}),
    # everything set
    (dict(EOS='sg', cv=1., Tref=.2, γ=1.6, pINF=.7, β=.5, b0=3., μ=.1, n=1.5, cα=.5, κ=.6),
     dict(EOS=0, cv=1., Tref=.2, γ=1.6, pINF=.7, β=.5, b02=9., μ=.1, n=1.5, cα2=.25, κ=.6), dict(POWER_LAW=True)),
    (dict(EOS='smg', cv=1., c0=2., Γ0=1.5, s=1.3, b0=3., σY=.3, τ0=.4, n=2.),
     dict(EOS=1, cv=1., c02=4., Γ0=1.5, s=1.3, b02=9., σY=.3, τ0=.4, n=2.), dict(SOLID=True, POWER_LAW=True)),
    (dict(EOS='gr', cv=1., c0=2., α=1.5, β=.3, γ=1.7, b0=3.), dict(EOS=4, cv=1., c02=4., α=1.5, β=.3, γ=1.7, b02=9., n=1.),
     dict(SOLID=True)),
    (dict(EOS='cc', Γ0=.3, A=.4, B=.5, R1=.6, R2=.7), dict(EOS=3, Γ0=.3, A=.4, B=.5, R1=.6, R2=.7), {}),
]


@scenario('mixture')
def _(r):
    kw, want, flags = component(r, False) if DEEP else r.choose(FIRSTS, 'first')
    want = dict(want)
    k2, want2, _f = component(r, True)
    kw = dict(kw)
    kw.update(k2)
    k3, w3 = reaction(r) if DEEP else (dict(REACTION='a', Qc=1., Bc=2., Ea=3., Rc=4.),
                                        dict(REACTION=1, Qc=1., Bc=2., Ea=3., Rc=4.))
    kw.update(k3)
    want = dict(want, **w3)
    M = material_params(ρ0=1.8, MULTI=True, **kw)
    want['ρ0'] = want2['ρ0'] = 1.8
    compare(r, M, want, FIRST + ('EOS', 'REACTION'), 'first')
    compare(r, M.MP2, want2, NUM + ('EOS',), 'second')
    for k in FLAGS:
        r.check(bool(getattr(M, k)) == (k == 'MULTI' or flags.get(k, False)), 'flag-' + k, str(getattr(M, k)))


RECIPES = [
    ('gas', dict(EOS='sg', ρ0=1.2, cv=1.5, γ=1.4, b0=.8, cα=.5, μ=1e-2, Pr=.75)),
    ('plastic', dict(EOS='smg', ρ0=2.7, cv=.9, Γ0=2., c0=2.3, s=1.3, b0=1.1, σY=.2, τ0=.7, n=2)),
    ('explosive', dict(EOS='jwl', ρ0=1.84, cv=.8, Γ0=.25, A=8., B=.2, R1=4.6, R2=1.35, b0=.8, μ=.1,
                       REACTION='d', Qc=1.5, Kc=4., Ti=.9, δp=np.array([1., 2., 3.]))),
    ('mixture', dict(EOS='jwl', ρ0=1.84, cv=.8, Γ0=.25, A=8., B=.2, R1=4.6, R2=1.35, b0=.8, μ=.1,
                     REACTION='d', Qc=1.5, Kc=4., Ti=.9, MULTI=True, EOS_2='sg', cv_2=2., γ_2=1.3, b0_2=.5)),
    ('vacuum', dict(EOS='vac', ρ0=0)),
]


def snapshot(M):
    return [getattr(M, k) for k in FIRST + FLAGS + ('EOS', 'REACTION')] + list(M.δp) + \
        [getattr(M.MP2, k) for k in NUM + ('EOS',)]


ALONE = {n: snapshot(material_params(**kw)) for n, kw in RECIPES}


@scenario('history')
def _(r):
    """materials built in any order, some of them changed in between, stay what they are"""
    made = []
    for i in range(4 if DEEP else 3):
        n, kw = r.choose(RECIPES, 'build')
        M = material_params(**kw)
        r.check(snapshot(M) == ALONE[n], 'depends-on-history', n)
        for M0, n0, s0 in made:
            r.check(snapshot(M0) == s0, 'changed-by-another', n0)
        how = r.choose(['none', 'force', 'density', 'second'], 'change')
        if how == 'force':
            M.δp = np.array([9., 9., 9.])
        elif how == 'density':
            M.ρ0 = 55.
        elif how == 'second':
            M.MP2.cv = 44.
        made.append((M, n, snapshot(M)))
    for n, kw in RECIPES:
        if 'δp' in kw:
            r.close(kw['δp'], [1., 2., 3.], 'argument-changed')


@scenario('vacuum')
def _(r):
    M = material_params(EOS='vac', ρ0=0)
    r.check(M.EOS == -1 and M.REACTION == -1, 'vacuum', '%s %s' % (M.EOS, M.REACTION))
    for k in FLAGS:
        r.check(not getattr(M, k), 'vacuum-' + k)


@scenario('hyperelastic')
def _(r):
    v = [r.choose([1.5, 2.5], n) for n in ('ρ0', 'α', 'β', 'γ', 'cv', 'T0', 'b0')] + [r.choose([5., 7.], 'c0')]
    H = hyperelastic_params(*v)
    for k, w in zip(('ρ0', 'α', 'β', 'γ', 'cv', 'T0'), v):
        r.check(getattr(H, k) == w, k)
    r.close(H.b02, v[6]**2, 'b02', 1e-14)
    r.close(H.K0, v[7]**2 - 4 / 3 * v[6]**2, 'K0', 1e-13)


if __name__ == '__main__':
    sys.exit(pymc.main())
