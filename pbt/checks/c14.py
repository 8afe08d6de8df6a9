"""C14 transport coefficients from the fitted gradient, in the documented units."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info
from . import c12

ID = 'C14'
RULE = ('Random data sets and trajectories through the three analyses, with every axis choice (and case), particle number, charge, '
        'volume and temperature, with and without an intercept: each reported coefficient sample must be the corresponding sampled '
        'gradient converted in SI units by independent constants (gradient / 2d; per particle; Nernst-Einstein), and chain, '
        'intercept, fitted-line distribution and volume must be consistent with it. Non-trivial: always.')
QUICK, THOROUGH = 6000, 120000
E_C, KB = 1.602176634e-19, 1.380649e-23


@st.composite
def _cases(draw):
    case = {'kind': draw(st.sampled_from('DJS')), 'T': draw(st.one_of(st.sampled_from([300, 1000.0, 600]), st.integers(10, 30000).map(
        lambda k: k / 10))), 'fit': draw(st.booleans()), 'start': draw(st.integers(0, 3)), 'model': draw(st.booleans()),
        'seed': draw(st.integers(0, 999)), 'again': draw(st.booleans()), 'flip': draw(st.booleans()), 'defaults': draw(st.integers(0, 99)) == 99}
    if draw(st.integers(0, 2)) == 2:
        traj = draw(gen.trajs(max_frames=16, min_kept=9, atoms=(2, 5), max_sub=2, npt=True))
        traj['motion'] = draw(st.sampled_from(['uniform', 'gauss']))
        case.update(via='analyzer', traj=traj, clock=draw(gen.clocks()), dimension=draw(st.sampled_from(stats.DIMS)),
                    mobile=draw(st.integers(1, 5)), replicas=draw(st.sampled_from([1, 1, 2])), charge=draw(st.sampled_from([1, 2, -1])))
    else:
        ds = draw(stats.datasets(min_int=6, max_int=12, atoms=(1, 8), sub=(1, 1, 2)))
        if ds['walk'] == 'still-one':
            ds['walk'] = 'normal'
        case.update(via='direct', ds=ds, V=draw(st.one_of(st.integers(1, 10**7).map(lambda k: k / 10))))
    return case


def strategy(tier):
    return _cases()


TINY = dict(n_samples=4, n_walkers=8, n_burn=0, thin=1, progress=False)


def coefficient(kind, gradient, d, n, T, V):
    g = np.asarray(gradient) * 1e-20 / 1e-12  # m^2/s (times the charge number squared)
    if kind == 'D':
        return g / (2 * d) * 1e4
    if kind == 'J':
        return g / (2 * d) * 1e4 / n
    return g * E_C**2 / (2 * d * V * 1e-30 * KB * T) * 10  # S/m -> mS/cm


def check(case):
    kind = case['kind']
    kw = dict(TINY, fit_intercept=case['fit'], model=case['model'], random_state=np.random.RandomState(case['seed']))
    if case['via'] == 'direct':
        ds = case['ds']
        b = c12.build(kind, ds)
        dt = np.asarray(b.dt)
        if dt.size < 3 or np.any(np.asarray(b.v) <= 0):
            return Info(False, ['too few intervals'])
        start = dt[min(case['start'], dt.size - 3)]

        def go(**k):
            if kind == 'D':
                b.diffusion(start, **k)
                return b.D
            if kind == 'J':
                b.jump_diffusion(start, **k)
                return b.D_J
            b.conductivity(start, case['T'], case['V'], **k)
            return b.sigma

        first = dict(kw, fit_intercept=case['fit'] != case.get('flip', False)) if case['again'] else kw
        got = go(**first)
        if case['again']:
            got = go(**dict(kw, n_walkers=10, random_state=np.random.RandomState(case['seed'] + 1)))
        want = coefficient(kind, b.gradient.samples, len(ds['dimension']), ds['atoms'], case['T'], case['V'])
        model.close(got.samples, want, 'transport coefficient', rtol=1e-7)
        model.require((b.intercept is not None) == case['fit'], 'intercept present although none was fitted, or absent')
        model.require(np.asarray(b.flatchain).shape[1] == 1 + case['fit'], f'chain of {np.asarray(b.flatchain).shape[1]} parameters')
        for other, p in (('D', b.D), ('J', b.D_J), ('S', b.sigma)):
            if other != kind:
                model.require(p is None, f'coefficient {other} present after another analysis')
        return Info(True, ['direct', kind, ds['dimension'].lower(), f'fit={case["fit"]}', f'atoms={min(3, ds["atoms"])}'])
    spec = case['traj']
    fmt, sub = spec['fmt'], spec['sub']
    na = min(case['mobile'], len(spec['species']))
    params = dict(case['clock'], specie=None, specie_indices=list(range(na)), framework_indices=[], sub_sample_traj=sub)
    reps = [gen.build(dict(spec, seed=spec['seed'] + 13 * k)) for k in range(case['replicas'])]
    objs = [gen.to_input(t, fmt) for t in reps]
    charge = case['charge'] if kind == 'S' else None
    try:
        an = model.analyze(kind, fmt, objs if len(objs) > 1 else objs[0], params, dtype='identical' if len(objs) > 1 else None,
                           uparams={'dimension': case['dimension']}, charge=charge)
    finally:
        gen.release(objs, fmt)
    dt = np.asarray(an.dt)
    if dt.size < 3 or np.any(np.asarray(model.diff(an)['v']) <= 0):
        return Info(False, ['too few intervals'])
    model.close(an.volume, sum(abs(np.linalg.det(t.latt[0])) for t in reps), 'volume', rtol=1e-5)
    start = dt[min(case['start'], dt.size - 3)]

    def go(*k):
        if kind == 'D':
            an.diffusion(start, *k)
        elif kind == 'J':
            an.jump_diffusion(start, *k)
        else:
            an.conductivity(start, case['T'], *k)

    go(dict(kw, fit_intercept=case['fit'] != case.get('flip', False)) if case['again'] else kw)
    fit = case['fit']
    if case.get('defaults'):  # the documented defaults: 1000 samples of 32 walkers, every tenth kept, with an intercept
        go()
        fit = True
        model.require(np.asarray(an.flatchain).shape == (3200, 2), f'{np.asarray(an.flatchain).shape} samples with the default parameters')
    elif case['again']:
        go(dict(kw, n_walkers=10, random_state=np.random.RandomState(case['seed'] + 1)))
    d = model.diff(an)
    g = np.asarray(d['gradient']['samples'])
    n = na * len(reps)
    want = coefficient(kind, g, len(case['dimension']), n, case['T'], an.volume)
    got = {'D': lambda: an.D, 'J': lambda: an.D_J, 'S': lambda: an.sigma}[kind]()
    model.close(got.samples, want, 'transport coefficient', rtol=1e-7)
    line = dt[:, None] * g[None, :]
    cols = [np.asarray(got.samples)]
    if fit:
        ic = np.asarray(an.intercept.samples)
        model.same(ic, np.asarray(d['intercept']['samples']), 'intercept')
        line = line + ic
        cols.append(ic)
    else:
        model.require(an.intercept is None, 'intercept although none was fitted')
    model.close(an.distribution, line, 'fitted-line distribution', rtol=1e-9, atol=1e-9 * np.abs(line).max())
    model.close(an.flatchain, np.stack(cols, axis=1), 'chain of the coefficient and the intercept', rtol=1e-12)
    return Info(True, ['analyzer', kind, fmt, case['dimension'].lower(), f'fit={case["fit"]}', f'replicas={len(reps)}'])
