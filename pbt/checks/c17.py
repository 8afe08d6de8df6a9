"""C17 Arrhenius and super-Arrhenius relationships."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C17'
RULE = ('Random temperatures, activation energies, prefactors and T0, data as values with errors or as distributions, default and '
        'explicit bounds, sequences of objects built one after another: the model functions must equal A exp(-Ea / kB (T - T0)) with an '
        'independent kB in eV/K, the fitted-curve distribution and extrapolation must evaluate every posterior sample, parameters must be '
        'reported under their names and inside their own bounds whatever was built before, caller-owned bounds stay untouched, and '
        'sampling recovers known parameters (sampled cases). Non-trivial: at least three temperatures.')
ASSUMPTIONS = ['recovery: relative errors of 3 to 10 %, at least 4 temperatures spanning a factor 1.5']
QUICK, THOROUGH = 2500, 30000
KB_EV = 1.380649e-23 / 1.602176634e-19


@st.composite
def _one(draw, recover):
    n = draw(st.integers(4, 6) if recover else st.integers(1, 7))
    t0 = draw(st.integers(200, 500))
    if recover:
        t = [round(t0 * (1 + 0.8 * k / (n - 1)), 1) for k in range(n)]
    else:
        t = sorted(draw(st.lists(st.integers(150, 1500), min_size=n, max_size=n, unique=True)))
        if draw(st.integers(0, 4)) == 0:
            t = [float(x) + 0.5 for x in t]
        if draw(st.integers(0, 5)) == 0:
            t = t[::-1]
    return {'t': t, 'ea': draw(st.integers(20, 400)) / 1000, 'a': draw(st.sampled_from([1e-4, 3e-3, 0.2, 50.0])),
            'tz': draw(st.sampled_from([0.1, 0.3, 0.6])), 'err': draw(st.sampled_from([0.03, 0.1])),
            'data': draw(st.sampled_from(['errors', 'distributions'])), 'bounds': draw(st.sampled_from(
                ['default', 'explicit', 'open', 'explicit-list', 'tuple'])),
            'extra': draw(st.lists(st.integers(100, 2500), min_size=1, max_size=4)), 'mcmc': draw(st.booleans())}


@st.composite
def _cases(draw):
    recover = draw(st.integers(0, 19)) == 19
    return {'super': draw(st.booleans()), 'recover': recover, 'seq': [draw(_one(recover)) for _ in range(1 if recover else draw(
        st.integers(1, 3)))], 'seed': draw(gen.SEED)}


def strategy(tier):
    return _cases()


def truth(T, ea, a, tz=0.0):
    return a * np.exp(-ea / (KB_EV * (np.asarray(T, float) - tz)))


def samples(x):
    return np.asarray(getattr(x, 'samples', x))


def check(case):
    from kinisi import arrhenius as ar
    from uravu.distribution import Distribution
    rng = np.random.default_rng(case['seed'])
    sup = case['super']
    objs = []
    labels = ['super' if sup else 'standard']
    for o in case['seq']:
        t = np.array(o['t'])
        tz = o['tz'] * float(t.min()) if sup else 0.0
        d = truth(t, o['ea'], o['a'], tz)
        par = (o['ea'], o['a']) + ((tz,) if sup else ())
        fn = ar.super_arrhenius if sup else ar.arrhenius
        model.close(fn(t, *par), d, 'model function', rtol=1e-6)
        for T, want in zip(t, d):
            model.close(fn(T, *par), want, 'model function of one temperature', rtol=1e-6)
        if sup:
            model.close(ar.super_arrhenius(t, o['ea'], o['a'], 0.0), ar.arrhenius(t, o['ea'], o['a']), 'T0 = 0 vs Arrhenius', rtol=1e-12)
        if np.any(d < 1e-250):
            continue
        if o['data'] == 'errors':
            y, kw = d, {'diffusion_error': d * o['err']}
        else:
            y, kw = [Distribution(x * (1 + o['err'] * rng.normal(0, 1, 400))) for x in d], {}
        eb, ab = (o['ea'] * 0.3, o['ea'] * 2.5), (o['a'] * 0.1, o['a'] * 8)
        zb = (0.0, float(t.min()) * 0.9)
        how = o['bounds']
        if how == 'default':
            bounds = None
            want_b = [(0, 1), (0, 1e20)] + ([(0, t[0])] if sup else [])
        elif how == 'open' and sup:
            bounds = [eb, ab, (5.0, None)]
            want_b = [eb, ab, (5.0, t[0])]
        else:
            bounds = [eb, ab] + ([zb] if sup else [])
            want_b = list(bounds)
            if how == 'tuple':
                bounds = tuple(bounds)
        keep = copy.deepcopy(bounds)
        if bounds is not None:
            kw['bounds'] = bounds
        cls = ar.SuperArrhenius if sup else ar.StandardArrhenius
        rel = cls(t, y, **kw)
        model.require(bounds == keep, 'bounds passed in were changed')
        model.require(len(rel.bounds) == len(want_b), 'number of bounds')
        for got, want in zip(rel.bounds, want_b):
            model.close(np.asarray(got, float), np.asarray(want, float), f'bounds ({how})', rtol=1e-12)
        objs.append((rel, o, t, want_b, samples_of(rel, sup)))
        labels += [how, o['data']]
        if case['recover']:
            recover(rel, par, t, d, o, sup)
            labels.append('recovered')
        elif o['mcmc'] and how != 'default' and t.size >= 2:
            rel.max_likelihood('mini', x0=list(par))
            np.random.seed(case['seed'] % 1000)
            try:
                rel.mcmc(walkers=8, n_samples=4, n_burn=2, progress=False)
            except ValueError as e:
                if 'nitial state' not in str(e):
                    raise
            labels.append('sampled')
        consistent(rel, o, t, sup)
    for rel, o, t, want_b, s in objs:  # objects built earlier are as they were
        for got, want in zip(rel.bounds, want_b):
            model.close(np.asarray(got, float), np.asarray(want, float), 'bounds of an earlier object', rtol=1e-12)
        consistent(rel, o, t, sup)
        if rel.mcmc_results is None:
            for k, (b, x) in enumerate(zip(want_b, s)):
                model.require(x.min() >= b[0] and x.max() <= b[1], f'parameter {k} outside its bounds')
    return Info(any(len(o['t']) >= 3 for o in case['seq']), labels)


def samples_of(rel, sup):
    out = [np.array(samples(rel.activation_energy)), np.array(samples(rel.preexponential_factor))]
    if sup:
        out.append(np.array(samples(rel.T0)))
    return out


def consistent(rel, o, t, sup):
    p = [x.ravel() for x in samples_of(rel, sup)]
    chain = np.asarray(rel.flatchain)
    for k, x in enumerate(p):
        model.same(chain[:, k].ravel(), x, f'parameter {k} vs the chain')
    tz = p[2] if sup else 0.0

    def f(T):
        with np.errstate(all='ignore'):
            return p[1] * np.exp(-p[0] / (KB_EV * (T - tz)))

    grid = np.stack([f(float(T)) for T in t])
    ok = np.ones_like(grid, bool)
    if sup:  # next to the divergence rounding is amplified without limit
        ok = np.abs(t[:, None] - np.atleast_1d(tz)[None, :]) > 20 * np.maximum(1.0, 0 * p[0])[None, :]
    got = np.asarray(rel.distribution)
    model.require(got.shape == grid.shape, f'distribution of shape {got.shape}, expected {grid.shape}')
    model.close(np.where(ok, got, 0), np.where(ok, grid, 0), 'fitted-curve distribution', rtol=1e-5)
    for T in list(o['extra']) + [float(t[0])]:
        want = f(float(T))
        ok = np.abs(T - np.atleast_1d(tz) * np.ones_like(want)) > 20
        model.close(np.where(ok, samples(rel.extrapolate(T)), 0), np.where(ok, want, 0), f'extrapolation to {T} K', rtol=1e-5)


def recover(rel, par, t, d, o, sup):
    """Noise-free data: the posterior must be centred on the truth with the spread linear error propagation gives."""
    cols = [-d / (KB_EV * (t - (par[2] if sup else 0))), d / par[1]]
    if sup:
        cols.append(-d * par[0] / (KB_EV * (t - par[2])**2))
    J = np.stack(cols, axis=1) / (d * o['err'])[:, None]
    sc = np.abs(J).max(axis=0)
    cov = np.linalg.inv((J / sc).T @ (J / sc)) / np.outer(sc, sc)
    sd = np.sqrt(np.diag(cov))
    if sup or np.any(sd / np.array(par) > 0.2) or o['bounds'] == 'default':
        return
    rel.max_likelihood('mini', x0=np.array(par) * 1.001)
    rel.mcmc(walkers=16, n_samples=200, n_burn=200, progress=False)
    ea = samples(rel.activation_energy)
    z = (ea.mean() - par[0]) / sd[0]
    model.require(abs(z) < 1.5, f'activation energy {ea.mean()} recovered for {par[0]} +- {sd[0]}')
    model.require(0.4 < ea.std() / sd[0] < 2.2, f'spread of the activation energy {ea.std()}, expected {sd[0]}')
    la = np.log(samples(rel.preexponential_factor))
    model.require(abs(la.mean() - np.log(par[1])) < 2.0 * sd[1] / par[1], 'prefactor not recovered')
