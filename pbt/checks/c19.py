"""C19 posterior predictive samples."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info
from . import c12

ID = 'C19'
RULE = ('Random data sets, start times, covariance settings, with and without an intercept, through estimators and analyzers: '
        'predictive samples must come as n_posterior * n_predictive rows over the fitted intervals, in groups that are each centred on '
        'the line of one joint posterior sample (whitened chi-squared test) with the covariance matrix as spread, every posterior '
        'sample being equally likely, with the documented defaults. Non-trivial: at least four intervals.')
ASSUMPTIONS = ['cond_max <= 1e4 so that the covariance matrix can be whitened']
QUICK, THOROUGH = 2000, 40000


@st.composite
def _cases(draw):
    ds = draw(stats.datasets(min_int=6, max_int=10, atoms=(2, 6), sub=(1,)))
    if ds['walk'] == 'still-one':
        ds['walk'] = 'normal'
    kind = draw(st.sampled_from('DJS'))
    if kind != 'D':
        ds['n'] = max(ds['n'], 20)
        ds['ints'] = list(range(1, 1 + 2 * draw(st.integers(4, 7))))
    return {'ds': ds, 'kind': kind, 'cond': draw(st.sampled_from([1e4, 1e2])), 'model': draw(st.booleans()), 'start': draw(st.integers(0, 4)),
            'fit': draw(st.sampled_from([True, True, False])), 'seed': draw(st.integers(0, 9999)), 'how': draw(st.sampled_from(
                ['stats', 'stats', 'stats', 'default-posterior', 'default-predictive', 'tiny', 'each', 'made', 'made-one'])),
            'made': draw(st.sampled_from([5, 60, 700, 1500, 2500])), 'burn': draw(st.sampled_from([5, 60]))}


def strategy(tier):
    return _cases()


def made(b, case, x, c):
    from uravu.distribution import Distribution
    rng = np.random.default_rng(case['seed'])
    n = case['made']
    w, u = np.linalg.eigh((c + c.T) / 2)
    wh = (u / np.sqrt(w)).T
    sx, s1 = np.linalg.norm(wh @ x), np.linalg.norm(wh @ np.ones_like(x))
    g = (1 + rng.permutation(n)) * 60 / sx
    ic = rng.integers(0, n, n) * 60 / s1 if case['fit'] else np.zeros(n)
    d = b.to_dict()
    d['gradient'] = Distribution(g).to_dict()
    if case['fit']:
        d['intercept'] = Distribution(ic).to_dict()
    d['flatchain'] = np.stack([g, ic], axis=1) if case['fit'] else g[:, None]
    return type(b).from_dict(d), g, ic


def check(case):
    ds, kind = case['ds'], case['kind']
    b = c12.build(kind, ds)
    dt, v = np.asarray(b.dt), np.asarray(b.v)
    if dt.size < 3 or np.any(v <= 0):
        return Info(False, ['too few intervals'])
    k = min(case['start'], dt.size - 3)
    few = case['how'] == 'each'
    c12.run(b, kind, dt[k], cond_max=case['cond'], model=case['model'], fit_intercept=case['fit'], n_walkers=8,
            n_samples=1 if few else 30, n_burn=60 if few else case['burn'], thin=1 if few else 3, progress=False, random_state=np.random.RandomState(case['seed']))
    x = dt[k:]
    c = np.asarray(b.covariance_matrix)
    g = np.asarray(b.gradient.samples)
    ic = np.asarray(b.intercept.samples) if case['fit'] else np.zeros_like(g)
    how = case['how']
    if how in ('made', 'made-one'):  # a posterior of well separated samples, so that it can be seen which one was used where
        b, g, ic = made(b, case, x, c)
    lines = g[:, None] * x + ic[:, None]
    n_post, n_pred = {'stats': (300, 12), 'default-posterior': (g.size, 3), 'default-predictive': (2, 256), 'tiny': (1, 1),
                      'each': (240, 1000), 'made': (200, 4), 'made-one': (200, 1)}[how]
    kw = {'progress': False}
    if how != 'default-posterior':
        kw['n_posterior_samples'] = n_post
    if how != 'default-predictive':
        kw['n_predictive_samples'] = n_pred
    np.random.seed(case['seed'])
    p = np.asarray(b.posterior_predictive(**kw))
    model.require(p.shape == (n_post * n_pred, x.size), f'predictive samples of shape {p.shape}, expected {(n_post * n_pred, x.size)}')
    model.require(np.all(np.isfinite(p)), 'non-finite predictive sample')
    model.require(len(np.unique(p, axis=0)) == len(p), 'the same predictive sample appears twice')
    q2 = np.asarray(b.posterior_predictive(n_posterior_samples=1, n_predictive_samples=2, progress=False))
    model.require(not np.isin(q2, p).all(axis=1).any(), 'a second call repeats the samples of the first')
    w, u = np.linalg.eigh((c + c.T) / 2)
    wh = (u / np.sqrt(w)).T  # whitening
    q = (wh @ p.T).T.reshape(n_post, n_pred, x.size)
    ql = (wh @ lines.T).T
    n = x.size
    # each group is centred on the line of a joint posterior sample
    m = q.mean(axis=1)
    d2 = ((m[:, None, :] - ql[None, :, :])**2).sum(axis=2) * n_pred
    best = d2.min(axis=1)
    lim = n + 12 * np.sqrt(2 * n) + 60
    model.require(best.max() < lim, f'predictive samples centred {best.max():.1f} (chi-squared, {n} degrees of freedom) away from every '
                  'posterior line')
    # the nearest line is a slightly optimistic choice, so only the upper side is bounded
    model.require(best.sum() < n_post * n + 9 * np.sqrt(2 * n * n_post), 'predictive samples are not centred on the posterior lines')
    if how in ('made', 'made-one'):
        from scipy.spatial import cKDTree
        apart = cKDTree(ql).query(ql, k=2)[0][:, 1].min()
        if apart > 6 * np.sqrt(n) + 10:  # the sample used is known without doubt
            model.require(abs(best.sum() - n_post * n) < 9 * np.sqrt(2 * n * n_post), 'spread of the predictive samples around their lines off '
                          f'by a factor {best.sum() / (n_post * n):.2f} (variance)')
        used = d2.argmin(axis=1)
        model.require(np.all(best < lim), 'predictive samples not centred on the line of any posterior sample')
        u01 = (used + 0.5) / len(g)
        z = (u01.mean() - 0.5) / np.sqrt(1 / 12 / n_post)
        model.require(abs(z) < 7, f'posterior samples are not drawn evenly: mean position {u01.mean():.3f} in the chain (z={z:.1f})')
        zv = (u01.var() * 12 / (1 - 1 / len(g)**2) - 1) / np.sqrt(0.8 / n_post)
        model.require(abs(zv) < 7, f'posterior samples are not drawn evenly: spread of the positions in the chain (z={zv:.1f})')
        part = np.bincount((u01 * min(5, len(g))).astype(int), minlength=min(5, len(g)))
        model.require(part.min() > 0, f'numbers of draws from five parts of the chain: {part}')
    if few:
        # every posterior sample that can be told apart from the others is drawn, and none too often
        sep = np.sqrt(((ql[:, None] - ql[None])**2).sum(axis=2)) + np.diag(np.full(len(ql), np.inf))
        count = np.bincount(d2.argmin(axis=1), minlength=len(ql))
        apart = sep.min(axis=1) > 0.45
        model.require(np.all(count[apart] > 0) and np.all(count[apart] < 85), f'numbers of draws of 8 posterior samples in 240: {count}')
    if n_pred > 2:
        r = q - m[:, None, :]
        dof = n_post * (n_pred - 1)
        cov = np.einsum('abi,abj->ij', r, r) / dof
        model.require(np.abs(cov - np.eye(n)).max() < 9 * np.sqrt(2 / dof) + 1e-6,
                      f'spread of the predictive samples off by {np.abs(cov - np.eye(n)).max():.2f} in units of the covariance matrix')
    if how == 'stats' or (how == 'default-posterior' and n_post >= 50):
        # posterior samples drawn uniformly: mean and variance along the main direction of the lines
        dirn = ql - ql.mean(axis=0)
        uu, ss, vt = np.linalg.svd(dirn, full_matrices=False)
        y, yl = m @ vt[0], ql @ vt[0]
        se = np.sqrt((yl.var() + 1 / n_pred) / n_post)
        z = (y.mean() - yl.mean()) / se
        model.require(abs(z) < 8, f'posterior samples are not drawn evenly (z={z:.1f})')
        if yl.std() > 0:
            k4 = max(1.0, ((yl - yl.mean())**4).mean() / yl.var()**2)
            ratio = y.var() / (yl.var() + 1 / n_pred)
            model.require(abs(ratio - 1) < 9 * np.sqrt(max(2, k4) / n_post), f'spread of the posterior samples drawn off by a factor {ratio:.2f}')
    return Info(n >= 4, [kind, how, f'fit={case["fit"]}', f'model={case["model"]}', f'start={min(k, 2)}', f'cond={case["cond"]:g}'])
