"""C12 covariance matrix of the observed displacements."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C12'
RULE = ('Random data sets and start times for the three analyses: the covariance matrix must cover exactly the intervals from the '
        'start time on, be symmetric positive definite, and have C_ij = v_i n_i / n_j (i <= j) with v the observed variances '
        '(or their least-squares random-walk model) after raising every eigenvalue to at least the largest over cond_max; '
        'and random symmetric matrices (random, rank-deficient, diagonal, indefinite, unsorted spectra) given to the '
        'reconditioning routine directly. Non-trivial: at least three intervals (or rows).')
ASSUMPTIONS = ['Gaussian random-walk like data with non-zero variances; cond_max between 2 and 1e16']
QUICK, THOROUGH = 8000, 150000


@st.composite
def _cases(draw):
    cond = draw(st.sampled_from([1e16, 1e10, 1e6, 1e3, 50.0, 5.0]))
    if draw(st.integers(0, 3)) == 3:
        return {'via': 'matrix', 'size': draw(st.integers(1, 9)), 'spectrum': draw(st.sampled_from(
            ['decades', 'equal', 'rank', 'negative', 'one-big', 'uniform'])), 'diagonal': draw(st.booleans()),
            'scale': draw(st.sampled_from([1.0, 1e-12, 1e8])), 'cond': cond, 'seed': draw(gen.SEED)}
    ds = draw(stats.datasets(min_int=6, max_int=14, atoms=(2, 6), sub=(1, 1, 1, 2), large=100))
    if ds['walk'] == 'still-one':
        ds['walk'] = 'normal'
    return {'via': 'gls', 'ds': ds, 'kind': draw(st.sampled_from('DJS')), 'cond': cond, 'model': draw(st.booleans()),
            'start': draw(st.integers(0, 11)), 'between': draw(st.sampled_from([0, 1, 2])), 'fit': draw(st.booleans()),
            'block': draw(st.integers(0, 5)) == 5, 'then': draw(st.integers(0, 2))}


def strategy(tier):
    return _cases()


def floored(m, cond):
    w, u = np.linalg.eigh((m + m.T) / 2)
    return (u * np.maximum(w, w.max() / cond)) @ u.T


def build(kind, ds, block=False, charge=2):
    from kinisi.diffusion import MSCDBootstrap, MSDBootstrap, MSTDBootstrap
    delta_t, disp, n_o = stats.data(ds)
    kw = dict(sub_sample_dt=ds['sub_sample_dt'], dimension=ds['dimension'], progress=False, block=block)
    if kind == 'D':
        return MSDBootstrap(delta_t, disp, n_o, **kw)
    if kind == 'J':
        return MSTDBootstrap(delta_t, disp, n_o, **kw)
    return MSCDBootstrap(delta_t, disp, charge, n_o, **kw)


TINY = dict(n_samples=2, n_walkers=8, n_burn=0, thin=1, progress=False)


def run(b, kind, start, **kw):
    if kind == 'D':
        b.diffusion(start, **kw)
    elif kind == 'J':
        b.jump_diffusion(start, **kw)
    else:
        b.conductivity(start, 300.0, 1000.0, **kw)


def check(case):
    cond = case['cond']
    if case['via'] == 'matrix':
        from kinisi.diffusion import minimum_eigenvalue_method
        rng = np.random.default_rng(case['seed'])
        n = case['size']
        u = np.eye(n) if case['diagonal'] else np.linalg.qr(rng.normal(size=(n, n)))[0]
        w = {'decades': lambda: 10.0**rng.uniform(-9, 0, n), 'equal': lambda: np.ones(n),
             'rank': lambda: rng.uniform(0.5, 1, n) * (np.arange(n) < max(1, n // 2)),
             'negative': lambda: np.concatenate([[1.0], rng.uniform(-0.5, 1, n - 1)]),
             'one-big': lambda: np.concatenate([[1.0], np.full(n - 1, 1e-5)]), 'uniform': lambda: rng.uniform(0.01, 1, n)}[
                 case['spectrum']]()
        w = rng.permutation(w) * case['scale']
        m = (u * w) @ u.T
        m = (m + m.T) / 2
        keep = m.copy()
        out = np.asarray(minimum_eigenvalue_method(m, cond))
        model.same(m, keep, 'the matrix passed in')
        top = w.max()
        model.require(out.shape == m.shape and out.dtype.kind == 'f', 'reconditioned matrix: shape or type')
        model.close(out, (u * np.maximum(w, top / cond)) @ u.T, 'reconditioned matrix', rtol=0, atol=1e-11 * top * n)
        ew = np.linalg.eigvalsh((out + out.T) / 2)
        model.require(ew.min() >= top / cond * (1 - 1e-6) - 1e-12 * top * n, 'smallest eigenvalue below largest/cond_max')
        return Info(n >= 3, ['matrix', case['spectrum'], 'diagonal' if case['diagonal'] else 'full', f'cond={cond:g}'])
    b = build(case['kind'], case['ds'], case['block'])
    dt = np.asarray(b.dt)
    if dt.size < 2:
        return Info(False, ['too few intervals'])
    k = min(case['start'], dt.size - 2)
    start = dt[k]
    if case['between'] and k > 0:
        start = (dt[k - 1] + dt[k]) / 2 if int(case['between']) == 1 else dt[k - 1] * 1.00001
    v, n_i = np.asarray(b.v, float)[k:], np.asarray(b.n_i, float)[k:]
    if np.any(v <= 0):
        return Info(False, ['zero variance'])
    try:
        if case['then']:  # an earlier analysis of the same data must leave nothing behind
            run(b, case['kind'], dt[min(case['then'], dt.size - 2)], cond_max=7.0, model=not case['model'], **TINY)
        run(b, case['kind'], start, cond_max=cond, model=case['model'], fit_intercept=case['fit'], **TINY)
    except ValueError as e:
        # emcee refuses starting positions that are linearly dependent; nothing to do with the covariance matrix
        if 'nitial state' not in str(e) and 'linearly' not in str(e):
            raise
    c = np.asarray(b.covariance_matrix)
    n = v.size
    model.require(c.shape == (n, n), f'covariance matrix {c.shape} for {n} intervals from the start time on')
    model.require(np.all(np.isfinite(c)), 'covariance matrix is not finite')
    if case['model']:
        x = dt[k:]**2 / n_i
        v = np.dot(x, v) / np.dot(x, x) * x
    raw = np.array([[v[min(i, j)] * n_i[min(i, j)] / n_i[max(i, j)] for j in range(n)] for i in range(n)])
    want = floored(raw, cond)
    top = np.linalg.eigvalsh(want).max()
    model.close(c, c.T, 'symmetry of the covariance matrix', rtol=0, atol=1e-7 * top)
    model.require(np.linalg.eigvalsh((c + c.T) / 2).min() > -1e-10 * top, 'covariance matrix is not positive semi-definite')
    model.close(c, want, 'covariance matrix', rtol=0, atol=1e-7 * top)
    if cond <= 1e6:
        ew = np.linalg.eigvalsh((c + c.T) / 2)
        model.require(ew.min() > 0 and ew.max() / ew.min() <= cond * 1.01 + 1, 'condition number above cond_max')
    return Info(n >= 3, ['gls', case['kind'], f'model={case["model"]}', f'cond={cond:g}', 'start between' if case['between'] else
                         'start on', f'start={min(k, 3)}', 'second analysis' if case['then'] else 'first analysis'])
