"""C13 posterior of the linear fit against the analytic generalised least-squares posterior."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from .. import gen, model, stats
from ..core import Info
from . import c12

ID = 'C13'
RULE = ('Random displacement data sets, start times, covariance settings, with and without an intercept, for the three analyses: the '
        'sampled gradient and intercept must have the means, spreads and correlation of the analytic generalised least-squares '
        'posterior (Gaussian, gradient truncated at zero) computed from the observed points and their covariance; no negative '
        'gradient; the chain has walkers * (samples // thin) rows, is the tail of the unburnt chain, and does not depend on '
        'the intervals before the start time. Non-trivial: at least five intervals fitted.')
ASSUMPTIONS = ['at least five intervals in the fit, covariance matrix with a condition number below 3e10, best line not significantly downwards',
               'Monte-Carlo tolerance: 0.3 posterior standard deviations on means, 25 % on spreads, at 32 walkers x 5000 samples']
QUICK, THOROUGH = 480, 10000


@st.composite
def _cases(draw):
    ds = draw(stats.datasets(min_int=7, max_int=14, atoms=(2, 8), sub=(1,)))
    if ds['walk'] == 'still-one':
        ds['walk'] = 'normal'
    kind = draw(st.sampled_from('DDJS'))
    if kind != 'D':
        ds['n'] = max(ds['n'], 20)
        ds['ints'] = list(range(1, 1 + 2 * draw(st.integers(6, 9))))
    return {'ds': ds, 'kind': kind, 'cond': draw(st.sampled_from([1e10, 1e3, 1e6, 100.0])), 'model': draw(st.booleans()),
            'start': draw(st.integers(0, 6)), 'between': draw(st.sampled_from([0, 0, 1, 2])), 'fit': draw(st.sampled_from([True, True, False])), 'seed': draw(st.integers(0, 9999)),
            'thin': draw(st.sampled_from([1, 3, 10])), 'walkers': draw(st.sampled_from([16, 32, 20])),
            'mode': draw(st.sampled_from(['posterior', 'posterior', 'posterior', 'chain'])), 'burn': draw(st.integers(0, 30)),
            'n_samples': draw(st.integers(1, 40)), 'rs': draw(st.booleans())}


def strategy(tier):
    return _cases()


def truncated(mg, sg):
    """Mean and standard deviation of a normal distribution truncated to positive values."""
    a = -mg / sg
    if a < -30:
        return mg, sg
    if a > 20:  # far tail: exponential
        return sg / a, sg / a
    h = np.exp(norm.logpdf(a) - norm.logsf(a))
    return mg + sg * h, sg * np.sqrt(max(1e-300, 1 + a * h - h * h))


def analytic(dt, y, c, fit):
    """mean vector, standard deviations, correlation of the (truncated) posterior"""
    x = np.stack([dt, np.ones_like(dt)], axis=1) if fit else dt[:, None]
    w = np.linalg.inv(c)
    cov = np.linalg.inv(x.T @ w @ x)
    mu = cov @ x.T @ w @ y
    sd = np.sqrt(np.diag(cov))
    tg, sg = truncated(mu[0], sd[0])
    if not fit:
        return np.array([tg]), np.array([sg]), None, mu[0] / sd[0]
    beta = cov[0, 1] / cov[0, 0]
    resid = cov[1, 1] - cov[0, 1]**2 / cov[0, 0]
    mb = mu[1] + beta * (tg - mu[0])
    sb = np.sqrt(resid + beta**2 * sg**2)
    return np.array([tg, mb]), np.array([sg, sb]), beta * sg / sb, mu[0] / sd[0]


def compare(chain, mu, sd, rho, cols):
    got_m, got_s = chain.mean(axis=0), chain.std(axis=0)
    for i, name in enumerate(['gradient', 'intercept'][:cols]):
        z = (got_m[i] - mu[i]) / sd[i]
        if not abs(z) < 0.3:
            return f'{name}: mean {got_m[i]}, analytic {mu[i]} +- {sd[i]} ({z:.2f} standard deviations away)'
        r = got_s[i] / sd[i]
        if not 0.75 < r < 1.25:
            return f'{name}: standard deviation {got_s[i]}, analytic {sd[i]} (ratio {r:.2f})'
    if cols == 2 and not abs(np.corrcoef(chain.T)[0, 1] - rho) < 0.2:
        return 'correlation of gradient and intercept'
    return None


def check(case):
    ds, kind = case['ds'], case['kind']
    b = c12.build(kind, ds)
    dt, n, v = np.asarray(b.dt), np.asarray(b.n), np.asarray(b.v)
    if dt.size < 5 or np.any(v <= 0):
        return Info(False, ['too few intervals'])
    k = min(case['start'], dt.size - 5)
    start = dt[k]
    if k and case.get('between'):
        start = (dt[k - 1] + dt[k]) / 2 if case['between'] == 1 else dt[k - 1] * 1.00001

    def rs():
        return np.random.RandomState(case['seed'])

    kw = dict(cond_max=case['cond'], model=case['model'], fit_intercept=case['fit'], progress=False)
    cols = 2 if case['fit'] else 1
    labels = [case['mode'], kind, f'fit={case["fit"]}', f'model={case["model"]}', f'start={min(k, 3)}', f'cond={case["cond"]:g}']
    if case['mode'] == 'chain':
        w, s, burn, thin = case['walkers'], case['n_samples'], case['burn'], case['thin']
        c12.run(b, kind, start, n_walkers=w, n_samples=s, n_burn=burn, thin=thin, random_state=rs(), **kw)
        chain = np.asarray(b.flatchain)
        model.require(chain.shape == (w * (s // thin), cols), f'chain of shape {chain.shape} for {w} walkers, {s} samples, thin {thin}')
        if s // thin:
            model.same(np.asarray(b.gradient.samples), chain[:, 0], 'gradient distribution vs chain')
            if case['fit']:
                model.same(np.asarray(b.intercept.samples), chain[:, 1], 'intercept distribution vs chain')
        if not case['fit']:
            model.require(b.intercept is None, 'intercept although none was fitted')
        model.require(np.all(chain[:, 0] >= 0), 'negative gradient sampled')
        full = c12.build(kind, ds)
        c12.run(full, kind, start, n_walkers=w, n_samples=s + burn, n_burn=0, thin=1, random_state=rs(), **kw)
        f = np.asarray(full.flatchain).reshape(-1, w, cols)
        model.require(f.shape[0] == s + burn, 'length of the unburnt chain')
        model.same(chain, f[burn:][thin - 1::thin].reshape(-1, cols), 'burnt and thinned chain vs the whole chain')
        # intervals before the start time play no part
        if k:
            dd = dict(ds, ints=ds['ints'][k:] if kind == 'D' else ds['ints'][k:])
            if kind != 'D':  # only the first half of the intervals is used: keep the same fitted intervals
                m = dt.size - k
                dd['ints'] = (ds['ints'][k:] + list(range(ds['ints'][-1] + 1, ds['n'])))[:2 * m]
            if kind == 'D' or len(dd['ints']) == 2 * (dt.size - k):
                sub = c12.build(kind, dd)
                c12.run(sub, kind, 0.0, n_walkers=w, n_samples=s, n_burn=burn, thin=thin, random_state=rs(), **kw)
                model.close(np.asarray(sub.dt), dt[k:], 'intervals fitted', rtol=1e-12)
                model.close(np.asarray(sub.flatchain), chain, 'chain without the intervals before the start time', rtol=1e-6,
                            atol=1e-12 * max(1e-300, float(np.abs(chain).max()) if chain.size else 1))
                labels.append('dropped')
        return Info(True, labels)
    c12.run(b, kind, start, n_walkers=32, n_samples=800, n_burn=400, thin=5, random_state=rs() if case['rs'] else None, **kw)
    c = np.asarray(b.covariance_matrix)
    chain = np.asarray(b.flatchain)
    model.require(chain.shape == (32 * 160, cols), f'chain of shape {chain.shape}')
    model.require(np.all(np.isfinite(chain)), 'non-finite sample')
    model.require(np.all(chain[:, 0] >= 0), 'negative gradient sampled')
    ew = np.linalg.eigvalsh((c + c.T) / 2)
    if ew.min() <= 0 or ew.max() / ew.min() > 3e10:
        return Info(False, ['ill-conditioned covariance'])
    mu, sd, rho, snr = analytic(dt[k:], n[k:], (c + c.T) / 2, case['fit'])
    if snr < -2.5:
        return Info(False, ['best straight line slopes down'])
    if compare(chain, mu, sd, rho, cols):
        # a chain that has not converged is no verdict: judge a much longer one
        c12.run(b, kind, start, n_walkers=32, n_samples=5000, n_burn=4000, thin=5, random_state=rs() if case['rs'] else None, **kw)
        model.same(np.asarray(b.covariance_matrix), c, 'covariance matrix of the same analysis')
        bad = compare(np.asarray(b.flatchain), mu, sd, rho, cols)
        model.require(bad is None, bad)
        labels.append('longer chain needed')
    return Info(True, labels + ['truncated' if snr < 3 else 'free'])
