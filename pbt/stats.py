"""Displacement data sets for the statistics (no trajectory behind them) and the reference statistics."""
import numpy as np
from hypothesis import strategies as st

from . import gen, model

DIMS = ['xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz', 'XYZ', 'Xz', 'Y']


@st.composite
def datasets(draw, min_int=2, max_int=14, atoms=(1, 8), dims=DIMS, sub=(1, 1, 2, 3), max_n=40, large=0):
    """Spec of a consistent displacement data set: windows of a random walk at the given intervals."""
    n = draw(st.integers(max(4, min_int + 1), max_n))
    k = draw(st.integers(min_int, min(max_int, n - 1)))
    ints = sorted(draw(st.lists(st.integers(1, n - 1), min_size=k, max_size=k, unique=True)))
    na = draw(st.integers(*atoms))
    if large and draw(st.integers(0, large)) == 0:  # about one in `large` is big in one respect
        how = draw(st.sampled_from(['atoms', 'length', 'intervals']))
        if how == 'atoms':
            na = draw(st.sampled_from([257, 700, 1500, 2500]))
        elif how == 'length':
            n, na = draw(st.sampled_from([500, 1300, 2100, 4100])), min(na, 6)
            ints = sorted({1 + i * (n // 100) for i in ints})
        else:
            n = draw(st.integers(70, 220))
            ints = list(range(1, n, draw(st.sampled_from([1, 1, 2]))))[:150]
    return {
        'n': n,
        'ints': ints,
        'atoms': na,
        'scale': draw(st.sampled_from([1.0, 0.01, 30.0, 0.3, 1e-4, 1e3])),
        'walk': draw(st.sampled_from(['normal', 'heavy', 'aniso', 'still-one'])),
        'unit': draw(st.sampled_from([0.1, 1.0, 0.002, 5.0, 3e-5, 2000.0])),
        'dimension': draw(st.sampled_from(list(dims))),
        'sub_sample_dt': draw(st.sampled_from(list(sub))),
        'seed': draw(gen.SEED),
    }


def walk(ds, frames=None):
    rng = np.random.default_rng(ds['seed'])
    n = ds['n'] if frames is None else frames
    inc = rng.normal(0, 1, (ds['atoms'], n, 3))
    if ds['walk'] == 'int':  # integer steps: every squared displacement is a whole number
        inc = rng.integers(-3, 4, (ds['atoms'], n, 3)).astype(float)
    elif ds['walk'] == 'heavy':
        inc = inc**3 / 3
    elif ds['walk'] == 'aniso':
        inc = inc * np.array([0.2, 1.0, 3.0])
    elif ds['walk'] == 'still-one' and ds['atoms'] > 1:
        inc[0] = 0
    inc[:, 0] = 0
    return np.cumsum(inc * ds['scale'], axis=1)


def data(ds):
    """(delta_t, list of displacement arrays, number of independent observations)"""
    w = walk(ds)
    disp = [model.windows(w, t) * (ds.get('late', 1) if i > 5 else 1) for i, t in enumerate(ds['ints'])]
    n_o = np.array([ds['atoms'] * ds['n'] / t for t in ds['ints']])
    return np.array(ds['ints']) * ds['unit'], disp, n_o


def reference(delta_t, disp, n_o, dimension, sub, collective=None):
    """Observed statistics.

    :param collective: None for the MSD, else the charges (ones for the total displacement)."""
    ax = model.AXES[dimension.lower()]
    delta_t, disp, n_o = delta_t[::sub], disp[::sub], n_o[::sub]
    out = {k: [] for k in ('dt', 'n', 'v', 's', 'ngp', 'dr', 'obs', 'n_o', 'eff')}
    m = len(disp) if collective is None else len(disp) // 2
    for t, x, no in zip(delta_t[:m], disp[:m], n_o[:m]):
        x = x[:, :, ax]
        d2 = np.einsum('aok,aok->ao', x, x)
        if collective is None:
            obs, eff = d2.ravel(), no
        else:
            c = np.einsum('a,aok->ok', np.asarray(collective, float), x)
            obs, eff = np.einsum('ok,ok->o', c, c), no / x.shape[0]
        if obs.size <= 1:
            continue
        mean = obs.sum() / obs.size
        var = ((obs - mean)**2).sum() / (obs.size - 1) / eff
        out['dt'].append(t)
        out['n'].append(mean)
        out['v'].append(var)
        out['s'].append(np.sqrt(var))
        with np.errstate(all='ignore'):
            out['ngp'].append(len(ax) * (d2**2).mean() / ((len(ax) + 2) * d2.mean()**2) - 1)  # zero for a Gaussian
        out['dr'].append(np.sort(np.sqrt(d2.ravel())))
        out['obs'].append(obs)
        out['n_o'].append(no)
        out['eff'].append(eff)
    return out


def blocked(obs):
    """Mean and variance of the mean by the blocking method (pyblock)."""
    import pyblock
    rb = pyblock.blocking.reblock(np.asarray(obs))
    opt = pyblock.blocking.find_optimal_block(len(obs), rb)[0]
    i = len(rb) - 1 if not isinstance(opt, (int, np.integer)) else opt
    return float(rb[i].mean), float(rb[i].std_err)**2


def check_against(boot, ref, what, rtol=1e-9, block=False, sdr=True):
    """boot: any object with the public Bootstrap statistics."""
    model.close(boot.dt, ref['dt'], what + ': times', rtol=1e-12)
    if block:
        mv = np.array([blocked(o) for o in ref['obs']]).reshape(-1, 2)
        model.close(boot.n, mv[:, 0], what + ': blocked mean', rtol=1e-8)
        model.close(boot.v, mv[:, 1], what + ': blocked variance', rtol=1e-6, atol=1e-300)
        model.close(boot.s, np.sqrt(mv[:, 1]), what + ': blocked standard deviation', rtol=1e-6, atol=1e-300)
    else:
        tiny = 1e-13 * max([1e-300] + [abs(x) for x in ref['n']])
        model.close(boot.n, ref['n'], what + ': mean', rtol=rtol, atol=tiny)
        model.close(boot.v, ref['v'], what + ': variance', rtol=max(rtol, 1e-8), atol=tiny * tiny)
        model.close(boot.s, ref['s'], what + ': standard deviation', rtol=max(rtol, 1e-8), atol=tiny)
    model.close(boot.ngp, ref['ngp'], what + ': non-Gaussian parameter', rtol=1e-7, atol=1e-9)
    dr = boot.euclidian_displacements
    model.require(len(dr) == len(ref['dr']), what + f': {len(dr)} displacement distributions, expected {len(ref["dr"])}')
    for a, b in zip(dr, ref['dr']):
        model.close(np.sort(a.samples), b, what + ': displacement distribution', rtol=1e-9, atol=1e-12)
