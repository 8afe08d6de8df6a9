"""C11 bootstrap resampling of the observed displacements."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C11'
RULE = ('Random displacement data sets (half of them with integer steps, so that a resampled mean times the number of independent '
        'observations must be a whole number) and random trajectories, for all three estimators, axes, interval sub-sampling, '
        'resampling counts, limits and acceptance levels; the observed statistics must be those without resampling, each '
        'resampled set must consist of means over the number of independent observations drawn with replacement, stop by the '
        'documented rule, have the mean and variance theory demands (8 standard errors) and depend on the seed only. '
        'Non-trivial: at least two intervals resampled.')
QUICK, THOROUGH = 600, 12000


@st.composite
def _cases(draw):
    case = {'kind': draw(st.sampled_from('DJS')), 'n_resamples': draw(st.sampled_from([100, 200, 250, 400])),
            'extra': draw(st.sampled_from([0, 1, 150, 300, 600, 2000])), 'alpha': draw(st.sampled_from([1e-3, 1e-3, 0.5, 0.999, 0.0])),
            'rs': draw(st.one_of(st.none(), st.integers(0, 10000))), 'block': draw(st.integers(0, 5)) == 5}
    omit = draw(st.sampled_from(['', '', '', '', '', '', 'alpha', 'n_resamples']))
    if omit:  # documented defaults
        case.update(omit=omit)
        case[omit] = {'alpha': 1e-3, 'n_resamples': 1000}[omit]
    if draw(st.integers(0, 4)) == 4:
        traj = draw(gen.trajs(fmts=gen.F64, max_frames=10, min_kept=4, atoms=(2, 4), max_sub=2, npt=False))
        case.update(via='analyzer', traj=traj, clock=draw(gen.clocks()), dimension=draw(st.sampled_from(stats.DIMS)),
                    n_steps=draw(st.integers(4, 6)))
    else:
        ds = draw(stats.datasets(min_int=4, max_int=7, atoms=(1, 6), max_n=30, large=9))
        if len(ds['ints']) > 14:
            ds['ints'] = ds['ints'][:4] + ds['ints'][4::max(1, len(ds['ints']) // 4)]
        if draw(st.booleans()):
            ds.update(walk='int', scale=1.0)
        case.update(via='direct', ds=ds, charge=draw(st.sampled_from([1, 1, 2, -3])))
    return case


def strategy(tier):
    return _cases()


def check(case):
    from scipy.stats import normaltest
    from kinisi.diffusion import MSCDBootstrap, MSDBootstrap, MSTDBootstrap
    kind = case['kind']
    R, top = case['n_resamples'], case['n_resamples'] + case['extra']
    kw = dict(n_resamples=R, max_resamples=top, alpha=case['alpha'], progress=False, block=case['block'])
    kw.pop(case.get('omit'), None)

    def rs():
        return None if case['rs'] is None else np.random.RandomState(case['rs'])

    if case['via'] == 'direct':
        ds = case['ds']
        delta_t, disp, n_o = stats.data(ds)
        dim, sub, na = ds['dimension'], ds['sub_sample_dt'], ds['atoms']
        q = np.ones(na) * case['charge'] if kind == 'S' else np.ones(na)
        if kind != 'D' and len(disp[::sub]) < 2:
            return Info(False, ['too few intervals'])

        def make(**k):
            k = dict(k, sub_sample_dt=sub, dimension=dim)
            if kind == 'D':
                return MSDBootstrap(delta_t, disp, n_o, **k).to_dict()
            if kind == 'J':
                return MSTDBootstrap(delta_t, disp, n_o, **k).to_dict()
            return MSCDBootstrap(delta_t, disp, case['charge'], n_o, **k).to_dict()

        whole = ds['walk'] == 'int'
    else:
        tr = gen.build(case['traj'])
        fmt, tsub = case['traj']['fmt'], case['traj']['sub']
        params = dict(case['clock'], specie=None, specie_indices=list(range(tr.n)), framework_indices=[], sub_sample_traj=tsub,
                      n_steps=case['n_steps'])
        obj = gen.to_input(tr, fmt)
        dim, sub, na = case['dimension'], 1, tr.n
        q = np.ones(na)
        last = []

        def make(**k):
            an = model.analyze(kind, fmt, obj, params, uparams=dict(k, dimension=dim))
            last.append(an)
            return model.diff(an)

        whole = False
    try:
        plain = make(progress=False, block=case['block'])
        if case['rs'] is None:
            np.random.seed(5)
        d = make(bootstrap=True, random_state=rs(), **kw)
        if case['rs'] is None:
            np.random.seed(5)
        else:
            np.random.seed(77)
            np.random.rand(3)
        again = make(bootstrap=True, random_state=rs(), **kw)
    finally:
        if case['via'] != 'direct':
            gen.release(obj, fmt)
    if case['via'] != 'direct':
        delta_t, disp, n_o, _ = model.raw(last[0])
        n_o = np.asarray(n_o)
    for k in ('dt', 'n', 'v', 's', 'ngp', 'n_o'):
        model.close(d[k], plain[k], f'{k} with resampling vs without', rtol=1e-12, atol=0)
    ref = stats.reference(np.asarray(delta_t), list(disp), n_o, dim, sub, collective=None if kind == 'D' else q)
    m = len(ref['n'])
    model.require(plain['distributions'] is None, 'resampled distributions without resampling')
    if m == 0:
        return Info(False, ['nothing to resample'])
    dist = [np.asarray(x['samples']) for x in d['distributions']]
    model.require(len(dist) == m, f'{len(dist)} resampled distributions for {m} intervals')
    model.close(d['n_bootstrap'], [x.mean() for x in dist], 'mean of the resampled distribution', rtol=1e-9, atol=1e-300)
    model.close(d['v_bootstrap'], [x.var(ddof=1) for x in dist], 'variance of the resampled distribution', rtol=1e-7, atol=1e-300)
    model.close(d['s_bootstrap'], [x.std(ddof=1) for x in dist], 'standard deviation of the resampled distribution', rtol=1e-7,
                atol=1e-300)
    zsum = vsum = nz = 0.0
    grown = 0
    for i, x in enumerate(dist):
        obs, eff = ref['obs'][i], int(ref['eff'][i] * (1 + 1e-12))
        what = f'resampled means at interval {i}'
        model.require(np.all(np.isfinite(x)), what + ': non-finite')
        model.require(x.size >= R and (x.size - R) % 100 == 0, f'{what}: {x.size} means from {R} in steps of 100')
        model.require(x.size < max(top, R + 1) + 100, f'{what}: {x.size} means, limit {top}')
        lo, hi = obs.min(), obs.max()
        pad = 1e-9 * max(abs(lo), abs(hi))
        model.require(x.min() >= lo - pad and x.max() <= hi + pad, what + ': outside the range of the observations')
        if np.ptp(obs) > 1e-9 * max(abs(hi), 1e-300):
            with np.errstate(all='ignore'):
                if x.size < top:
                    p = normaltest(x)[1]
                    model.require(not p < case['alpha'] * (1 - 1e-6), f'{what}: stopped at p={p} below {case["alpha"]} before the limit')
                if x.size > R:
                    grown += 1
                    p = normaltest(x[:-100])[1]
                    model.require(p < case['alpha'] * (1 + 1e-6), f'{what}: continued although p={p} is not below {case["alpha"]}')
            if whole:
                y = x * eff
                model.require(np.all(np.abs(y - np.rint(y)) < 1e-6 * np.maximum(1, np.abs(y))),
                              f'{what}: not means of {eff} observations')
            pv = obs.var()
            se = np.sqrt(pv / eff / x.size)
            z = (x.mean() - obs.mean()) / se
            model.require(abs(z) < 9, f'{what}: mean {x.mean()}, expected {obs.mean()} (z={z:.1f})')
            k4 = ((obs - obs.mean())**4).mean() / pv**2
            sv = np.sqrt((max(k4 - 3, -1.9) / eff + 2) / x.size)
            zv = (x.var(ddof=1) / (pv / eff) - 1) / sv
            lim = 9 + 4 * np.sqrt(max(0, k4) / eff)
            model.require(abs(zv) < lim, f'{what}: variance {x.var(ddof=1)}, expected {pv / eff} (z={zv:.1f})')
            zsum += z
            vsum += np.clip(zv, -6, 6)
            nz += 1
    if nz >= 2:
        model.require(abs(zsum / np.sqrt(nz)) < 8, f'resampled means are biased (z={zsum / np.sqrt(nz):.1f})')
        model.require(abs(vsum / np.sqrt(nz)) < 10, f'resampled variances are biased (z={vsum / np.sqrt(nz):.1f})')
    for x, y in zip(dist, again['distributions']):
        model.same(np.asarray(y['samples']), x, 'resampling again with the same seed')
    return Info(m >= 2, [case['via'], kind, dim.lower(), 'whole' if whole else 'real', 'seeded' if case['rs'] is not None else 'global',
                         'grown' if grown else 'first time normal', f'alpha={case["alpha"]}'])
