"""C09 mean-squared displacement statistics."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C09'
RULE = ('Random displacement data sets (1-8 atoms, 2-14 intervals, light/heavy-tailed/anisotropic walks, all axis choices, '
        'interval sub-sampling, blocking on/off) given to the MSD estimator, and random trajectories given to the diffusion '
        'analyzer; mean, variance of the mean, standard deviation, non-Gaussian parameter, its maximum and the displacement '
        'distributions must equal direct evaluation, and MSDs of single axes must add up. '
        'Non-trivial: at least two intervals and two atoms.')
QUICK, THOROUGH = 14000, 200000


@st.composite
def _cases(draw):
    if draw(st.integers(0, 3)) == 3:
        traj = draw(gen.trajs(max_frames=14, atoms=(2, 5), max_sub=2, npt=False))
        return {'via': 'analyzer', 'traj': traj, 'sel': draw(gen.selections(traj, min_sel=2)), 'clock': draw(gen.clocks()),
                'dimension': draw(st.sampled_from(stats.DIMS)), 'sub_sample_dt': draw(st.sampled_from([1, 2, 3])),
                'sampling': draw(st.sampled_from(['multi-origin', 'single-origin'])), 'block': draw(st.integers(0, 4)) == 4}
    return {'via': 'direct', 'ds': draw(stats.datasets(large=60)), 'block': draw(st.integers(0, 4)) == 4,
            'kw': draw(st.booleans()), 'bytes': draw(st.integers(0, 9)) == 9}


def strategy(tier):
    return _cases()


def check(case):
    from kinisi.diffusion import MSDBootstrap
    block = case['block']
    if case['via'] == 'direct':
        ds = case['ds']
        delta_t, disp, n_o = stats.data(ds)
        dim = ds['dimension']
        keep = [x.copy() for x in disp], delta_t.copy(), n_o.copy()
        if case['kw']:
            b = MSDBootstrap(delta_t=delta_t, disp_3d=disp, n_o=n_o, sub_sample_dt=ds['sub_sample_dt'], dimension=dim,
                             block=block, progress=False)
        else:
            b = MSDBootstrap(delta_t, disp, n_o, ds['sub_sample_dt'], False, block, dimension=dim, progress=False)
        for x, y in zip(disp, keep[0]):
            model.same(x, y, 'displacements passed in')
        model.same(delta_t, keep[1], 'times passed in')
        model.same(n_o, keep[2], 'observation counts passed in')
        ref = stats.reference(delta_t, disp, n_o, dim, ds['sub_sample_dt'])
        stats.check_against(b, ref, 'MSD', block=block)
        model.close(b.n_i, ref['n_o'], 'independent observations', rtol=1e-12)
        if not block and len(dim) > 1:
            parts = [MSDBootstrap(delta_t, disp, n_o, ds['sub_sample_dt'], dimension=a, progress=False).n for a in dim]
            model.close(np.sum(parts, axis=0), b.n, 'MSDs along single axes do not add up', rtol=1e-9)
        nt = len(ref['n']) >= 2 and ds['atoms'] >= 2
        return Info(nt, ['direct', dim.lower(), f'sub={ds["sub_sample_dt"]}', 'block' if block else 'plain', ds['walk']])
    spec, sel = case['traj'], case['sel']
    tr = gen.build(spec)
    mob, fw = gen.mobile_and_framework(sel, tr)
    if not mob:
        return Info(False, ['nothing selected'])
    fmt, sub = spec['fmt'], spec['sub']
    sampling = case['sampling'] if len(mob) > 1 else 'multi-origin'
    params = dict(case['clock'], sub_sample_traj=sub, sampling=sampling, **gen.selection_params(sel))
    an = model.parse('D', fmt, tr, params, uparams={'dimension': case['dimension'], 'sub_sample_dt': case['sub_sample_dt'],
                                                    'block': block})
    delta_t, disp, n_o, _ = model.raw(an)
    ref = stats.reference(delta_t, [np.asarray(x, float) for x in disp], n_o, case['dimension'], case['sub_sample_dt'])

    class View:
        dt, n, s, euclidian_displacements = an.dt, an.msd, an.msd_std, an.dr
        v, ngp = model.diff(an)['v'], model.diff(an)['ngp']

    if fmt == 'universe':
        rt = 2e-4
        model.close(View.dt, ref['dt'], 'times', rtol=1e-12)
        if not block:
            model.close(View.n, ref['n'], 'MSD', rtol=rt, atol=1e-6 * max(ref['n'] + [0]))
            model.close(View.s, ref['s'], 'MSD uncertainty', rtol=2e-3, atol=1e-5 * max(ref['n'] + [0]))
    else:
        stats.check_against(View, ref, 'MSD of the analyzer', block=block, rtol=1e-8)
    g = np.asarray(model.diff(an)['ngp'])
    if np.all(np.isfinite(g)) and g.size:
        model.close(an.ngp_max, an.dt[int(np.argmax(g))], 'time of the maximal non-Gaussian parameter', rtol=1e-12)
    return Info(len(ref['n']) >= 2 and len(mob) > 1, ['analyzer', fmt, case['dimension'].lower(), f'sub={case["sub_sample_dt"]}',
                                                      sampling, 'block' if block else 'plain'])
