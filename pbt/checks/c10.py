"""C10 collective displacement statistics (total and charge displacement)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C10'
RULE = ('Random displacement data sets and random trajectories given to the total- and charge-displacement estimators with '
        'scalar, per-ion, integer, negative and mixed charges, all axis choices, interval sub-sampling and blocking; the '
        'results must equal direct evaluation of |sum_i q_i d_i|^2 over the first half of the intervals, reduce to the MSD for '
        'one particle and to the total displacement for unit charges, and scale with the square of the charge. '
        'Non-trivial: at least two atoms and one interval.')
QUICK, THOROUGH = 12000, 200000


@st.composite
def _cases(draw):
    if draw(st.integers(0, 3)) == 3:
        traj = draw(gen.trajs(max_frames=14, min_kept=4, atoms=(2, 5), max_sub=2, npt=False))
        case = {'via': 'analyzer', 'traj': traj, 'sel': draw(gen.selections(traj, min_sel=2)), 'clock': draw(gen.clocks()),
                'dimension': draw(st.sampled_from(stats.DIMS)), 'sub_sample_dt': draw(st.sampled_from([1, 2]))}
        n = len(traj['species'])
    else:
        case = {'via': 'direct', 'ds': draw(stats.datasets(min_int=2, large=60))}
        n = case['ds']['atoms']
    case['kind'] = draw(st.sampled_from('JS'))
    case['block'] = draw(st.integers(0, 4)) == 4
    q = draw(st.sampled_from(['scalar', 'each', 'each', 'ints', 'list', 'default']))
    case['q'] = q
    if q == 'scalar':
        case['charge'] = draw(st.sampled_from([1, 2, -1, 0.7, 3.0, 0, 1.254, -0.05]))
    elif q != 'default':
        vals = st.sampled_from([1, -1, 2, -2, 3]) if q == 'ints' else st.integers(-3000, 3000).map(lambda k: k / 1000)
        case['charge'] = draw(st.lists(vals, min_size=n, max_size=n))
    return case


def strategy(tier):
    return _cases()


def charges(case, n):
    """(what is passed, per-ion values)"""
    if case['q'] == 'default':
        return None, np.ones(n)
    c = case['charge']
    if case['q'] == 'scalar':
        return c, np.ones(n) * c
    c = c[:n]
    return (list(c) if case['q'] == 'list' else np.array(c)), np.array(c, float)


def check(case):
    from kinisi.diffusion import MSCDBootstrap, MSDBootstrap, MSTDBootstrap
    block = case['block']
    if case['via'] == 'direct':
        ds = case['ds']
        delta_t, disp, n_o = stats.data(ds)
        dim, sub, na = ds['dimension'], ds['sub_sample_dt'], ds['atoms']
        if len(disp[::sub]) < 2:
            return Info(False, ['too few intervals'])
        arg, q = charges(case, na)
        kw = dict(sub_sample_dt=sub, dimension=dim, progress=False)
        if case['kind'] == 'J':
            q = np.ones(na)
            b = MSTDBootstrap(delta_t, disp, n_o, block=block, **kw)
        else:
            b = MSCDBootstrap(delta_t, disp, 1 if arg is None else arg, n_o, block=block, **kw)
        ref = stats.reference(delta_t, disp, n_o, dim, sub, collective=q)
        stats.check_against(b, ref, 'total displacement' if case['kind'] == 'J' else 'charge displacement', block=block)
        model.close(b.n_i, ref['n_o'], 'independent observations', rtol=1e-12)
        m = len(ref['n'])
        if not block and m:
            unit = MSCDBootstrap(delta_t, disp, 1, n_o, **kw)
            tot = MSTDBootstrap(delta_t, disp, n_o, **kw)
            model.close(unit.n, tot.n, 'charge displacement with unit charges vs total displacement', rtol=1e-10)
            model.close(unit.v, tot.v, 'its variance', rtol=1e-8)
            c3 = MSCDBootstrap(delta_t, disp, 3 * q, n_o, **kw)
            c1 = MSCDBootstrap(delta_t, disp, q, n_o, **kw)
            model.close(c3.n, 9 * np.asarray(c1.n), 'charges scaled by 3', rtol=1e-9, atol=1e-300)
            model.close(c3.v, 81 * np.asarray(c1.v), 'variance with charges scaled by 3', rtol=1e-8, atol=1e-300)
            if na == 1:
                msd = MSDBootstrap(delta_t, disp, n_o, **kw)
                model.close(tot.n, msd.n[:m], 'total displacement of one particle vs its MSD', rtol=1e-10)
                model.close(tot.v, msd.v[:m], 'variance for one particle', rtol=1e-8)
        return Info(m >= 1 and na >= 2, ['direct', case['kind'], dim.lower(), f'sub={sub}', 'block' if block else 'plain', case['q']])
    spec, sel = case['traj'], case['sel']
    tr = gen.build(spec)
    mob, fw = gen.mobile_and_framework(sel, tr)
    if not mob:
        return Info(False, ['nothing selected'])
    fmt, sub = spec['fmt'], spec['sub']
    arg, q = charges(case, len(mob))
    params = dict(case['clock'], sub_sample_traj=sub, **gen.selection_params(sel))
    an = model.parse(case['kind'], fmt, tr, params, uparams={'dimension': case['dimension'], 'block': block,
                                                             'sub_sample_dt': case['sub_sample_dt']},
                     charge=arg if case['kind'] == 'S' else None)
    delta_t, disp, n_o, _ = model.raw(an)
    if case['kind'] == 'J':
        q = np.ones(len(mob))
    ref = stats.reference(delta_t, [np.asarray(x, float) for x in disp], n_o, case['dimension'], case['sub_sample_dt'], collective=q)

    class View:
        dt, euclidian_displacements = an.dt, an.dr
        n = an.mstd if case['kind'] == 'J' else an.mscd
        s = an.mstd_std if case['kind'] == 'J' else an.mscd_std
        v, ngp = model.diff(an)['v'], model.diff(an)['ngp']

    if fmt == 'universe':
        big = max([float(np.abs(x).max()) for x in disp])**2 * len(mob)**2 * max(1, float(np.abs(q).max()))**2
        if not block:
            model.close(View.n, ref['n'], 'collective displacement', rtol=2e-4, atol=2e-5 * big)
        model.close(View.dt, ref['dt'], 'times', rtol=1e-12)
    else:
        scale = 1e-13 * max([1e-300] + [float(np.abs(x).max()) for x in disp])**2 * len(mob)**2 * max(1, float(np.abs(q).max()))**2
        if block:
            model.close(View.dt, ref['dt'], 'times', rtol=1e-12)
        else:
            model.close(View.n, ref['n'], 'collective displacement', rtol=1e-8, atol=scale)
            model.close(View.s, ref['s'], 'uncertainty of the collective displacement', rtol=1e-7, atol=10 * scale)
            model.close(View.dt, ref['dt'], 'times', rtol=1e-12)
            for a, b in zip(View.euclidian_displacements, ref['dr']):
                model.close(np.sort(a.samples), b, 'displacement distribution', rtol=1e-8, atol=1e-10)
    return Info(len(ref['n']) >= 1 and len(mob) > 1, ['analyzer', case['kind'], fmt, case['dimension'].lower(), case['q'],
                                                      'block' if block else 'plain'])
