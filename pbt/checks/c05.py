"""C05 time intervals and their units."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C05'
RULE = ('Random trajectory lengths (3 to 400 frames), time_step (int and float, ps or fs according to the reader), step_skip, '
        'sub-sampling, min_dt, max_dt, n_steps and spacing; the reported intervals must be strictly increasing whole numbers of '
        'read frames expressed in ps, from min_dt to max_dt inclusive, at most n_steps of them, on the linear or geometric '
        'grid. Non-trivial: min_dt or max_dt or n_steps is given.')
ASSUMPTIONS = ['min_dt and max_dt are whole numbers of read frames, up to floating-point rounding of the product']
QUICK, THOROUGH = 15000, 400000


@st.composite
def _cases(draw):
    via = draw(st.sampled_from(['parser', 'parser', 'parser', 'reader']))
    if via == 'reader':
        traj = draw(gen.trajs(min_frames=2, min_kept=2, max_frames=14, atoms=(2, 3), npt=False, max_sub=3, kinds=('ortho',), big=6))
        n = len(range(0, traj['frames'], traj['sub']))
        case = {'via': via, 'traj': traj}
    else:
        n = draw(st.one_of(st.integers(3, 40), st.integers(41, 400)))
        case = {'via': via, 'n': n, 'atoms': draw(st.integers(2, 3))}
    ts = draw(st.one_of(st.sampled_from([1, 2, 20, 0.1, 0.001, 0.7, 0.03, 1.0]), st.integers(1, 5000).map(lambda k: k / 1000),
                        st.integers(1, 10**7).map(lambda k: k / 1e12), st.floats(1e-9, 1e6)))
    case['clock'] = {'time_step': ts, 'step_skip': draw(st.one_of(st.sampled_from([1, 10, 50]), st.integers(1, 200)))}
    lo = draw(st.one_of(st.none(), st.integers(0, n - 1)))
    hi = draw(st.one_of(st.none(), st.integers(max(lo or 1, 1), n)))
    case.update(lo=lo, hi=hi, n_steps=draw(st.one_of(st.none(), st.integers(2, 12), st.integers(13, 450))),
                spacing=draw(st.sampled_from(['linear', 'logarithmic', None])), how=draw(st.integers(0, 3)))
    return case


def strategy(tier):
    return _cases()


def _dt(k, unit_parts, how):
    """k frames in the simulation's units, in the ways a user may compute it."""
    ts, skip, sub = unit_parts
    if how == 0:
        return k * ts * skip * sub
    if how == 1:
        return ts * (k * skip * sub)
    if how == 2:
        return (ts * skip) * (k * sub)
    return float('%.12g' % (k * ts * skip * sub))


def check(case):
    clock = case['clock']
    ts, skip = clock['time_step'], clock['step_skip']
    if case['via'] == 'reader':
        spec = case['traj']
        fmt, sub = spec['fmt'], spec['sub']
        tr = gen.build(spec)
        n = len(range(0, tr.frames, sub))
    else:
        fmt, sub, n = 'ase', 1, case['n']
    params = dict(clock)
    if case['lo'] is not None:
        params['min_dt'] = _dt(case['lo'], (ts, skip, sub), case['how'])
    if case['hi'] is not None:
        params['max_dt'] = _dt(case['hi'], (ts, skip, sub), case['how'])
    if case['n_steps'] is not None:
        params['n_steps'] = case['n_steps']
    if case['spacing'] is not None:
        params['spacing'] = case['spacing']
    if case['via'] == 'reader':
        an = model.parse('D', fmt, tr, dict(params, specie=None, specie_indices=list(range(tr.n)), framework_indices=[],
                                            sub_sample_traj=sub))
        delta_t, disp = model.raw(an)[:2]
        model.close(an.dt, delta_t[:len(an.dt)], 'times of the observed MSD', rtol=1e-12)
    else:
        from kinisi.parser import Parser
        disp0 = np.arange(case['atoms'] * n * 3, dtype=float).reshape(case['atoms'], n, 3)
        p = Parser(disp0, list(range(case['atoms'])), [], progress=False, **params)
        delta_t, disp = p.delta_t, p.disp_3d
        model.close(delta_t, np.asarray(p.time_intervals) * (ts * skip), 'intervals in time units', rtol=1e-12)
    ks = model.intervals_of(delta_t, clock, sub, fmt)
    lo = max(1, case['lo'] if case['lo'] is not None else 1)
    hi = case['hi'] if case['hi'] is not None else n
    n_steps = case['n_steps'] if case['n_steps'] is not None else 100
    model.require(len(ks) >= 1, 'no time intervals')
    model.require(np.all(np.diff(ks) > 0), f'time intervals are not strictly increasing: {ks}')
    model.require(ks[0] == lo, f'the first interval is {ks[0]} frames, min_dt is {lo} frames')
    model.require(len(ks) <= n_steps, f'{len(ks)} intervals for n_steps={n_steps}')
    cap = min(n_steps, n - min(case['lo'] or (1 if case['lo'] is None else 0), n) + 1)
    if cap >= 2:
        model.require(ks[-1] == hi, f'the last interval is {ks[-1]} frames, max_dt is {hi} frames')
    if cap >= hi - lo + 1:
        if case['spacing'] != 'logarithmic':
            model.same(ks, np.arange(lo, hi + 1), 'every interval must be present when there is room for all of them')
    # on the requested grid: each grid value rounded down must be present, and nothing else
    if cap >= 2:
        i = np.arange(cap)
        if case['spacing'] == 'logarithmic':
            ideal = lo * (hi / lo)**(i / (cap - 1))
        else:
            ideal = lo + (hi - lo) * i / (cap - 1)
        got = set(int(k) for k in ks)
        allowed = set()
        for x in ideal:
            cand = {math.floor(x - 1e-9 * max(1, x)), math.floor(x + 1e-9 * max(1, x))}
            model.require(cand & got, f'grid value {x} missing from the intervals {sorted(got)}')
            allowed |= cand
        model.require(got <= allowed | {hi}, f'intervals off the {case["spacing"] or "linear"} grid: {sorted(got - allowed)}')
    # each array belongs to the interval it is listed under
    for t, x in zip(ks, disp):
        model.require(x.shape[1] == n - t + 1, f'{x.shape[1]} observations for an interval of {t} of {n} frames')
    return Info(any(case[k] is not None for k in ('lo', 'hi', 'n_steps')),
                [case['via'], fmt, case['spacing'] or 'default spacing', 'min_dt' if case['lo'] is not None else '-',
                 'max_dt' if case['hi'] is not None else '-', f'sub={sub}', 'long' if n > 100 else 'short',
                 'int time_step' if isinstance(ts, int) else 'float time_step'])
