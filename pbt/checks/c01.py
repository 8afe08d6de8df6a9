"""C01 unwrapping: displacements equal the true motion, however the coordinates were wrapped, for any cell and reader."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C01'
RULE = ('Random trajectories with known continuous motion (fractional steps below half a cell per read frame), random '
        'orthorhombic/triclinic/rotated/left-handed cells, constant or fluctuating, shown wrapped, unwrapped or in random '
        'periodic images to each of the five readers; every reported displacement is compared with the true one. '
        'Non-trivial: at least one atom crosses a cell boundary.')
ASSUMPTIONS = ['no atom moves half a cell length or more between two read frames (the documented limit of unwrapping)']
QUICK, THOROUGH = 4000, 60000


def strategy(tier):
    return st.fixed_dictionaries({
        'traj': gen.trajs(min_frames=2, min_kept=2, max_frames=20, atoms=(1, 6), big=25, hard_npt=True, huge=120, crowd=60, crowd_long=True),
        'clock': gen.clocks(),
        'kind': st.sampled_from('DJS'),
        'single': st.booleans(),
        'second': st.sampled_from(['wrapped', 'random', 'unwrapped', None]),
    })


def check(case):
    spec, clock = case['traj'], case['clock']
    fmt, sub = spec['fmt'], spec['sub']
    tr = gen.build(spec)
    if spec['npt'] and model.tie(tr.true[::sub], tr.latt[::sub]) < 1e-4:
        return Info(False, ['two images equally near'])
    kept = len(range(0, tr.frames, sub))
    sampling = 'single-origin' if case['single'] and tr.n > 1 and case['kind'] == 'D' else 'multi-origin'
    params = dict(clock, specie=None, specie_indices=list(range(tr.n)), framework_indices=[], sub_sample_traj=sub,
                  n_steps=min(kept + 1, 150) if kept < 1000 else 12, sampling=sampling)
    an = model.parse(case['kind'], fmt, tr, params)
    d = model.atom_disp(tr, sub)
    ks, disp, _ = model.check_windows(an, d, clock, sub, fmt, tr.atol(fmt), sampling)
    model.require(len(ks) >= min(3, kept), f'only {len(ks)} intervals for {kept} frames')
    model.close(an.volume, abs(np.linalg.det(tr.latt[0])), 'volume', rtol=1e-5 if fmt == 'universe' else 1e-9)
    if case['second']:
        # the same motion in other periodic images gives the same displacements
        tr2 = gen.build(dict(spec, image=case['second']))
        an2 = model.parse(case['kind'], fmt, tr2, params)
        for a, b in zip(disp, model.raw(an2)[1]):
            model.close(b, a, 'displacements with other periodic images', rtol=1e-9, atol=2 * max(tr.atol(fmt), tr2.atol(fmt)))
    crossed = bool(np.any(np.floor(tr.true) != np.floor(tr.true[:1])))
    return Info(crossed, [fmt, spec['cell']['kind'], 'npt' if spec['npt'] else 'nvt', spec['image'], f'sub={sub}', sampling,
                          'crossing' if crossed else 'no crossing', 'huge' if tr.frames > 999 else 'long' if tr.frames > 99 else 'short', 'crowd' if tr.n > 99 else 'few atoms'])
