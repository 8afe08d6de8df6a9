"""C02 drift correction."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C02'
RULE = ('Random trajectories with an added rigid drift of the whole system, random choice of mobile atoms and of framework '
        '(default complement, explicit list/tuple, none); the reported displacements must be the true ones minus the '
        'framework mean, must not change when any rigid translation is added to every frame, and the framework\'s own mean '
        'displacement must vanish. Non-trivial: a non-empty framework that moves.')
ASSUMPTIONS = ['no atom moves half a cell length or more between two read frames, drift included']
QUICK, THOROUGH = 4500, 60000


@st.composite
def _cases(draw):
    traj = draw(gen.trajs(min_frames=2, min_kept=2, max_frames=14, atoms=(2, 7), big=40, max_sub=2, huge=150, crowd=60, crowd_long=True))
    # leave room for an extra rigid translation on top of the motion
    traj = dict(traj, step=round(traj['step'] * 0.45, 6), drift=round(traj['drift'] * 0.45, 6))
    return {
        'traj': traj,
        'sel': draw(gen.selections(traj, framework=('default', 'empty', 'list', 'tuple', 'default', 'array'))),
        'clock': draw(gen.clocks()),
        'kind': draw(st.sampled_from('DJS')),
        'single': draw(st.booleans()),
        'rigid': draw(st.sampled_from([0.0, 0.3, 1.0])),
        'rseed': draw(gen.SEED),
    }


def strategy(tier):
    return _cases()


def check(case):
    spec, clock, sel = case['traj'], case['clock'], case['sel']
    fmt, sub = spec['fmt'], spec['sub']
    tr = gen.build(spec)
    mob, fw = gen.mobile_and_framework(sel, tr)
    if not mob:
        return Info(False, ['nothing selected'])
    kept = len(range(0, tr.frames, sub))
    sampling = 'single-origin' if case['single'] and len(mob) > 1 and case['kind'] == 'D' else 'multi-origin'
    params = dict(clock, sub_sample_traj=sub, n_steps=min(kept + 1, 150) if kept < 1000 else 12, sampling=sampling, **gen.selection_params(sel))
    an = model.parse(case['kind'], fmt, tr, params)
    d = model.atom_disp(tr, sub)
    atol = 2 * tr.atol(fmt)
    _, disp, _ = model.check_windows(an, model.corrected(d, mob, fw), clock, sub, fmt, atol, sampling,
                                     'drift-corrected displacements')
    labels = [fmt, sel['mode'], 'framework:' + sel['framework'], 'npt' if spec['npt'] else 'nvt', f'nfw={min(len(fw), 3)}',
              'huge' if tr.frames > 999 else 'short', 'crowd' if tr.n > 99 else 'few atoms']
    if fw and not spec['npt']:
        # metamorphic: a rigid translation of every frame, of any history, is invisible
        rng = np.random.default_rng(case['rseed'])
        cap = 0.45 * 0.45 / sub
        shift = rng.uniform(-cap, cap, (tr.frames, 1, 3)) * case['rigid']
        shift[0] = rng.uniform(-2, 2, 3)
        tr2 = gen.Traj(tr.true + np.cumsum(shift, axis=0), None, tr.latt, tr.species, spec)
        tr2.given = gen.images(spec, tr2.true, rng)
        an2 = model.parse(case['kind'], fmt, tr2, params)
        a2 = 2 * max(tr.atol(fmt), tr2.atol(fmt)) + atol
        for a, b in zip(disp, model.raw(an2)[1]):
            model.close(b, a, 'displacements after a rigid translation of every frame', rtol=1e-9, atol=a2)
        model.close(model.diff(an2)["n"], model.diff(an)["n"], 'mean-squared displacement after a rigid translation', rtol=1e-6,
                    atol=60 * a2 * (1 + max(np.abs(x).max() for x in disp)) * (1 + len(mob))**2)
    if fw and 'every' not in sel:
        # the framework itself does not move on average
        p3 = dict(params, specie=None, specie_indices=list(fw), framework_indices=list(fw), sampling='multi-origin')
        an3 = model.parse('D', fmt, tr, p3)
        for x in model.raw(an3)[1]:
            model.close(x.mean(axis=0), np.zeros(x.shape[1:]), 'mean framework displacement', atol=2 * atol)
    moving = bool(fw) and float(np.abs(d[fw].mean(axis=0)).max()) > 1e-3
    return Info(moving, labels)
