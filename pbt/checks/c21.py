"""C21 end-to-end invariances of a whole analysis."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C21'
RULE = ('Metamorphic: a random trajectory and its image under a transformation with a known effect (length scaling, time scaling, '
        'exchange of time_step and step_skip, constant translation, atom relabelling, axis permutation, rotation of the whole system, '
        'supercell, sub-sampling against thinned input, added spectator atoms, charge scaling) go through the same analyzer and reader; '
        'intervals, mean-squared displacements, uncertainties, non-Gaussian parameters and covariance matrices must transform '
        'accordingly. Non-trivial: at least three intervals and some motion.')
ASSUMPTIONS = ['no atom moves half a cell length or more between two read frames']
QUICK, THOROUGH = 9000, 120000

RELATIONS = ['length', 'time', 'exchange', 'translate', 'relabel', 'axes', 'rotate', 'supercell', 'thin', 'spectators', 'charge']
Q = np.array([[2, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3.0


@st.composite
def _cases(draw):
    rel = draw(st.sampled_from(RELATIONS))
    fmts = {'rotate': ['ase', 'pymatgen'], 'axes': ['ase', 'pymatgen', 'xdatcar', 'universe']}.get(rel, gen.FORMATS)
    kinds = ('ortho',) if rel in ('axes',) else ('ortho', 'tric')
    traj = draw(gen.trajs(fmts=fmts, max_frames=16, min_kept=8, atoms=(2, 5), max_sub=3, npt=True, kinds=kinds,
                          images=('wrapped', 'unwrapped')))
    traj['species'] = [traj['species'][0]] * len(traj['species']) if rel == 'spectators' else traj['species']
    kind = 'S' if rel == 'charge' else draw(st.sampled_from('DJS'))
    return {'rel': rel, 'traj': traj, 'kind': kind, 'clock': draw(gen.clocks()), 'dimension': draw(st.sampled_from(stats.DIMS)),
            'mobile': draw(st.integers(1, 5)), 'default_fw': draw(st.booleans()), 'factor': draw(st.sampled_from([2, 3, 0.5, 10])),
            'perm': draw(st.permutations([0, 1, 2])), 'aseed': draw(st.integers(0, 999)), 'sampling': draw(st.sampled_from(
                ['multi-origin', 'multi-origin', 'single-origin'])), 'n_steps': draw(st.sampled_from([100, 5])),
            'model': draw(st.booleans())}


def strategy(tier):
    return _cases()


def run(kind, fmt, tr, params, dim, charge, mdl):
    obj = gen.to_input(tr, fmt)
    try:
        an = model.analyze(kind, fmt, obj, params, uparams={'dimension': dim}, charge=charge)
    finally:
        gen.release(obj, fmt)
    out = {k: np.asarray(model.diff(an)[k], float) for k in ('dt', 'n', 'v', 's', 'ngp', 'n_o')}
    out['dr'] = [np.sort(np.asarray(d.samples, float)) for d in an.dr]
    out['obs'] = [np.asarray(x, float) for x in model.raw(an)[1]]
    out['cov'] = None
    if out['dt'].size >= 4 and np.all(out['v'] > 1e-12 * out['n']**2):
        kw = dict(n_samples=1, n_walkers=8, n_burn=0, thin=1, progress=False, model=mdl, cond_max=1e6)
        start = out['dt'][1]
        try:
            if kind == 'D':
                an.diffusion(start, kw)
            elif kind == 'J':
                an.jump_diffusion(start, kw)
            else:
                an.conductivity(start, 300, kw)
            out['cov'] = np.asarray(model.diff(an)['covariance_matrix'])
        except ValueError as e:
            if 'nitial state' not in str(e):
                raise
    return out


def check(case):
    rel, spec, kind = case['rel'], case['traj'], case['kind']
    fmt, sub = spec['fmt'], spec['sub']
    tr = gen.build(spec)
    rng = np.random.default_rng(case['aseed'])
    na = min(max(case['mobile'], 2 if rel == 'supercell' else 1), tr.n)
    mob = list(range(na))
    params = dict(case['clock'], specie=None, specie_indices=mob, sub_sample_traj=sub, n_steps=case['n_steps'])
    if kind == 'D' and na > 1:
        params['sampling'] = case['sampling']
    if not case['default_fw'] or rel == 'spectators':
        params['framework_indices'] = [] if na == tr.n else list(range(na, tr.n))
    charge = None
    if kind == 'S':
        charge = np.array([1, -2, 1.5, 3, -1])[:na]
    dim, dim2, charge2 = case['dimension'], case['dimension'], charge
    p2, t2 = dict(params), copy.copy(tr)
    t2.spec = dict(spec)
    L = Tm = 1.0
    V = None
    k = case['factor']
    if rel == 'length':
        t2.latt = tr.latt * k
        L = k
    elif rel == 'time':
        p2['time_step'] = params['time_step'] * k
        Tm = k
    elif rel == 'exchange':
        p2['time_step'], p2['step_skip'] = params['time_step'] * params['step_skip'], 1
    elif rel == 'translate':
        t2.given = tr.given + rng.uniform(-1, 1, 3)
        if spec['npt']:
            return Info(False, ['translation in a fluctuating cell is not exact'])
    elif rel == 'relabel':
        perm = rng.permutation(tr.n)  # new position of every atom
        inv = np.argsort(perm)
        if fmt in ('xdatcar', 'file'):
            t2.species = ['C'] * tr.n
        else:
            t2.species = [tr.species[i] for i in inv]
        t2.given = tr.given[:, inv]
        p2['specie_indices'] = [int(perm[i]) for i in mob]
        if 'framework_indices' in params:
            p2['framework_indices'] = [int(perm[i]) for i in params['framework_indices']][::-1]
    elif rel == 'axes':
        # the same system with the axes renamed: new axis j is old axis perm[j]
        pm = list(case['perm'])
        t2.given = tr.given[:, :, pm]
        t2.latt = tr.latt[:, pm][:, :, pm]
        dim2 = ''.join(sorted('xyz'[pm.index('xyz'.index(c))] for c in dim.lower()))
    elif rel == 'rotate':
        t2.latt = tr.latt @ Q.T
        dim = dim2 = 'xyz'
    elif rel == 'supercell':
        ax = case['aseed'] % 3
        h = [1, 1, 1]
        h[ax] = 2
        shift = np.eye(3)[ax]
        order = [i for i in range(tr.n) for _ in range(2)]
        g = np.repeat(tr.true, 2, axis=1)  # wrapping has to be done again in the larger cell
        g[:, 1::2] = g[:, 1::2] + shift
        t2.given = g / np.array(h)
        if spec['image'] == 'wrapped':
            t2.given = wrap(t2.given)
        t2.latt = tr.latt * np.array(h)[None, :, None]
        t2.species = [tr.species[i] for i in order]
        t2.n = 2 * tr.n
        p2['specie_indices'] = list(range(2 * na))
        if 'framework_indices' in params:
            p2['framework_indices'] = [j for i in params['framework_indices'] for j in (2 * i, 2 * i + 1)]
        if spec['npt']:
            return Info(False, ['supercell of a fluctuating cell'])
        charge2 = None if charge is None else np.repeat(charge, 2)
    elif rel == 'thin':
        idx = list(range(0, tr.frames, sub))
        t2.given, t2.latt, t2.true = tr.given[idx], tr.latt[idx], tr.true[idx]
        t2.frames = len(idx)
        t2.spec['frames'] = len(idx)
        p2['sub_sample_traj'] = 1
        p2['step_skip'] = params['step_skip'] * sub
    elif rel == 'spectators':
        m = 1 + case['aseed'] % 3
        extra = rng.uniform(0, 1, (tr.frames, m, 3)) if fmt != 'universe' else np.repeat(rng.uniform(0, 1, (1, m, 3)), tr.frames, axis=0)
        t2.given = np.concatenate([tr.given, extra], axis=1)
        t2.species = tr.species + [tr.species[0]] * m
        t2.n = tr.n + m
        p2['framework_indices'] = params['framework_indices']
    elif rel == 'charge':
        charge2 = charge * k
        V = k
    a = run(kind, fmt, tr, params, dim, charge, case['model'])
    b = run(kind, fmt, t2, p2, dim2, charge2, case['model'])
    what = f'{rel} x{k}' if rel in ('length', 'time', 'charge') else rel
    tol = dict(rtol=1e-6)
    pos = float(np.abs(np.einsum('fai,fij->faj', tr.given, tr.latt)).max()) + float(np.abs(tr.latt).max())
    eps = (1e-12 if fmt != 'universe' else 2e-6) * pos * 20
    big = max([float(np.abs(x).max()) for x in a['obs']] + [1e-300])
    qmax = 1 if charge is None else float(np.abs(charge).max())
    e2 = eps * (big + eps) * (1 if kind == 'D' else na * na) * qmax**2 * 4
    sm = L * L * (V * V if V else 1)
    model.close(b['dt'], a['dt'] * Tm, what + ': intervals', rtol=1e-9)
    if rel == 'supercell' and kind != 'D':
        f = 4.0  # the copies move together
    else:
        f = 1.0
    model.close(b['n'], a['n'] * sm * f, what + ': mean-squared displacement', atol=e2 * sm * f, **tol)
    if rel != 'supercell':
        ref = np.max(np.abs(a['n'])) + e2
        model.close(b['s'], a['s'] * sm, what + ': uncertainty', rtol=1e-5, atol=(e2 + (1e-9 if fmt != 'universe' else 1e-4) * ref) * sm)
        model.close(b['n_o'], a['n_o'], what + ': independent observations', rtol=1e-9)
    else:
        model.close(b['n_o'], 2 * a['n_o'], what + ': independent observations', rtol=1e-9)
    if np.all(a['n'] > 1e-6 * pos**2) and fmt != 'universe':
        model.close(b['ngp'], a['ngp'], what + ': non-Gaussian parameter', rtol=1e-5, atol=1e-7)
    for x, y in zip(a['dr'], b['dr']):
        if rel == 'supercell':
            y = np.sort(y)[::2]
        model.close(y, x * L, what + ': displacement distribution', rtol=1e-6, atol=2 * eps * L)
    if a['cov'] is not None and b['cov'] is not None and rel != 'supercell' and fmt != 'universe':
        top = np.abs(a['cov']).max()
        model.close(b['cov'], a['cov'] * sm * sm, what + ': covariance matrix', rtol=1e-5, atol=1e-6 * top * sm * sm)
    return Info(a['dt'].size >= 3 and big > 1e-6, [rel, kind, fmt, dim.lower(), 'npt' if spec['npt'] else 'nvt',
                                                   'covariance' if a['cov'] is not None else '-'])


def wrap(x):
    return x - np.floor(x)
