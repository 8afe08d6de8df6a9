"""C04 molecules: centre-of-mass displacements."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C04'
RULE = ('Random systems of molecules (1-5 atoms, rigid or flexible, extended up to 0.4 of the cell, atoms in arbitrary file '
        'order and periodic images, molecules straddling cell edges), with or without masses, with default, explicit or empty '
        'framework, read by all five readers; the reported displacements must be those of the true (mass-weighted) centres. '
        'Non-trivial: some molecule straddles a cell edge.')
ASSUMPTIONS = ['a molecule extends less than half a cell, and its centre moves less than half a cell between read frames']
QUICK, THOROUGH = 6000, 80000


@st.composite
def _cases(draw):
    traj = draw(gen.mol_trajs(large=40))
    n_mol, size, n_fw = traj['n_mol'], traj['size'], traj['n_fw']
    fw = draw(st.sampled_from(['default', 'empty', 'explicit', 'explicit-tuple'] if n_fw else ['default', 'empty', 'other']))
    return {
        'traj': traj,
        'masses': draw(st.one_of(st.none(), st.lists(st.integers(1, 300).map(lambda x: x / 10), min_size=size, max_size=size),
                                 st.lists(st.sampled_from([16, 1, 0, 1.008, 12]), min_size=size, max_size=size).filter(any))),
        'chosen': draw(st.one_of(st.lists(st.integers(0, n_mol - 1), min_size=1, max_size=min(n_mol, 8), unique=True), st.just(list(range(n_mol))))),
        'framework': fw,
        'tuples': draw(st.booleans()),
        'clock': draw(gen.clocks()),
        'kind': draw(st.sampled_from('DJS')),
        'shuffle': draw(st.permutations(list(range(size)))) if size < 20 else list(range(size))[::-1],
        'iseed': draw(gen.SEED),
    }


def strategy(tier):
    return _cases()


def check(case):
    spec, clock = case['traj'], case['clock']
    fmt, sub, size = spec['fmt'], spec['sub'], spec['size']
    tr, mols, fw_atoms = gen.build_mol(spec)
    chosen = [mols[i] for i in case['chosen']]
    w = np.ones(size) if case['masses'] is None else np.array(case['masses'])
    used = {a for m in chosen for a in m}
    params = dict(clock, specie=None, specie_indices=[tuple(m) if case['tuples'] else list(m) for m in chosen],
                  sub_sample_traj=sub, masses=case['masses'])
    if case['framework'] == 'default':
        fw = [a for a in range(1, tr.n + 1) if a not in used]
    elif case['framework'] == 'empty':
        fw = []
        params['framework_indices'] = []
    elif case['framework'] == 'other':
        # any atoms may serve as the framework
        fw = sorted(used)[:2]
        params['framework_indices'] = list(fw)
    else:
        fw = list(fw_atoms)
        params['framework_indices'] = tuple(fw) if case['framework'].endswith('tuple') else list(fw)
    an = model.parse(case['kind'], fmt, tr, params)
    com = np.stack([np.average(tr.true[:, np.array(m) - 1], axis=1, weights=w) for m in chosen], axis=1)
    ent = np.concatenate([com, tr.true[:, np.array(fw, int) - 1]], axis=1)
    if spec['npt'] and np.abs(ent - np.rint(ent)).min() < 2e-5:
        return Info(False, ['a centre on a cell face of a fluctuating cell'])
    d = model.displacements(ent[::sub], tr.latt[::sub], bool(spec['npt']))
    m = len(chosen)
    atol = (40 if fmt == 'universe' else 10) * tr.atol(fmt)
    expect = model.corrected(d, list(range(m)), list(range(m, m + len(fw))))
    _, disp, _ = model.check_windows(an, expect, clock, sub, fmt, atol, what='centre-of-mass displacements')
    # metamorphic: the order in which a molecule's atoms are listed (with their masses) does not matter,
    # nor do the periodic images of its atoms
    s = case['shuffle']
    p2 = dict(params, specie_indices=[[mm[k] for k in s] for mm in chosen],
              masses=None if case['masses'] is None else [case['masses'][k] for k in s])
    rng = np.random.default_rng(case['iseed'])
    tr2 = gen.Traj(tr.true, tr.given + rng.integers(-1, 2, tr.given.shape), tr.latt, tr.species, spec)
    an2 = model.parse(case['kind'], fmt, tr2, p2)
    for a, b in zip(disp, model.raw(an2)[1]):
        model.close(b, a, 'displacements with molecule atoms reordered and re-imaged', atol=2 * atol + 10 * tr2.atol(fmt))
    wrapped = np.floor(tr.true)
    straddle = any(np.any(wrapped[:, np.array(mm) - 1] != wrapped[:, [mm[0] - 1]]) for mm in chosen)
    return Info(straddle, [fmt, 'masses' if case['masses'] else 'no masses', 'framework:' + case['framework'], f'size={size}',
                           'straddling' if straddle else 'inside', 'rigid' if spec['rigid'] else 'flexible',
                           'npt' if spec['npt'] else 'nvt'])
