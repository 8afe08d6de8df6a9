"""C07 the reader does not matter."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C07'
RULE = ('One random trajectory and parameter set is given to all five entry points (ASE atoms, pymatgen structures, Xdatcar '
        'object, XDATCAR file, MDAnalysis universe), with progress bars on or off, twice; intervals (ps), displacements, '
        'observation counts, cell volume, mean-squared displacement, its uncertainty and the displacement distributions must '
        'agree with one another and across repetitions, and the inputs must be left as they were. '
        'Non-trivial: more than one atom selected and a boundary crossing.')
ASSUMPTIONS = ['MDAnalysis holds single-precision coordinates: agreement with that reader is checked to that precision']
QUICK, THOROUGH = 1600, 25000


@st.composite
def _cases(draw):
    mol = draw(st.integers(0, 3)) == 3
    if mol:
        traj = draw(gen.mol_trajs(fmts=['file'], max_frames=12))
    else:
        traj = draw(gen.trajs(fmts=['file'], min_frames=2, min_kept=2, max_frames=16, atoms=(2, 6), max_sub=3, big=30))
    traj = dict(traj, fmt='universe')
    if traj['cell']['kind'] in ('rot', 'left'):
        traj['cell'] = dict(traj['cell'], kind='tric')
    case = {'traj': traj, 'mol': mol, 'clock': draw(gen.clocks()), 'kind': draw(st.sampled_from('DJS')),
            'n_steps': draw(st.sampled_from([100, 3, 7])), 'spacing': draw(st.sampled_from(['linear', 'logarithmic'])),
            'sampling': draw(st.sampled_from(['multi-origin', 'multi-origin', 'single-origin'])),
            'progress': draw(st.integers(0, 4)), 'at': draw(st.integers(0, 4))}
    if mol:
        case['masses'] = draw(st.booleans())
    else:
        sel = draw(gen.selections(traj, min_sel=2))
        sel.pop('every', None)
        case['sel'] = sel
    return case


def strategy(tier):
    return _cases()


def snapshot(obj, fmt):
    if fmt == 'ase':
        return [(a.get_positions().copy(), a.cell[:].copy(), a.get_chemical_symbols(), a.pbc.copy()) for a in obj]
    if fmt == 'pymatgen':
        return [(s.frac_coords.copy(), s.lattice.matrix.copy(), [str(x.specie) for x in s]) for s in obj]
    if fmt == 'xdatcar':
        return snapshot(obj.structures, 'pymatgen')
    if fmt == 'file':
        with open(obj) as f:
            return [f.read()]
    return [(ts.positions.copy(), ts.dimensions.copy()) for ts in obj.trajectory] + [list(obj.atoms.types)]


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    return a == b


def observe(an):
    d = model.diff(an)
    return {
        'n': d['n'], 's': d['s'], 'v': d['v'], 'dt': an.dt, 'ngp': d['ngp'],
        'dr': [np.sort(x.samples) for x in an.dr],
    }


def swapped(case, spec, obj, fmt, kind, params):
    """Put another trajectory into the same object, or under the same file name: that one must then be read."""
    other = (gen.build_mol if case['mol'] else gen.build)(dict(spec, seed=spec['seed'] + 1))
    tr2 = other[0] if case['mol'] else other
    new = gen.to_input(tr2, fmt)
    try:
        if fmt == 'ase':
            for a, b in zip(obj, new):
                a.set_cell(b.cell)
                a.set_positions(b.get_positions(), apply_constraint=False)
        elif fmt == 'pymatgen':
            obj[:] = new
        elif fmt == 'xdatcar':
            obj.structures = new.structures
        elif fmt == 'file':
            with open(new) as f, open(obj, 'w') as g:
                g.write(f.read())
        else:
            return
        a = model.analyze(kind, fmt, obj, dict(params, progress=False), uparams={'progress': False})
        tol = 60 * max(tr2.atol(fmt), 1e-12)
        b = model.analyze(kind, 'ase', gen.to_input(tr2, 'ase'), dict(params, progress=False), uparams={'progress': False})
        for x, y in zip(model.raw(a)[1], model.raw(b)[1]):
            model.close(x, y, f'{fmt}: displacements after the trajectory was replaced', atol=tol)
    finally:
        gen.release(new, fmt)


def check(case):
    spec = case['traj']
    sub, kind = spec['sub'], case['kind']
    common = {'sub_sample_traj': sub, 'n_steps': case['n_steps'], 'spacing': case['spacing']}
    if case['mol']:
        tr, mols, fw = gen.build_mol(spec)
        common.update(specie=None, specie_indices=[list(m) for m in mols])
        if case['masses']:
            common['masses'] = [float(k + 1) for k in range(spec['size'])]
        n_ent = len(mols)
    else:
        tr = gen.build(spec)
        sel = dict(case['sel'])
        if sel['mode'] == 'element':
            sel['mode'] = 'specie'
        common.update(gen.selection_params(sel))
        n_ent = len(gen.mobile_and_framework(sel, tr)[0])
        if not n_ent:
            return Info(False, ['nothing selected'])
    if n_ent > 1 and kind == 'D':
        common['sampling'] = case['sampling']
    ref = None
    tol = (60 if case['mol'] else 4) * tr.atol('universe')
    for k, fmt in enumerate(gen.FORMATS):
        ts = case['clock']['time_step']
        if fmt in gen.FS:
            ts = ts * 1000  # femtoseconds
        params = dict(common, time_step=ts, step_skip=case['clock']['step_skip'])
        params = copy.deepcopy(params)
        before_p = copy.deepcopy(params)
        obj = gen.to_input(tr, fmt)
        try:
            before = snapshot(obj, fmt)
            if fmt == 'universe':
                obj.trajectory[case.get('at', 0) % tr.frames]  # wherever the universe stands
            an = model.analyze(kind, fmt, obj, dict(params, progress=case['progress'] == k), uparams={'progress': False})
            model.require(equal(before, snapshot(obj, fmt)), f'{fmt}: the input trajectory was modified')
            model.require(equal(params, before_p), f'{fmt}: the parser parameters were modified')
            if fmt == 'universe':
                obj.trajectory[-1]
            again = model.analyze(kind, fmt, obj, dict(params, progress=False), uparams={'progress': case['progress'] == k})
            if case['progress'] == k:
                swapped(case, spec, obj, fmt, kind, params)
        finally:
            gen.release(obj, fmt)
        got = model.raw(an)
        rep = model.raw(again)
        model.same(rep[0], got[0], f'{fmt}: intervals on a second reading')
        for a, b in zip(got[1], rep[1]):
            model.same(b, a, f'{fmt}: displacements on a second reading')
        o, o2 = observe(an), observe(again)
        for key in ('n', 's', 'v', 'dt', 'ngp'):
            model.same(o2[key], o[key], f'{fmt}: {key} on a second reading')
        if ref is None:
            ref, ref_o = got, o
            continue
        atol = tol if fmt == 'universe' else (60 if case['mol'] else 4) * tr.atol(fmt)
        model.close(got[0], ref[0], f'{fmt} vs ase: time intervals in ps', rtol=1e-9)
        model.require(len(got[1]) == len(ref[1]), f'{fmt} vs ase: number of observation sets')
        for a, b in zip(ref[1], got[1]):
            model.close(b, a, f'{fmt} vs ase: displacements', atol=atol)
        model.close(got[2], ref[2], f'{fmt} vs ase: independent observations')
        model.close(got[3], ref[3], f'{fmt} vs ase: volume', rtol=1e-5 if fmt == 'universe' else 1e-9)
        # squared displacements: absolute error about 2*|d|*atol (collective: times n)
        big = 1 + max(float(np.abs(x).max()) for x in ref[1])
        sq = 8 * big * atol * n_ent**2
        model.close(o['dt'], ref_o['dt'], f'{fmt} vs ase: times', rtol=1e-9)
        model.close(o['n'], ref_o['n'], f'{fmt} vs ase: mean-squared displacement', rtol=1e-6, atol=sq)
        model.close(o['s'], ref_o['s'], f'{fmt} vs ase: uncertainty', rtol=1e-4, atol=4 * sq)
        for a, b in zip(ref_o['dr'], o['dr']):
            model.close(b, a, f'{fmt} vs ase: displacement distribution', rtol=1e-6, atol=4 * atol)
    crossed = bool(np.any(np.floor(tr.true) != np.floor(tr.true[:1])))
    return Info(crossed and n_ent > 1, ['molecules' if case['mol'] else case['sel']['mode'], kind, f'sub={sub}',
                                        'npt' if spec['npt'] else 'nvt', spec['cell']['kind'], common.get('sampling', 'default')])
