"""C20 requests that cannot be answered are refused."""
import os
import tempfile
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info

ID = 'C20'
RULE = ('Random valid analyses (all readers, analyzers, selections), each first run as is, then with exactly one defect: absent species, no or '
        'malformed selection, ragged molecules, wrong number of masses, unknown spacing/sampling/dtype/axis, consecutive universes, '
        'atom sub-sampling together with explicit atoms, min_dt not below the simulation length, too small a memory limit, existing output '
        'file, start time beyond the data; the defective request must raise the documented kind of error and the valid one must not. '
        'Non-trivial: every case.')
QUICK, THOROUGH = 10000, 200000

DEFECTS = ['absent', 'absent-list', 'nothing', 'type', 'ragged', 'masses', 'spacing', 'sampling', 'dtype', 'dimension', 'min_dt', 'memory',
           'exists', 'start', 'every', 'consecutive']


@st.composite
def _cases(draw):
    defect = draw(st.sampled_from(DEFECTS))
    fmts = ['universe'] if defect in ('every', 'consecutive') else gen.FORMATS
    mol = defect in ('ragged', 'masses')
    if mol:
        traj = draw(gen.mol_trajs(fmts=fmts, max_frames=8, npt=False, mols=(2, 4)))
        traj['size'] = max(2, traj['size'])
        n = traj['n_mol'] * traj['size'] + traj['n_fw']
        traj['species'] = ['C'] * n
        traj['perm'] = list(range(n))
    else:
        traj = draw(gen.trajs(fmts=fmts, max_frames=14, min_kept=8, atoms=(2, 5), max_sub=2, npt=False))
    return {'defect': defect, 'traj': traj, 'kind': draw(st.sampled_from('DJS')), 'clock': draw(gen.clocks()),
            'value': draw(st.integers(0, 11)), 'framework': draw(st.sampled_from(['default', 'empty', 'list'])),
            'spacing': draw(st.sampled_from(['linear', 'logarithmic'])), 'over': draw(st.sampled_from([0, 0, 1, 7]))}


def strategy(tier):
    return _cases()


def refused(fn, kinds, what):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        model.require(False, f'{what}: raised {type(e).__name__} ({e}) instead of {[k.__name__ for k in kinds]}')
    model.require(False, f'{what}: not refused')


def check(case):
    spec, kind, d = case['traj'], case['kind'], case['defect']
    fmt, sub = spec['fmt'], spec['sub']
    v = case['value']
    if d in ('ragged', 'masses'):
        tr, mols, fw = gen.build_mol(spec)
        good = dict(case['clock'], specie=None, specie_indices=[list(m) for m in mols], sub_sample_traj=sub)
        if d == 'masses':
            good['masses'] = [1.0 + k for k in range(spec['size'])]
    else:
        tr = gen.build(spec)
        good = dict(case['clock'], sub_sample_traj=sub)
        if d == 'every' or v % 2:
            good.update(specie=None, specie_indices=list(range(max(2, tr.n - 1))))
        else:
            good.update(specie=list(dict.fromkeys(tr.species)))
    if case['framework'] == 'empty':
        good['framework_indices'] = []
    elif case['framework'] == 'list':
        good['framework_indices'] = [1]
    good['spacing'] = case['spacing']
    n = len(range(0, tr.frames, sub))
    obj = gen.to_input(tr, fmt)
    obj2 = gen.to_input(tr, fmt)
    root = tempfile.mkdtemp(dir=gen.scratch())
    try:
        an = model.analyze(kind, fmt, obj, good)  # must work
        bad, kw, kinds = dict(good), {}, (ValueError,)
        if d in ('absent', 'absent-list'):
            absent = [s for s in gen.SYMBOLS if s not in tr.species]
            bad.update(specie=absent[v % len(absent)] if d == 'absent' else absent[:1 + v % 6], specie_indices=None)
        elif d == 'nothing':
            bad.update(specie=None, specie_indices=None)
            kinds = (TypeError,)
        elif d == 'type':
            bad.update(specie=None, specie_indices=[3, 'Li', {0, 1}, 1.5, {'a': 1}, True][v % 6])
            kinds = (TypeError,)
        elif d == 'ragged':
            m = [list(x) for x in mols]
            m[v % len(m)] = m[v % len(m)][:-1]
            bad['specie_indices'] = m
        elif d == 'masses':
            bad['masses'] = (good['masses'] + [2.0] * (1 + v % 2) if v < 5 else good['masses'][:-1] if v < 9 else
                             good['masses'] * spec['n_mol'])
        elif d == 'spacing':
            bad['spacing'] = ['log', 'Linear', 'geometric', '', 'linear ', None, 'lin', 'logarithm', 'logarithmic10', 'LOGARITHMIC', 'l', 'uniform'][v]
        elif d == 'sampling':
            bad['sampling'] = ['multi', 'single origin', 'Multi-origin', '', 'none', None, 'single', 'origin', 'single_origin', 'MULTI-ORIGIN', 'multi-origins', 's'][v]
        elif d in ('dtype', 'consecutive'):
            kw['dtype'] = 'consecutive' if d == 'consecutive' else [
                'same', 'Identical', '', 'consecutive ', 'replica', 'None', 'CONSECUTIVE', 'identic', 'ident', 'con', 'nested', 'x'][v]
        elif d == 'dimension':
            kw['uparams'] = {'dimension': ['w', 'xw', 'xyzz', 'q', '', 'a', 'xx', 'yx', 'zyx', 'xyy', 'abc', 'x y'][v]}
            kinds = (KeyError, ValueError)
        elif d == 'min_dt':
            bad['min_dt'] = (n + case['over']) * case['clock']['time_step'] * case['clock']['step_skip'] * sub
        elif d == 'memory':
            bad['memory_limit'] = [0.0, 1e-9, 1e-8, 1e-12, 1e-10, 5e-9][v % 6]
            kinds = (MemoryError,)
        elif d == 'every':
            bad['sub_sample_atoms'] = 2 + v
        if d == 'exists':
            f = os.path.join(root, 'file')
            an.save(f)
            before = open(f + '.hdf', 'rb').read()
            refused(lambda: an.save([f, f + '.hdf'][v % 2]), kinds, 'saving over an existing file')
            model.require(open(f + '.hdf', 'rb').read() == before, 'existing file changed')
        elif d == 'start':
            if len(an.dt) == 0:
                return Info(False, ['nothing observed'])
            start = float(an.dt[-1]) * [1.01, 2, 10, 1e6, 1.5, 1.001][v % 6]
            p = dict(progress=False, n_samples=2, n_walkers=8, n_burn=0, thin=1)
            fn = {'D': lambda: an.diffusion(start, p), 'J': lambda: an.jump_diffusion(start, p),
                  'S': lambda: an.conductivity(start, 300, p)}[kind]
            refused(fn, (ValueError, IndexError), 'a fit starting after the last interval')
        else:
            arg = [obj, obj2] if d in ('dtype', 'consecutive') else obj
            refused(lambda: model.analyze(kind, fmt, arg, bad, **kw), kinds, f'{d} {kw or ""}')
    finally:
        gen.release([obj, obj2], fmt)
        shutil.rmtree(root, ignore_errors=True)
    return Info(True, [d, kind, fmt])
