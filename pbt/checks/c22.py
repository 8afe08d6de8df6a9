"""C22 accuracy and calibration: known diffusion coefficients are recovered within the reported uncertainty."""
import types

import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info
from .c14 import E_C, KB

ID = 'C22'
RULE = ('Batches of independent Brownian trajectories of known diffusion coefficient (random cell, step, atoms, length, format, axes, '
        'drift, replicas) go through the whole analysis; the estimates must scatter around the true coefficient: the batch mean '
        'within its standard error, and the reported standard deviations must match the actual scatter. Non-trivial: every batch '
        'estimates a non-zero coefficient.')
ASSUMPTIONS = ['independent Gaussian steps; the atoms of one batch are identical',
               'batch limits are at more than five standard deviations of the statistic over many seeds']
QUICK, THOROUGH = 72, 3000
BATCH = 40


@st.composite
def _cases(draw):
    kind = draw(st.sampled_from('DDJS'))
    axes = draw(st.sampled_from(['xyz', 'xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz']))
    replicas = draw(st.sampled_from([1, 1, 6]))
    return {'kind': kind, 'fmt': draw(st.sampled_from(['ase', 'pymatgen', 'universe'])), 'dimension': axes,
            'atoms': draw(st.integers(8, 24)) if replicas == 1 else draw(st.integers(2, 5)), 'frames': draw(st.integers(100, 160)), 'sigma': draw(st.sampled_from([0.05, 0.2, 0.5])),
            'cell': draw(st.sampled_from([8.0, 12.5, 30.0])), 'tric': draw(st.booleans()), 'clock': draw(gen.clocks()),
            'drift': draw(st.sampled_from([0.0, 0.05])), 'start': draw(st.sampled_from([1, 2, 5])), 'fit': draw(
                st.sampled_from([True, True, False])), 'replicas': replicas,
            'charge': draw(st.sampled_from([1, 2, -1])), 'T': draw(st.sampled_from([300, 1000])), 'model': draw(
                st.sampled_from([True, True, False])), 'seed': draw(gen.SEED)}


def strategy(tier):
    return _cases()


FW = 3  # framework atoms, at rest apart from the drift


def walk(case, rng):
    n, f = case['atoms'], case['frames']
    latt = np.eye(3) * case['cell']
    if case['tric']:
        latt = latt + np.array([[0, 0, 0], [0.2, 0, 0], [0.1, -0.15, 0]]) * case['cell']
    x = np.cumsum(rng.normal(0, case['sigma'], (f, n, 3)), axis=0)
    x = np.concatenate([x, np.zeros((f, FW, 3))], axis=1)
    x = x + np.cumsum(rng.normal(0, 1, (f, 1, 3)) * case['drift'], axis=0)
    frac = rng.uniform(0, 1, (1, n + FW, 3)) + x @ np.linalg.inv(latt)
    frac = frac - np.floor(frac)
    return types.SimpleNamespace(n=n + FW, frames=f, given=frac, latt=np.repeat(latt[None], f, axis=0),
                                 species=['Li'] * n + ['O'] * FW, spec={'npt': 0, 'pbc': True})


def estimate(case, rng, k):
    kind, fmt = case['kind'], case['fmt']
    trs = [walk(case, rng) for _ in range(case['replicas'])]
    objs = [gen.to_input(t, fmt) for t in trs]
    params = dict(case['clock'], specie='Li', n_steps=30)
    an = model.analyze(kind, fmt, objs if len(objs) > 1 else objs[0], params, dtype='identical' if len(objs) > 1 else None,
                       uparams={'dimension': case['dimension']}, charge=case['charge'] if kind == 'S' else None)
    unit = case['clock']['time_step'] * case['clock']['step_skip'] * (1e-3 if fmt in gen.FS else 1)
    kw = dict(n_samples=160, n_walkers=8, n_burn=80, thin=2, progress=False, model=case['model'], fit_intercept=case['fit'],
              random_state=np.random.RandomState(k))
    start = (case['start'] - 0.5) * unit
    true = case['sigma']**2 / (2 * unit) * 1e-4  # cm^2/s
    if kind == 'D':
        an.diffusion(start, kw)
        got = an.D
    elif kind == 'J':
        an.jump_diffusion(start, kw)
        got = an.D_J
    else:
        an.conductivity(start, case['T'], kw)
        got = an.sigma
        vol = abs(np.linalg.det(trs[0].latt[0])) * 1e-30
        true = case['atoms'] / vol * (case['charge'] * E_C)**2 * true * 1e-4 / (KB * case['T']) * 10
    s = np.asarray(got.samples, float)
    return s.mean() / true, s.std() / true


def measure(case):
    """Mean and scatter of the estimates (without the two lowest and highest), reported uncertainty, deviation in units of it."""
    rng = np.random.default_rng(case['seed'])
    r = np.array([estimate(case, rng, k) for k in range(BATCH)])
    core = np.sort(r[:, 0])[2:-2]
    return core.mean(), core.std() / 0.79, np.sqrt(np.median(r[:, 1]**2)), float(np.median(np.abs(r[:, 0] - 1) / r[:, 1]))


def check(case):
    mean, scatter, said, z = measure(case)
    # limits: five standard deviations of the statistics over several hundred batches of the unchanged code; fits to the
    # observed variances (model=False) of collective displacements are known to be biased low for short trajectories
    if case['kind'] == 'D':
        off, k, lo, hi, zmax = (0.03 if case['model'] else 0.08), 5.5, 0.46, (2.3 if case['model'] else 2.8), 2.0
    else:
        off, k, lo, hi, zmax = (0.06 if case['model'] else 0.2), 6.0, 0.58, 4.6, 3.0
    what = f'{BATCH} independent trajectories, estimate / true value: mean {mean:.3f}, scatter {scatter:.3f}, reported uncertainty {said:.3f}'
    model.require(abs(mean - 1) <= off + k * max(scatter, said) / np.sqrt(BATCH), what + ' (biased)')
    model.require(lo <= scatter / said <= hi and z <= zmax, what + f', median deviation {z:.2f} (uncertainty wrong)')
    return Info(True, [case['kind'], case['fmt'], case['dimension'], f'fit={case["fit"]}', f'model={case["model"]}',
                       f'replicas={case["replicas"]}', 'drift' if case['drift'] else 'no drift'])
