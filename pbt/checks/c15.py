"""C15 results depend on the input, the settings and the seed only."""
import contextlib
import copy
import sys

import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info
from . import c12

ID = 'C15'
RULE = ('Random histories of operations (building estimators and analyzers with and without resampling, fits with different start '
        'times, seeds and settings, posterior predictive sampling, unrelated use of the global random generator) on shared objects '
        'and shared inputs: every result must equal the one from fresh objects with the same seed, repeated operations must repeat '
        'bit for bit (also with the modules loaded anew, as in a new process), different seeds must differ, and inputs and parameter dictionaries must be left as they were. '
        'Non-trivial: at least two fits in the history.')
ASSUMPTIONS = ['seeds are given as new numpy RandomState objects']
QUICK, THOROUGH = 1500, 25000


@st.composite
def _ops(draw, n_obj):
    k = draw(st.sampled_from(['fit', 'fit', 'fit', 'junk', 'ppd', 'rebuild']))
    o = draw(st.integers(0, n_obj - 1))
    if k == 'fit':
        return {'op': k, 'obj': o, 'start': draw(st.integers(0, 3)), 'fit': draw(st.booleans()), 'model': draw(st.booleans()),
                'seed': draw(st.integers(0, 50)), 'walkers': draw(st.sampled_from([8, 12])), 'samples': draw(st.integers(1, 4)),
                'burn': draw(st.integers(0, 2)), 'cond': draw(st.sampled_from([1e16, 1e3])), 'T': draw(st.sampled_from([300.0, 700]))}
    if k == 'ppd':
        return {'op': k, 'obj': o, 'seed': draw(st.integers(0, 50))}
    if k == 'junk':
        return {'op': k, 'n': draw(st.integers(1, 700)), 'seed': draw(st.one_of(st.none(), st.integers(0, 5)))}
    return {'op': k, 'obj': o}


@st.composite
def _cases(draw):
    objs = []
    for _ in range(draw(st.integers(1, 3))):
        o = {'kind': draw(st.sampled_from('DJS')), 'boot': draw(st.sampled_from([None, None, 3, 11])),
             'charge': draw(st.sampled_from(['scalar', 'array']))}
        if draw(st.integers(0, 2)) == 2:
            traj = draw(gen.trajs(max_frames=12, min_kept=9, atoms=(2, 4), max_sub=1, npt=True))
            traj['motion'] = 'uniform'
            o.update(via='analyzer', traj=traj, clock=draw(gen.clocks()), replicas=draw(st.sampled_from([1, 2, 1, 2, 4, 6])))
        else:
            ds = draw(stats.datasets(min_int=9, max_int=12, atoms=(1, 5), sub=(1,)))
            if ds['walk'] == 'still-one':
                ds['walk'] = 'normal'
            like = [p['ds'] for p in objs if p['via'] == 'direct']
            if like and draw(st.booleans()):  # alike in its first part, or in shape only, to an earlier object
                ds = dict(like[0])
                ds.update(draw(st.sampled_from([{'late': 1.5}, {'late': 1.5}, {'seed': ds['seed'] + 1}, {'dimension': 'xy'}, {'unit': 0.37}])))
            o.update(via='direct', ds=ds)
        objs.append(o)
    n = draw(st.integers(2, 7))
    return {'objs': objs, 'ops': [draw(_ops(len(objs))) for _ in range(n)]}


@contextlib.contextmanager
def pristine():
    """kinisi's modules as a new process would have them: whatever an earlier analysis left in them is gone."""
    mine = {k: v for k, v in sys.modules.items() if k == 'kinisi' or k.startswith('kinisi.')}
    for k in mine:
        del sys.modules[k]
    try:
        yield
    finally:
        for k in [k for k in sys.modules if k == 'kinisi' or k.startswith('kinisi.')]:
            del sys.modules[k]
        sys.modules.update(mine)


def strategy(tier):
    return _cases()


class World:
    """The input of every object is made once and shared by all that is built from it."""

    def __init__(self, specs):
        self.specs = specs
        self.inputs = []
        for o in specs:
            if o['via'] == 'direct':
                self.inputs.append(stats.data(o['ds']))
            else:
                trs = [gen.build(dict(o['traj'], seed=o['traj']['seed'] + k)) for k in range(o['replicas'])]
                objs = [gen.to_input(t, o['traj']['fmt']) for t in trs]
                n = trs[0].n
                self.inputs.append((objs, dict(o['clock'], specie=None, specie_indices=list(range(max(1, n - 1))),
                                               progress=False), max(1, n - 1) * o['replicas']))
        self.digest = [self.fingerprint(i) for i in range(len(specs))]

    def release(self):
        for o, x in zip(self.specs, self.inputs):
            if o['via'] != 'direct':
                gen.release(x[0], o['traj']['fmt'])

    def fingerprint(self, i):
        o, x = self.specs[i], self.inputs[i]
        if o['via'] == 'direct':
            return [np.array(x[0]).tobytes(), [np.array(d).tobytes() for d in x[1]], np.array(x[2]).tobytes()]
        fmt = o['traj']['fmt']
        out = [repr(sorted(x[1].items(), key=str))]
        for obj in x[0]:
            if fmt == 'ase':
                out.append([(a.get_positions().tobytes(), a.cell[:].tobytes()) for a in obj])
            elif fmt in ('pymatgen', 'xdatcar'):
                ss = obj if fmt == 'pymatgen' else obj.structures
                out.append([(s.frac_coords.tobytes(), s.lattice.matrix.tobytes()) for s in ss])
            elif fmt == 'file':
                out.append(open(obj).read())
            else:
                out.append([(ts.positions.tobytes(), ts.dimensions.tobytes()) for ts in obj.trajectory])
        return out

    def make(self, i):
        o, x = self.specs[i], self.inputs[i]
        boot = {} if o['boot'] is None else {'bootstrap': True, 'n_resamples': 20, 'max_resamples': 130,
                                             'random_state': np.random.RandomState(o['boot'])}
        if o['via'] == 'direct':
            from kinisi.diffusion import MSCDBootstrap, MSDBootstrap, MSTDBootstrap
            kw = dict(boot, dimension=o['ds']['dimension'], progress=False)
            if o['kind'] == 'D':
                return MSDBootstrap(*x, **kw)
            if o['kind'] == 'J':
                return MSTDBootstrap(*x, **kw)
            q = 2 if o['charge'] == 'scalar' else np.arange(1, o['ds']['atoms'] + 1)
            keep = copy.deepcopy(q)
            b = MSCDBootstrap(x[0], x[1], q, x[2], **kw)
            model.same(q, keep, 'charges passed in')
            return b
        objs, params, n = x
        up = dict(boot, progress=False)
        keep = (dict(params), dict(up))
        kw = {}
        if o['kind'] == 'S' and o['charge'] == 'array':
            kw['ionic_charge'] = np.arange(1, n + 1) * 1.0
        if len(objs) > 1:
            kw['dtype'] = 'identical'
        fmt = o['traj']['fmt']
        an = getattr(model.analyzers()[o['kind']], model.METHOD[fmt])(objs if len(objs) > 1 else objs[0], params,
                                                                     uncertainty_params=up, **kw)
        model.require(params == keep[0] and up == keep[1], 'parameter dictionaries passed in were changed')
        return an

    def dict(self, i, b):
        return b.to_dict() if self.specs[i]['via'] == 'direct' else model.diff(b)

    def fit(self, i, b, op):
        d = self.dict(i, b)
        dt = np.asarray(d['dt'])
        start = dt[min(op['start'], dt.size - 3)]
        kw = dict(cond_max=op['cond'], model=op['model'], fit_intercept=op['fit'], n_walkers=op['walkers'], n_samples=op['samples'],
                  n_burn=op['burn'], thin=1, progress=False, random_state=np.random.RandomState(op['seed']))
        keep = dict(kw)
        kind = self.specs[i]['kind']
        if self.specs[i]['via'] == 'direct':
            if kind == 'D':
                b.diffusion(start, **kw)
            elif kind == 'J':
                b.jump_diffusion(start, **kw)
            else:
                b.conductivity(start, op['T'], 1234.5, **kw)
        else:
            if kind == 'D':
                b.diffusion(start, kw)
            elif kind == 'J':
                b.jump_diffusion(start, kw)
            else:
                b.conductivity(start, op['T'], kw)
            model.require(kw == keep, 'parameter dictionary of the fit was changed')
        return results(self.dict(i, b))

    def ppd(self, i, b, seed):
        np.random.seed(seed)
        kw = dict(n_posterior_samples=3, n_predictive_samples=4, progress=False)
        return {'ppd': np.asarray(b.posterior_predictive(**kw) if self.specs[i]['via'] == 'direct' else b.posterior_predictive(kw))}


def results(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, dict):
            out[k] = np.array(v['samples'])
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            for j, x in enumerate(v):
                out[f'{k}[{j}]'] = np.array(x['samples'])
        elif v is None or isinstance(v, (int, float, bool, str, np.generic)):
            out[k] = v
    return out


def equal(a, b, what):
    model.require(set(a) == set(b), f'{what}: different results present: {sorted(set(a) ^ set(b))}')
    for k in a:
        if isinstance(a[k], np.ndarray):
            model.same(b[k], a[k], f'{what}: {k}')
        else:
            model.require(type(a[k]) == type(b[k]) and a[k] == b[k], f'{what}: {k} {a[k]!r} vs {b[k]!r}')


def check(case):
    w = World(case['objs'])
    try:
        live = [w.make(i) for i in range(len(w.specs))]
        usable = [np.asarray(w.dict(i, b)['dt']).size >= 4 and np.all(np.asarray(w.dict(i, b)['v']) > 0) for i, b in enumerate(live)]
        if not all(usable):
            return Info(False, ['too few intervals'])
        first = [results(w.dict(i, b)) for i, b in enumerate(live)]
        fitted = {}
        nfit = 0
        memo = []
        for op in case['ops']:
            if op['op'] == 'junk':
                if op['seed'] is not None:
                    np.random.seed(op['seed'])
                np.random.rand(op['n'])
            elif op['op'] == 'rebuild':
                b = w.make(op['obj'])
                equal(first[op['obj']], results(w.dict(op['obj'], b)), 'the same input analysed again')
            elif op['op'] == 'fit':
                i = op['obj']
                r = w.fit(i, live[i], op)
                np.random.rand(3)
                fresh = w.make(i)
                f = w.fit(i, fresh, op)
                equal(f, r, 'fit on an object used before vs a fresh object')
                for key in ('dt', 'n', 'v', 's', 'ngp', 'n_o', 'n_bootstrap', 'v_bootstrap'):
                    model.same(r[key], first[i][key], f'{key} after a fit')
                g = w.fit(i, fresh, dict(op, seed=op['seed'] + 1))
                model.require(not np.array_equal(g['gradient'], f['gradient']), 'another seed gave the same chain')
                fitted[i] = op
                nfit += 1
                memo.append((op, r))
            elif op['op'] == 'ppd' and op['obj'] in fitted:
                i = op['obj']
                a = w.ppd(i, live[i], op['seed'])
                before = results(w.dict(i, live[i]))
                fresh = w.make(i)
                w.fit(i, fresh, fitted[i])
                equal(w.ppd(i, fresh, op['seed']), a, 'posterior predictive on an object used before vs a fresh object')
                equal(before, results(w.dict(i, live[i])), 'results after the posterior predictive')
        for op, r in memo[:2]:  # and once more at the end
            i = op['obj']
            equal(r, w.fit(i, w.make(i), op), 'the same fit at the end of the history')
        with pristine():
            i = len(live) - 1
            equal(first[i], results(w.dict(i, w.make(i))), 'an analysis after others vs the same analysis in a new process')
        for op, r in memo[-2:]:
            with pristine():
                equal(r, w.fit(op['obj'], w.make(op['obj']), op), 'a fit after other analyses vs the same fit in a new process')
        for i in range(len(w.specs)):
            model.require(w.fingerprint(i) == w.digest[i], 'the input data was changed')
    finally:
        w.release()
    return Info(nfit >= 2, sorted({o['via'] for o in case['objs']}) + sorted({o['kind'] for o in case['objs']}) +
                sorted({op['op'] for op in case['ops']}) + [f'fits={min(nfit, 4)}'])
