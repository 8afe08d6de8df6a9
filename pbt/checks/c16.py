"""C16 saving, loading and dictionary round trips."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, model, stats
from ..core import Info
from .c15 import results

ID = 'C16'
RULE = ('Random histories over the three analyzers: build (all readers, axes, sub-sampling, resampling), fit with and without intercept, '
        'save, load, dictionary round trip, save again, continue the analysis on the loaded object, under file names with and without '
        'extension, with dots and directories; an uninterrupted twin object undergoes the same fits and every public result must '
        'agree bit for bit at every step; saving never overwrites an existing file and reads leave files unchanged. '
        'Non-trivial: at least one save and load.')
ASSUMPTIONS = ['the documented naming rule: what follows the last dot of the base name is its extension, which kinisi replaces with hdf']
QUICK, THOROUGH = 2400, 25000

NAMES = ['out', './out', 'out.hdf', 'dir.d/out', 'dir.d/out.hdf', '../up/out', 'dir.d/../out2', 'x_1', 'out.h5', 'run 1', 'd\u00fc\u0394', '.hid', 'a.b.c', 'ABS/out', 'ABS/dir.d/o.hdf5']


@st.composite
def _cases(draw):
    kind = draw(st.sampled_from('DJS'))
    if draw(st.integers(0, 7)) == 0:
        ds = draw(stats.datasets(min_int=8, max_int=12, atoms=(1, 5)))
        return {'kind': kind, 'ds': ds, 'boot': draw(st.booleans()), 'fits': draw(st.integers(0, 2)), 'trips': draw(st.integers(1, 3)),
                'fit': draw(st.booleans()), 'model': draw(st.booleans()), 'seed': draw(st.integers(0, 50))}
    traj = draw(gen.trajs(max_frames=26, min_kept=9, atoms=(2, 4), max_sub=2, npt=True))
    traj['motion'] = 'uniform'
    if draw(st.integers(0, 29)) == 29:  # large arrays
        many = draw(st.sampled_from([12, 12, 110]))
        traj['species'] = [x for x in traj['species'] for _ in range(many)]
        traj['frames'] = 101 * traj['sub']
    ops = []
    early = draw(st.booleans())  # most histories start with a fit
    for i in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['fit', 'reload', 'reload', 'dict', 'fit', 'ppd', 'clash']))
        if i == 0 and early:
            k = 'fit'
        op = {'op': k}
        if k == 'fit':
            op.update(start=draw(st.integers(0, 3)), fit=draw(st.booleans()), model=draw(st.booleans()), seed=draw(st.integers(0, 50)),
                      cond=draw(st.sampled_from([1e16, 1e3])), big=draw(st.integers(0, 11)) == 0, T=draw(st.sampled_from([300.0, 700])))
        elif k == 'reload':
            op.update(name=draw(st.sampled_from(NAMES)), load=draw(st.sampled_from(['same', 'plain', 'ext', 'other'])),
                      again=draw(st.integers(0, 3)) == 0)
        elif k in ('ppd', 'clash'):
            op.update(seed=draw(st.integers(0, 50)))
        ops.append(op)
    return {'kind': kind, 'traj': traj, 'clock': draw(gen.clocks()), 'dimension': draw(st.sampled_from(stats.DIMS)),
            'sub_sample_dt': draw(st.sampled_from([1, 1, 2])), 'boot': draw(st.sampled_from([None, None, 7])),
            'spacing': draw(st.sampled_from(['linear', 'logarithmic'])), 'n_steps': draw(st.sampled_from([100, 100, 12, 100, 100, 12, 100, 2, 1])),
            'charge': draw(st.sampled_from([None, 2, 'array'])), 'ops': ops}


def strategy(tier):
    return _cases()


def snapshot(an, kind, fitted):
    """Every public result."""
    out = {'dt': an.dt, 'volume': an.volume, 'n_dr': len(an.dr)}
    if len(an.dt):
        out['ngp_max'] = an.ngp_max
    if kind == 'D':
        out.update(msd=an.msd, std=an.msd_std)
    elif kind == 'J':
        out.update(mstd=an.mstd, std=an.mstd_std)
    else:
        out.update(mscd=an.mscd, std=an.mscd_std)
    for i, d in enumerate(an.dr):
        out[f'dr{i}'] = np.sort(np.asarray(d.samples))
    if fitted:
        out['coef'] = {'D': lambda: an.D, 'J': lambda: an.D_J, 'S': lambda: an.sigma}[kind]().samples
        out['intercept'] = None if an.intercept is None else an.intercept.samples
        out['flatchain'] = an.flatchain
        out['distribution'] = an.distribution
    d = an.to_dict()
    for k in ('delta_t', 'n_o', 'volume'):
        out['raw ' + k] = d[k]
    for i, x in enumerate(d['disp_3d']):
        out[f'raw disp{i}'] = x
    for k, v in results(d['diff']).items():
        if isinstance(v, np.ndarray):
            out['diff ' + k] = v
        elif isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
            out['diff ' + k] = v
        elif v is None:
            out['diff ' + k] = None
    for i, x in enumerate(d['diff']['displacements']):
        out[f'diff disp{i}'] = x
    return out


def agree(a, b, what):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
                continue
            model.require(x is None and y is None, f'{what}: {k} is {"missing" if y is None else "unexpected"}')
        else:
            model.same(np.asarray(y), np.asarray(x), f'{what}: {k}')


def estimator(case):
    """The estimators themselves go through their dictionary form, too."""
    from kinisi.diffusion import MSCDBootstrap, MSDBootstrap, MSTDBootstrap
    ds, kind = case['ds'], case['kind']
    delta_t, disp, n_o = stats.data(ds)
    cls = {'D': MSDBootstrap, 'J': MSTDBootstrap, 'S': MSCDBootstrap}[kind]

    def make():
        kw = dict(sub_sample_dt=ds['sub_sample_dt'], dimension=ds['dimension'], progress=False)
        if case['boot']:
            kw.update(bootstrap=True, n_resamples=20, max_resamples=120, random_state=np.random.RandomState(case['seed']))
        return cls(delta_t, disp, 2, n_o, **kw) if kind == 'S' else cls(delta_t, disp, n_o, **kw)

    def fit(b, i):
        kw = dict(fit_intercept=case['fit'], model=case['model'], n_walkers=8, n_samples=3, n_burn=1, thin=1, progress=False,
                  random_state=np.random.RandomState(case['seed'] + i))
        start = b.dt[min(i, len(b.dt) - 3)]
        {'D': b.diffusion, 'J': b.jump_diffusion, 'S': lambda s, **k: b.conductivity(s, 300.0, 900.0, **k)}[kind](start, **kw)

    a, twin = make(), make()
    usable = len(twin.dt) >= 3 and np.all(np.asarray(twin.v) > 0)
    for i in range(case['trips']):
        for k in range(case['fits'] if usable else 0):
            fit(a, i + k)
            fit(twin, i + k)
        a = cls.from_dict(a.to_dict())
        model.require(type(a) is cls, f'{cls.__name__}.from_dict made a {type(a).__name__}')
        x, y = results(twin.to_dict()), results(a.to_dict())
        model.require(set(x) == set(y), 'the dictionary has other entries')
        for k in x:
            if isinstance(x[k], (np.ndarray, float, int, np.number)) and not isinstance(x[k], bool):
                model.same(np.asarray(y[k]), np.asarray(x[k]), f'{k} of the estimator after a round trip')
            else:
                model.require((x[k] is None) == (y[k] is None), f'{k} of the estimator after a round trip')
        for k in ('dt', 'n', 's', 'v', 'ngp', 'n_i'):
            model.same(getattr(a, k), getattr(twin, k), f'{k} of the estimator after a round trip')
        for p, q in zip(twin.euclidian_displacements, a.euclidian_displacements):
            model.same(q.samples, p.samples, 'displacement distributions after a round trip')
        model.require(len(a.euclidian_displacements) == len(twin.euclidian_displacements), 'number of displacement distributions')
    if usable:
        fit(a, 5)
        fit(twin, 5)
        model.same(a.flatchain, twin.flatchain, 'chain fitted after a round trip')
        model.same(a.covariance_matrix, twin.covariance_matrix, 'covariance matrix of a fit after a round trip')
    return Info(True, ['estimator', kind, 'fitted' if usable and case['fits'] else 'not fitted'])


def check(case):
    if 'ds' in case:
        return estimator(case)
    kind, spec = case['kind'], case['traj']
    fmt, sub = spec['fmt'], spec['sub']
    tr = gen.build(spec)
    params = dict(case['clock'], specie=None, specie_indices=list(range(max(2, tr.n - 1))), sub_sample_traj=sub, n_steps=case['n_steps'],
                  spacing=case['spacing'])
    up = {'dimension': case['dimension'], 'sub_sample_dt': case['sub_sample_dt']}
    if case['boot'] is not None:
        up.update(bootstrap=True, n_resamples=20, max_resamples=120)
    q = None
    if kind == 'S' and case['charge']:
        q = 2 if case['charge'] == 2 else np.arange(1, max(2, tr.n - 1) + 1)

    def make():
        u = dict(up)
        if case['boot'] is not None:
            u['random_state'] = np.random.RandomState(case['boot'])
        return model.parse(kind, fmt, tr, params, uparams=u, charge=q)

    an, twin = make(), make()
    cls = type(an)
    usable = len(an.dt) >= 3 and np.all(np.asarray(model.diff(an)['v']) > 0)
    root = tempfile.mkdtemp(dir=gen.scratch())
    home = os.path.join(root, 'home')
    for d in ('home', 'home/dir.d', 'up'):
        os.makedirs(os.path.join(root, d))
    cwd = os.getcwd()
    files, names = {}, {}
    fitted, loads, labels = False, 0, {kind, fmt}
    count = 0
    try:
        os.chdir(home)
        for op in case['ops'] + [{'op': 'ppd', 'seed': 3}, {'op': 'fit', 'start': 1, 'fit': True, 'model': True, 'seed': 5, 'cond': 1e16,
                                                            'T': 500}]:  # whatever the history, the analysis can be continued
            labels.add(op['op'])
            if op['op'] == 'fit' and usable:
                for x in (an, twin):
                    kw = dict(cond_max=op['cond'], model=op['model'], fit_intercept=op['fit'], n_walkers=40 if op.get('big') else 8,
                              n_samples=110 if op.get('big') else 3, n_burn=1, thin=1,
                              progress=False, random_state=np.random.RandomState(op['seed']))
                    start = x.dt[min(op['start'], len(x.dt) - 3)]
                    if kind == 'D':
                        x.diffusion(start, kw)
                    elif kind == 'J':
                        x.jump_diffusion(start, kw)
                    else:
                        x.conductivity(start, op['T'], kw)
                fitted = True
            elif op['op'] == 'reload':
                count += 1
                base = op['name']
                base = base.replace('ABS', home)
                stem, ext = os.path.splitext(base)
                stem = f'{stem}{count}'
                again = op.get('again') and files
                if again:  # a file of that name was there before, with another content, and has been deleted
                    gone = sorted(files)[-1]
                    os.remove(gone)
                    del files[gone]
                    stem, ext = gone[:-4], '.hdf'
                before = set(tree(root))
                an.save(stem + ext)
                new = set(tree(root)) - before
                want = os.path.realpath(stem + '.hdf')
                model.require(new == {want}, f'saving as {stem + ext} made {sorted(os.path.relpath(x, root) for x in new)}')
                files[want] = open(want, 'rb').read()
                names[want] = stem + ext
                name = {'same': stem + ext, 'plain': stem if '.' not in os.path.basename(stem).lstrip('.') else stem + ext,
                        'ext': stem + '.hdf', 'other': stem + '.h5'}[op['load']]
                an = cls.load(name)
                model.require(type(an) is cls, f'loaded a {type(an).__name__}')
                loads += 1
            elif op['op'] == 'dict':
                an = cls.from_dict(an.to_dict())
            elif op['op'] == 'clash' and files:
                target = sorted(files)[op['seed'] % len(files)]
                try:
                    an.save(target if op['seed'] % 2 else names[target])
                except ValueError:
                    pass
                else:
                    model.require(False, 'saving over an existing file was not refused')
            elif op['op'] == 'ppd' and fitted:
                pp = []
                for x in (an, twin):
                    np.random.seed(op['seed'])
                    pp.append(x.posterior_predictive({'n_posterior_samples': 2, 'n_predictive_samples': 3, 'progress': False}))
                model.same(pp[0], pp[1], 'posterior predictive of the loaded object')
            agree(snapshot(twin, kind, fitted), snapshot(an, kind, fitted), f'after {op["op"]}')
            for f, content in files.items():
                model.require(os.path.exists(f) and open(f, 'rb').read() == content, 'a saved file was changed')
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return Info(loads >= 1, sorted(labels) + [f'loads={min(loads, 3)}', 'many intervals' if len(model.raw(an)[1]) > 10 else 'few intervals',
                                              'fitted' if fitted else 'not fitted', 'resampled' if case['boot'] is not None else '-'])


def tree(root):
    for d, _, fs in os.walk(root):
        for f in fs:
            yield os.path.realpath(os.path.join(d, f))
