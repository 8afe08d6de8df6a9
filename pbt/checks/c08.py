"""C08 combining several trajectories."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C08'
RULE = ('Random trajectories cut at random points and passed as a list with dtype="consecutive" must give what the uncut '
        'trajectory gives; 1-5 random replicas passed with dtype="identical" must give the observations of all replicas pooled '
        'interval by interval as further atoms, with the counts of independent observations and the volumes added and intervals '
        'unchanged, in any order. All readers and analyzers. Non-trivial: at least two pieces or replicas.')
ASSUMPTIONS = ['replicas have the same composition and length']
QUICK, THOROUGH = 6000, 60000


@st.composite
def _cases(draw):
    if draw(st.integers(0, 5)) == 5:
        traj = draw(gen.mol_trajs())
        sel = None
    else:
        traj = draw(gen.trajs(max_frames=14, atoms=(1, 5), max_sub=3, big=0, npt=True))
        sel = draw(gen.selections(traj))
        sel.pop('every', None)
    n = traj['frames']
    case = {'traj': traj, 'sel': sel, 'clock': draw(gen.clocks()), 'kind': draw(st.sampled_from('DJS')),
            'n_steps': draw(st.sampled_from([100, 4])), 'spacing': draw(st.sampled_from(['linear', 'logarithmic'])),
            'sampling': draw(st.sampled_from(['multi-origin', 'multi-origin', 'single-origin']))}
    if traj['fmt'] != 'universe' and draw(st.booleans()):
        case['mode'] = 'consecutive'
        k = min(draw(st.sampled_from([1, 2, 3, 0])), n - 1)
        case['cuts'] = sorted(draw(st.lists(st.integers(1, n - 1), min_size=k, max_size=k, unique=True)))
    else:
        case['mode'] = 'identical'
        k = draw(st.sampled_from([2, 3, 4, 1, 5] * 5 + [9, 12, 17]))
        case['seeds'] = draw(st.lists(gen.SEED, min_size=k, max_size=k, unique=True))
        case['again'] = draw(st.sampled_from([0, 0, 0, 0, 1]))  # the last replica is the first one once more
        case['charges'] = draw(st.sampled_from([None, 'scalar', 'each']))
    return case


def strategy(tier):
    return _cases()


def check(case):
    spec, clock, kind = case['traj'], case['clock'], case['kind']
    fmt, sub = spec['fmt'], spec['sub']
    params = dict(clock, sub_sample_traj=sub, n_steps=case['n_steps'], spacing=case['spacing'])

    def build(s):
        return gen.build(s) if case['sel'] else gen.build_mol(s)[0]

    tr = build(spec)
    if case['sel']:
        params.update(gen.selection_params(case['sel']))
        mob, fw = gen.mobile_and_framework(case['sel'], tr)
        na = len(mob)
    else:
        mols = gen.build_mol(spec)[1]
        params.update(specie=None, specie_indices=[list(m) for m in mols])
        na = len(mols)
    if kind == 'D' and na > 1:
        params['sampling'] = case['sampling']
    labels = [case['mode'], fmt, kind] + ([] if case['sel'] else ['molecules'])
    if case['mode'] == 'consecutive':
        edges = [0] + case['cuts'] + [tr.frames]
        pieces = [gen.to_input(tr, fmt, range(a, b)) for a, b in zip(edges[:-1], edges[1:])]
        whole = gen.to_input(tr, fmt)
        try:
            a = model.analyze(kind, fmt, pieces, params, dtype='consecutive')
            b = model.analyze(kind, fmt, whole, params)
        finally:
            gen.release(pieces, fmt)
            gen.release(whole, fmt)
        compare(a, b, f'{len(pieces)} consecutive pieces vs the whole trajectory')
        return Info(len(pieces) > 1, labels + [f'pieces={len(pieces)}'])
    reps = [build(dict(spec, seed=s)) for s in case['seeds']]
    objs = [gen.to_input(t, fmt) for t in reps]
    if case.get('again') and len(reps) > 1:
        gen.release(objs[-1], fmt)
        reps[-1], objs[-1] = reps[0], objs[0]
    charge = None
    if kind == 'S' and case['charges']:
        charge = 2 if case['charges'] == 'scalar' else np.array([(-1)**k * (1 + k % 3) for k in range(na * len(reps))], float)
    try:
        joint = model.analyze(kind, fmt, objs, params, dtype='identical', charge=charge)
        singles = [model.analyze(kind, fmt, o, params) for o in objs]
        swapped = model.analyze(kind, fmt, objs[::-1], params, dtype='identical',
                                charge=charge if charge is None or np.isscalar(charge) else
                                charge.reshape(len(reps), na)[::-1].ravel())
    finally:
        for o in objs:
            gen.release(o, fmt)
    jt, jd, jn, jv = model.raw(joint)
    parts = [model.raw(s) for s in singles]
    model.close(jt, parts[0][0], 'intervals of the combined trajectories', rtol=1e-12)
    model.require(len(jd) == len(parts[0][1]), 'number of observation sets of the combined trajectories')
    for i, x in enumerate(jd):
        model.close(x, np.concatenate([p[1][i] for p in parts], axis=0), 'pooled observations', rtol=1e-12)
    model.close(jn, np.sum([p[2] for p in parts], axis=0), 'pooled count of independent observations', rtol=1e-12)
    model.close(jv, sum(p[3] for p in parts), 'volume of the stacked replicas', rtol=1e-9)
    d = model.diff(joint)
    ks = model.intervals_of(jt, clock, sub, fmt)
    if kind == 'D':
        expect = np.mean([model.diff(s)['n'] for s in singles], axis=0)
        model.close(d['n'], expect, 'pooled MSD is the mean of the MSDs', rtol=1e-6, atol=1e-12)
        model.close(d['n'], model.diff(swapped)['n'], 'MSD with the replicas in another order', rtol=1e-6, atol=1e-12)
        model.close(d['v'], model.diff(swapped)['v'], 'MSD variance with the replicas in another order', rtol=1e-5, atol=1e-14)
    else:
        # collective motion of everything pooled
        q = np.ones(na * len(reps)) if charge is None else np.ones(na * len(reps)) * charge
        for i in range(len(d['n'])):
            x = np.concatenate([p[1][i] for p in parts], axis=0).astype(float)
            c2 = np.sum(np.einsum('a,aok->ok', q, x)**2, axis=-1)
            model.close(d['n'][i], c2.mean(), 'pooled collective displacement', rtol=1e-5, atol=1e-10)
        model.close(d['n'], model.diff(swapped)['n'], 'collective displacement with the replicas in another order', rtol=1e-4,
                    atol=1e-9)
    labels += [f'replicas={len(reps)}', f'charges={case["charges"]}']
    if not case['sel']:
        return Info(len(reps) > 1, labels)
    # and against the true motion of every replica
    truth = np.concatenate([model.corrected(model.atom_disp(t, sub), mob, fw) for t in reps], axis=0)
    sampling = params.get('sampling', 'multi-origin')
    for t, x in zip(ks, jd):
        model.close(x, model.windows(truth, int(t), sampling), 'pooled observations vs the true motion',
                    atol=2 * max(t2.atol(fmt) for t2 in reps))
    return Info(len(reps) > 1, labels)


def compare(a, b, what):
    ra, rb = model.raw(a), model.raw(b)
    model.close(ra[0], rb[0], what + ': intervals', rtol=1e-12)
    model.require(len(ra[1]) == len(rb[1]), what + ': number of observation sets')
    for x, y in zip(ra[1], rb[1]):
        model.close(x, y, what + ': displacements', rtol=1e-9, atol=1e-10)
    model.close(ra[2], rb[2], what + ': independent observations', rtol=1e-12)
    model.close(ra[3], rb[3], what + ': volume', rtol=1e-12)
    da, db = model.diff(a), model.diff(b)
    for k in ('dt', 'n', 'v', 's', 'ngp'):
        model.close(da[k], db[k], f'{what}: {k}', rtol=1e-7, atol=1e-12)
