"""C06 observation sets: every time window is used, exactly once, under its own interval."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info, known

ID = 'C06'
RULE = ('Random displacement histories (1-12 entities, 3-150 frames, random framework) and interval choices, both sampling '
        'modes and all memory limits around the true requirement; the observations listed under each interval must be exactly '
        'the displacements over all windows of that length (or only the first one), with the number of independent '
        'observations N_atoms*N_frames/t (or N_atoms), and a job that needs more than the memory limit must be refused. '
        'Non-trivial: at least two intervals of more than one frame.')
QUICK, THOROUGH = 25000, 400000


@st.composite
def _cases(draw):
    via = draw(st.sampled_from(['parser', 'parser', 'parser', 'reader']))
    case = {'via': via}
    if via == 'reader':
        case['traj'] = draw(gen.trajs(min_frames=2, min_kept=2, max_frames=16, atoms=(2, 5), npt=False, max_sub=3, kinds=('ortho',)))
        n = len(range(0, case['traj']['frames'], case['traj']['sub']))
    else:
        n = draw(st.one_of(st.integers(3, 30), st.integers(31, 150)))
        atoms, scale = draw(st.integers(1, 12)), draw(st.integers(0, 150))
        if scale == 0:  # long
            n, atoms = draw(st.integers(1000, 70000)), 1 + atoms % 2
        elif scale == 1:  # many
            n, atoms = 3 + n % 3, draw(st.integers(250, 70000))
        case.update(n=n, atoms=atoms, fw=draw(st.integers(0, 3)), seed=draw(gen.SEED),
                    interleave=draw(st.booleans()))
    case['clock'] = draw(gen.clocks())
    case['lo'] = draw(st.one_of(st.none(), st.integers(1, n - 1)))
    case['hi'] = draw(st.one_of(st.none(), st.integers(case['lo'] or 1, n)))
    case['n_steps'] = draw(st.one_of(st.none(), st.integers(2, 10), st.integers(2, 200)))
    if n > 999:
        case['n_steps'] = draw(st.integers(2, 8))
    case['spacing'] = draw(st.sampled_from(['linear', 'logarithmic']))
    case['sampling'] = draw(st.sampled_from(['multi-origin', 'single-origin', None]))
    case['limit'] = draw(st.sampled_from([None, None, 0.5, 0.99, 1.01, 3.0]))
    return case


def strategy(tier):
    return _cases()


def check(case):
    clock = case['clock']
    params = dict(clock, spacing=case['spacing'])
    sampling = case['sampling'] or 'multi-origin'
    if case['sampling']:
        params['sampling'] = case['sampling']
    if case['n_steps'] is not None:
        params['n_steps'] = case['n_steps']
    sub = 1
    if case['via'] == 'reader':
        tr = gen.build(case['traj'])
        fmt, sub = case['traj']['fmt'], case['traj']['sub']
        d = model.atom_disp(tr, sub)
        atol = tr.atol(fmt)
    else:
        fmt = 'ase'
        rng = np.random.default_rng(case['seed'])
        tot = case['atoms'] + case['fw']
        full = np.cumsum(rng.normal(0, 1, (tot, case['n'], 3)), axis=1)
        order = rng.permutation(tot) if case['interleave'] else np.arange(tot)
        mob, fw = sorted(int(k) for k in order[:case['atoms']]), sorted(int(k) for k in order[case['atoms']:])
        d = model.corrected(full, mob, fw)
        atol = 1e-10 * case['n']
    n = d.shape[1]
    unit = clock['time_step'] * clock['step_skip'] * sub
    if case['lo'] is not None:
        params['min_dt'] = case['lo'] * unit
    if case['hi'] is not None:
        params['max_dt'] = case['hi'] * unit

    def run(**kw):
        if case['via'] == 'reader':
            an = model.parse('D', fmt, tr, dict(params, specie=None, specie_indices=list(range(tr.n)), framework_indices=[],
                                                sub_sample_traj=sub, **kw))
            return model.raw(an)[:3]
        from kinisi.parser import Parser
        p = Parser(full.copy(), mob, fw, progress=False, **params, **kw)
        return p.delta_t, p.disp_3d, getattr(p, '_n_o', None)  # the counts have no public name on the parser itself

    delta_t, disp, n_o = run()
    ks = model.intervals_of(delta_t, clock, sub, fmt)
    na = d.shape[0]

    def usable(t):  # more than one non-overlapping observation
        return na * (1 if sampling == 'single-origin' else -(-(n - t + 1) // t)) > 1

    expect = [int(t) for t in ks if usable(int(t))]
    model.require(len(disp) == len(expect), f'{len(disp)} observation sets, expected one for each of {expect}')
    n_o = [na if sampling == 'single-origin' else na * n / t for t in expect] if n_o is None else n_o
    model.require(len(n_o) == len(expect), f'{len(n_o)} observation counts, expected one for each of {expect}')
    seen = False
    for t, x, m in zip(expect, disp, n_o):
        seen |= judge(x, d, t, sampling, case['via'], atol)
        model.close(m, na if sampling == 'single-origin' else na * n / t, f'independent observations over {t} frames')
    labels = [case['via'], fmt, sampling, case['spacing']]
    if case['limit'] is not None:
        itemsize = disp[0].itemsize if disp else 8
        need = sum(na * (n - int(t) + 1) * 3 * itemsize for t in ks) * 1e-9
        actual = sum(x.nbytes for x in disp) * 1e-9
        limit = case['limit'] * need
        try:
            run(memory_limit=limit)
            refused = False
        except MemoryError:
            refused = True
        if sampling == 'multi-origin':
            model.require(refused == (case['limit'] < 1), f'memory_limit={limit} GB {"refused" if refused else "accepted"}; '
                          f'the displacements need {need} GB')
        elif actual > limit:
            model.require(refused, f'memory_limit={limit} GB accepted; the displacements occupy {actual} GB')
        elif case['limit'] > 1:
            model.require(not refused, f'memory_limit={limit} GB refused; at most {need} GB are needed')
        labels.append('limit refused' if refused else 'limit accepted')
    nt = sum(1 for t in expect if t > 1) >= 2
    info = Info(nt, labels + ['n>999' if n > 999 else 'n>100' if n > 100 else 'n<=100', 'crowd' if na > 249 else 'few atoms'])
    if seen:
        info.known.append('first-window')
    return info


def judge(x, d, t, sampling, via, atol):
    """The observations over t frames are exactly the windows of that length.

    A Parser is given displacements after 1, 2, ... steps; a reader sees frames, of which the first has no displacement. The
    readers add a copy of the first frame (known finding first-window), so that one further observation, or the only one of
    single-origin sampling, is the displacement over the first t - 1 steps. :return: whether that was seen."""
    what = f'{sampling} observations over {t} frames'
    single = sampling == 'single-origin'
    if via == 'parser':
        p = np.concatenate([np.zeros_like(d[:, :1]), d], axis=1)
    else:
        p = d
    w = (p[:, t:] - p[:, :-t])[:, :1 if single else None]
    short = via != 'parser' and x.ndim == 3 and x.shape[1] >= 1
    if short and known(ID, 'first-window') and (single or x.shape[1] == w.shape[1] + 1):
        short = (d[:, t - 1] - d[:, 0])[:, None]
        model.close(x, short if single else np.concatenate([short, w], axis=1), what, atol=atol)
        return True
    model.require(w.shape[1] > 0, what + ': there is no such window')
    model.close(x, w, what, atol=atol)
    return False

