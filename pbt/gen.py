"""Generators (Hypothesis strategies of JSON-able specs) and builders of trajectories with known true motion.

A trajectory spec is a small JSON dict; all array contents come from numpy's Generator seeded with the spec's drawn
'seed', so that a spec is a complete, replayable description of the input.
"""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

SYMBOLS = ['Li', 'O', 'S', 'Si', 'C', 'Cl', 'N', 'Na', 'F', 'P', 'H', 'He', 'I', 'In']
SEED = st.integers(0, 2**31 - 1)
FORMATS = ['ase', 'pymatgen', 'xdatcar', 'file', 'universe']
F64 = ('ase', 'pymatgen', 'xdatcar', 'file')
FS = ('pymatgen', 'xdatcar', 'file')  # time_step in femtoseconds


# ---------------------------------------------------------------------------------------------------------------- cells
@st.composite
def cells(draw, kinds=('ortho', 'tric', 'rot', 'left')):
    kind = draw(st.sampled_from(list(kinds)))
    lens = [draw(st.integers(30, 300)) / 10 for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:
        lens = [lens[0]] * 3
    if draw(st.integers(0, 9)) == 9:  # a long thin or a flat cell
        k = draw(st.integers(0, 2))
        lens[k] = round(lens[k] * draw(st.sampled_from([10, 0.5])), 2)
    ang = [90, 90, 90]
    if kind != 'ortho':
        how = draw(st.sampled_from(['any', 'any', 'one', 'two', 'special']))
        if how == 'special':
            ang = draw(st.sampled_from([[90, 90, 120], [60, 60, 60], [90, 120, 90], [60, 90, 90], [109, 109, 109], [90, 60, 60]]))
        else:
            n = {'one': 1, 'two': 2, 'any': 3}[how]
            for k in draw(st.permutations([0, 1, 2]))[:n]:
                ang[k] = draw(st.integers(65, 115))
        ang = list(ang)
    return {'kind': kind, 'len': lens, 'ang': ang}


def cell_matrix(cell, scale=(1, 1, 1)):
    a, b, c = np.array(cell['len'], float) * np.array(scale, float)
    al, be, ga = np.radians(np.array(cell['ang'], float))
    if cell['ang'] == [90, 90, 90]:
        m = np.diag([a, b, c]).astype(float)
    else:
        bx, by = b * np.cos(ga), b * np.sin(ga)
        cx = c * np.cos(be)
        cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
        cz = np.sqrt(c * c - cx * cx - cy * cy)
        m = np.array([[a, 0, 0], [bx, by, 0], [cx, cy, cz]])
    if cell['kind'] == 'rot':
        q = np.array([[2, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3.0  # a rotation/reflection with no zero entry
        m = m @ q.T
    elif cell['kind'] == 'left':
        m = m[[1, 0, 2]]
    return m


# --------------------------------------------------------------------------------------------------------- trajectories
@st.composite
def species_lists(draw, lo=1, hi=8, kinds=3, contiguous=False):
    n = draw(st.integers(lo, hi))
    size = draw(st.sampled_from([2, 1, 3, 2, 3])) if kinds >= 3 else kinds
    pool = draw(st.lists(st.sampled_from(SYMBOLS), min_size=size, max_size=size, unique=True))
    sp = [draw(st.sampled_from(pool)) for _ in range(n)]
    if contiguous:
        sp = [s for s in pool for _ in range(sp.count(s))]
    return sp


@st.composite
def trajs(draw,
          fmts=FORMATS,
          min_frames=3,
          max_frames=24,
          atoms=(1, 8),
          npt=True,
          max_sub=3,
          big=0,
          drift=True,
          images=('wrapped', 'random', 'unwrapped'),
          kinds=('ortho', 'tric', 'rot', 'left'),
          min_kept=3,
          hard_npt=False,
          huge=0,
          crowd=0,
          crowd_long=False):
    """A trajectory spec plus the reader ('fmt') and the 'sub' (sub_sample_traj) it will be read with.

    About one in `big` has over 100 frames, one in `huge` over 1000 frames, one in `crowd` hundreds of atoms."""
    fmt = draw(st.sampled_from(list(fmts)))
    sub = draw(st.sampled_from([1, 1, 1] + list(range(2, max_sub + 1)))) if max_sub > 1 else 1
    lo = max(min_frames, (min_kept - 1) * sub + 1)
    frames = draw(st.integers(lo, max(max_frames, lo)))
    if big and draw(st.integers(0, big)) == 0:
        frames = draw(st.integers(100, 140)) * sub
    is_huge = bool(huge) and draw(st.integers(0, huge)) == 0
    is_crowd = not is_huge and bool(crowd) and draw(st.integers(0, crowd)) == 0
    if is_huge:
        frames = draw(st.integers(1001, 2200)) * (1 if fmt in ('file', 'xdatcar') else sub)
        atoms = (min(atoms[0], 3), min(atoms[1], 3))
    if is_crowd:
        frames = min(frames, max(lo, 5 * sub + 1))
        if crowd_long and draw(st.integers(0, 2)) == 0:  # much data
            frames = draw(st.integers(40, 60)) * sub
    use_npt = npt and draw(st.integers(0, 3)) == 0
    ck = [k for k in kinds if not (fmt == 'universe' and k in ('rot', 'left'))]
    npt_amp = draw(st.sampled_from([0.01, 0.05, 0.0005] + ([0.15] if hard_npt else []))) if use_npt else 0
    hard = hard_npt and use_npt and draw(st.booleans())
    cap = (0.3 if use_npt and not hard else 0.45) / sub
    step = draw(st.sampled_from([0.01, 0.05, 0.5, 0.9, 0.0005])) * cap
    species = draw(species_lists(atoms[0], atoms[1], contiguous=fmt in ('xdatcar', 'file')))
    if is_crowd:
        m = draw(st.integers(130, 700)) // len(species) + 1
        species = [s for s in species for _ in range(m)] if fmt in ('xdatcar', 'file') else species * m
    spec = {
        'fmt': fmt,
        'sub': sub,
        'frames': frames,
        'species': species,
        'cell': draw(cells(ck)),
        'npt': npt_amp,
        'npt_mode': draw(st.sampled_from(['all', 'iso', 'slow', 'once', 'axis', 'shear', 'volume'])) if use_npt else 'all',
        'still': draw(st.sampled_from([0, 0, 0, 0.3])),
        'step': round(step, 6),
        'drift': round((cap - step) * draw(st.sampled_from([0, 0, 0.5, 1.0])), 6) if drift else 0,
        'motion': draw(st.sampled_from(['uniform', 'gauss', 'hop', 'ballistic'])),
        'image': draw(st.sampled_from(list(images))),
        'pbc': draw(st.sampled_from([True, True, False, [True, False, True]])) if fmt == 'ase' else True,
        'junk': sub > 1 and draw(st.booleans()),
        'seed': draw(SEED),
    }
    return spec


class Traj:
    """true: continuous fractional coordinates [frame, atom, 3]; given: what the reader is shown; latt: [frame, 3, 3]."""

    def __init__(self, true, given, latt, species, spec):
        self.true, self.given, self.latt, self.species, self.spec = true, given, latt, species, spec
        self.frames = true.shape[0]
        self.n = true.shape[1]

    def atol(self, fmt):
        scale = max(1.0, float(np.abs(np.einsum('fai,fij->faj', self.given, self.latt)).max()), float(np.abs(self.latt).max()))
        if fmt == 'universe':
            # single precision: of the coordinates, and of the running sum of the steps
            c = np.einsum('fai,fij->faj', self.true, self.latt)
            run = float(np.abs(c - c[:1]).max(axis=(1, 2)).sum())
            return 6e-7 * scale * (self.frames + 10) + 6e-8 * run
        return 1e-11 * scale * (self.frames + 10)


def increments(rng, shape, motion, step):
    """Fractional increments [frame, ...] bounded by +-step in every component."""
    if motion == 'uniform':
        return rng.uniform(-step, step, shape)
    if motion == 'gauss':
        return np.clip(rng.normal(0, step / 3, shape), -step, step)
    if motion == 'hop':  # mostly still, occasional long hops
        return rng.uniform(-step, step, shape) * (rng.random(shape[:2] + (1,)) < 0.25)
    v = rng.uniform(-step, step, (1,) + tuple(shape[1:]))  # ballistic: constant velocity, crosses cell edges steadily
    return np.repeat(v, shape[0], axis=0)


def lattices(spec, rng):
    f = spec['frames']
    if spec['npt']:
        mode, amp = spec.get('npt_mode', 'all'), spec['npt']
        u = rng.uniform(-1, 1, (f, 3))
        ang = np.zeros((f, 3))
        if mode == 'iso':  # a scalar barostat
            u = np.repeat(u[:, :1], 3, axis=1)
        elif mode == 'slow':  # drifts slowly from one value to another
            u = u[:1] + (u[-1:] - u[:1]) * np.linspace(0, 1, f)[:, None]
        elif mode == 'once':  # changes between two frames only
            u = np.where(np.arange(f)[:, None] < 1 + f // 2, u[:1], u[-1:])
        elif mode == 'axis':  # one axis only
            u = u * np.eye(3)[int(spec['seed']) % 3]
        elif mode == 'volume':  # a change of shape at constant volume
            u[:, 2] = (1 / ((1 + amp * u[:, 0]) * (1 + amp * u[:, 1])) - 1) / amp
        elif mode == 'shear' and spec['cell']['kind'] != 'ortho':  # angles instead of lengths
            ang, u = 60 * amp * u, 0 * u
        return np.array([cell_matrix(dict(spec['cell'], ang=list(np.array(spec['cell']['ang']) + a)), 1 + amp * x) for x, a in zip(u, ang)])
    return np.repeat(cell_matrix(spec['cell'])[None], f, axis=0)


def images(spec, true, rng):
    if spec['image'] == 'unwrapped':
        return true.copy()
    w = true - np.floor(true)
    w[w >= 1.0] = 0.0
    if spec['image'] == 'random':
        w = w + rng.integers(-2, 3, w.shape)
    return w


def off_edges(spec, true):
    """In a fluctuating cell the displacement depends on which side of a cell face an atom lies: keep clear of the faces."""
    if not spec['npt']:
        return true
    near = np.rint(true)
    return np.where(np.abs(true - near) < 1e-4, near + np.where(true < near, -2e-4, 2e-4), true)


def build(spec):
    rng = np.random.default_rng(spec['seed'])
    f, n = spec['frames'], len(spec['species'])
    latt = lattices(spec, rng)
    inc = increments(rng, (f - 1, n, 3), spec['motion'], spec['step'])
    if spec['drift']:
        inc = inc + rng.uniform(-spec['drift'], spec['drift'], (f - 1, 1, 3))
    if spec.get('still'):  # frames in which nothing moves
        inc = inc * (rng.random((f - 1, 1, 1)) >= spec['still'])
    true = np.concatenate([rng.uniform(0.001, 0.999, (1, n, 3)), inc], axis=0).cumsum(axis=0)
    true = off_edges(spec, true)
    given = images(spec, true, rng)
    if spec.get('junk'):  # the frames that are not read may hold anything
        left_out = np.arange(f) % spec['sub'] != 0
        given[left_out] = rng.uniform(0, 1, given[left_out].shape)
        if spec['npt']:
            latt[left_out] = latt[left_out] * 1.3
    return Traj(true, given, latt, list(spec['species']), spec)


# ---------------------------------------------------------------------------------------------------- molecular systems
@st.composite
def mol_trajs(draw, fmts=FORMATS, npt=True, max_frames=16, mols=(1, 4), large=0):
    fmt = draw(st.sampled_from(list(fmts)))
    sub = draw(st.sampled_from([1, 1, 2]))
    frames = draw(st.integers(2 * sub + 1, max_frames))
    use_npt = npt and draw(st.integers(0, 4)) == 0
    n_mol = draw(st.integers(*mols))
    size = draw(st.integers(1, 5))
    if large and draw(st.integers(0, large)) == 0:
        n_mol, size = draw(st.sampled_from([(120, 3), (40, 8), (2, 150), (1, 30), (9, 12)]))
    n_fw = draw(st.integers(0, 3))
    n = n_mol * size + n_fw
    rigid = draw(st.booleans())
    ck = ['ortho', 'tric'] + ([] if fmt == 'universe' else ['rot', 'left'])
    cap = (0.28 if use_npt else 0.42) / sub
    if rigid:
        extent = draw(st.sampled_from([0.02, 0.1, 0.2]))
        step = cap * draw(st.sampled_from([0.05, 0.5, 0.9]))
    else:
        extent = draw(st.sampled_from([0.02, 0.08])) * (0.6 if use_npt else 1) / sub
        step = (cap - 2.2 * extent) * draw(st.sampled_from([0.05, 0.5, 0.9]))
    perm = draw(st.permutations(list(range(n)))) if fmt not in ('xdatcar', 'file') else list(range(n))
    return {
        'fmt': fmt,
        'sub': sub,
        'frames': frames,
        'species': ['C'] * n,
        'cell': draw(cells(ck)),
        'npt': 0.03 if use_npt else 0,
        'n_mol': n_mol,
        'size': size,
        'n_fw': n_fw,
        'rigid': rigid,
        'extent': round(extent, 6),
        'step': round(step, 6),
        'drift': 0,
        'motion': draw(st.sampled_from(['uniform', 'gauss', 'hop', 'ballistic'])),
        'image': draw(st.sampled_from(['wrapped', 'random', 'unwrapped'])),
        'pbc': True,
        'perm': [int(p) for p in perm],
        'seed': draw(SEED),
    }


def build_mol(spec):
    """:return: (Traj, molecules as lists of 1-based atom numbers, framework as 1-based atom numbers)"""
    rng = np.random.default_rng(spec['seed'])
    f, m, s, w = spec['frames'], spec['n_mol'], spec['size'], spec['n_fw']
    latt = lattices(spec, rng)
    ent = m + w
    inc = increments(rng, (f - 1, ent, 3), spec['motion'], spec['step'])
    com = np.concatenate([rng.uniform(0, 1, (1, ent, 3)), inc], axis=0).cumsum(axis=0)
    e = spec['extent']
    if spec['rigid']:
        off = np.repeat(rng.uniform(-e, e, (1, m, s, 3)), f, axis=0)
    else:
        off = rng.uniform(-e, e, (f, m, s, 3))
    atoms = (com[:, :m, None, :] + off).reshape(f, m * s, 3)
    logical = np.concatenate([atoms, com[:, m:]], axis=1)
    perm = np.array(spec['perm'], int)  # perm[k] = file position of logical atom k
    true = np.empty_like(logical)
    true[:, perm] = logical
    true = off_edges(spec, true)
    given = images(spec, true, rng)
    mols = [[int(perm[i * s + j]) + 1 for j in range(s)] for i in range(m)]
    fw = [int(perm[m * s + k]) + 1 for k in range(w)]
    return Traj(true, given, latt, list(spec['species']), spec), mols, fw


# -------------------------------------------------------------------------------------------------------------- readers
def scratch():
    return os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()


_counter = [0]


def xdatcar_text(tr, frames=None):
    out = []
    frames = range(tr.frames) if frames is None else frames
    sp = tr.species
    names = list(dict.fromkeys(sp))
    blocks = [(s, sp.count(s)) for s in names]
    if [s for s, c in blocks for _ in range(c)] != sp:
        raise ValueError('species must be contiguous')
    npt = bool(tr.spec['npt'])
    for k, i in enumerate(frames):
        if k == 0 or npt:
            out.append('generated')
            out.append('1.0')
            for row in tr.latt[i]:
                out.append(' '.join('%.15g' % x for x in row))
            out.append(' '.join(s for s, _ in blocks))
            out.append(' '.join(str(c) for _, c in blocks))
        out.append('Direct configuration= %5d' % (k + 1))
        for x in tr.given[i]:
            out.append(' '.join('%.15f' % v for v in x))
    return '\n'.join(out) + '\n'


def xdatcar_path(tr, frames=None):
    _counter[0] += 1
    path = os.path.join(scratch(), 'XDATCAR_%d' % _counter[0])
    with open(path, 'w') as f:
        f.write(xdatcar_text(tr, frames))
    return path


def to_input(tr, fmt, frames=None):
    """The trajectory (or the given frames of it) as the object the reader `fmt` takes."""
    idx = list(range(tr.frames)) if frames is None else list(frames)
    deco = tr.spec.get('seed', 0) % 3 == 1  # further information about the atoms, of no importance to their motion
    if fmt == 'ase':
        from ase import Atoms
        from ase.constraints import FixAtoms
        extra = dict(tags=np.arange(tr.n) % 3, charges=np.linspace(-1, 2, tr.n), magmoms=np.ones(tr.n), info={'energy': -1.0},
                     constraint=FixAtoms(indices=sorted({0, tr.n - 1})), celldisp=[0.1, 0.2, 0.3]) if deco else {}
        return [Atoms(tr.species, scaled_positions=tr.given[i], cell=tr.latt[i], pbc=tr.spec.get('pbc', True), **extra) for i in idx]
    if fmt == 'pymatgen':
        from pymatgen.core import Lattice, Structure
        if tr.spec['npt']:
            lat = {i: Lattice(tr.latt[i]) for i in idx}
        else:
            same = Lattice(tr.latt[0])
            lat = {i: same for i in idx}
        extra = dict(site_properties={'magmom': [1.0] * tr.n, 'label': [f'X{k}' for k in range(tr.n)]}, charge=1) if deco else {}
        return [Structure(lat[i], tr.species, tr.given[i], **extra) for i in idx]
    if fmt == 'file':
        return xdatcar_path(tr, idx)
    if fmt == 'xdatcar':
        from pymatgen.io.vasp import Xdatcar
        p = xdatcar_path(tr, idx)
        try:
            return Xdatcar(p)
        finally:
            os.remove(p)
    if fmt == 'universe':
        import MDAnalysis as mda
        from MDAnalysis.coordinates.memory import MemoryReader
        if deco:
            u = mda.Universe.empty(tr.n, n_residues=tr.n, trajectory=True, atom_resindex=list(range(tr.n))[::-1])
            u.add_TopologyAttr('name', [f'X{k}' for k in range(tr.n)])
            u.add_TopologyAttr('mass', np.linspace(1, 200, tr.n))
            u.add_TopologyAttr('charge', np.linspace(-1, 2, tr.n))
            u.add_TopologyAttr('resname', ['Li', 'O'] * (tr.n // 2) + ['Na'] * (tr.n % 2))
        else:
            u = mda.Universe.empty(tr.n, trajectory=True, atom_resindex=[0] * tr.n)
        u.add_TopologyAttr('type', list(tr.species))
        pos = np.einsum('fai,fij->faj', tr.given[idx], tr.latt[idx]).astype(np.float32)
        dims = np.array([np.concatenate([np.linalg.norm(tr.latt[i], axis=1), angles(tr.latt[i])]) for i in idx])
        u.load_new(pos, format=MemoryReader, order='fac', dimensions=dims if tr.spec['npt'] else dims[0])
        if tr.spec.get('seed', 0) % 4 == 2:  # read from a file, as most trajectories are
            _counter[0] += 1
            path = os.path.join(scratch(), 'universe_%d.dcd' % _counter[0])
            with mda.Writer(path, n_atoms=tr.n) as w:
                for _ in u.trajectory:
                    w.write(u.atoms)
            u.load_new(path)
        return u
    raise ValueError(fmt)


def angles(m):
    ln = np.linalg.norm(m, axis=1)
    return np.degrees([np.arccos(np.clip(m[i] @ m[j] / ln[i] / ln[j], -1, 1)) for i, j in ((1, 2), (0, 2), (0, 1))])


def release(obj, fmt):
    """Remove the scratch file(s) behind an input."""
    for x in (obj if isinstance(obj, list) else [obj]):
        reader = getattr(x, 'trajectory', None)
        p = x if fmt == 'file' else getattr(reader, 'filename', None)
        if isinstance(p, str) and fmt != 'file':
            reader.close()
        if isinstance(p, str) and os.path.exists(p):
            os.remove(p)


# -------------------------------------------------------------------------------------------------------- time settings
@st.composite
def clocks(draw):
    """time_step as a user may write it (int or float) and step_skip."""
    ts = draw(st.sampled_from([1, 2, 20, 0.1, 0.5, 0.001, 2.0, 0.7, 1.5, 0.03, 2.5e-4, 1.23456789e-5, 1 / 3, 1000]))
    return {'time_step': ts, 'step_skip': draw(st.sampled_from([1, 1, 2, 5, 10, 50]))}


# ------------------------------------------------------------------------------------------------------------ selection
@st.composite
def relabelled(draw, spec):
    """The same trajectory with other kinds of species: ions (pymatgen), or arbitrary atom types (MDAnalysis)."""
    if spec['fmt'] == 'pymatgen':
        names = {s: draw(st.lists(st.sampled_from(['+', '2+', '-', '2-', '']), min_size=1, max_size=2, unique=True)) for s in dict.fromkeys(spec['species'])}
        return dict(spec, species=[s + draw(st.sampled_from(names[s])) for s in spec['species']])
    if spec['fmt'] == 'universe':
        pool = draw(st.permutations(['1', '2', '10', '12', 'OW', 'O', 'HW1', 'HW', 'Li+', 'li', 'Li', 'C A']))
        names = dict(zip(dict.fromkeys(spec['species']), pool))
        return dict(spec, species=[names[s] for s in spec['species']])
    return spec


def base_symbol(s):
    return s.rstrip('+-0123456789')


@st.composite
def selections(draw, spec, framework=('default', 'empty', 'list', 'default', 'list'), min_sel=1, tuples=False):
    """What to analyse in an atomic trajectory and what to correct drift with (all atom numbers zero-based).

    Containers other than lists are left to the checks that are about them: C03 (atom numbers), C02 (framework)."""
    n = len(spec['species'])
    present = list(dict.fromkeys(spec['species']))
    modes = ['specie', 'species', 'indices', 'indices-tuple' if tuples else 'indices']
    if spec['fmt'] in FS:
        modes += ['element']
    mode = draw(st.sampled_from(modes))
    if spec['fmt'] == 'universe' and draw(st.booleans()):
        mode = draw(st.sampled_from(['specie', 'species']))
    sel = {'mode': mode}
    if mode in ('specie', 'element'):
        sel['specie'] = draw(st.sampled_from(present))
    elif mode == 'species':
        k = draw(st.lists(st.sampled_from(present), min_size=1, max_size=len(present), unique=True))
        if draw(st.booleans()):
            k = k + [draw(st.sampled_from([s for s in SYMBOLS if s not in present and s not in map(base_symbol, present)]))]
        if tuples and draw(st.integers(0, 3)) == 0:  # named twice
            k = k + [k[0]]
        sel['specie'] = k
        if tuples and spec['fmt'] in FS and draw(st.integers(0, 2)) == 0:
            sel['mode'] = 'elements'
    else:
        sel['indices'] = draw(st.lists(st.integers(0, n - 1), min_size=min(min_sel, n), max_size=min(n, 20), unique=True))
        if n > 20 and draw(st.booleans()):  # many atoms, in an order that is not sorted
            sel['indices'] = [int(k) for k in np.random.default_rng(spec['seed']).permutation(n)[:draw(st.integers(2, n))]]
        if tuples and mode == 'indices':
            sel['numpy'] = draw(st.integers(0, 3)) == 0  # atom numbers as numpy.where gives them
    fw = draw(st.sampled_from(list(framework)))
    sel['framework'] = fw
    if fw in ('list', 'tuple', 'array'):
        sel['fw'] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 20), unique=True))
    if spec['fmt'] == 'universe' and mode in ('specie', 'species') and fw in ('default', 'empty'):
        sel['every'] = draw(st.sampled_from([1, 2, 3, 2]))
    return sel


def mobile_and_framework(sel, tr):
    """(mobile atoms, framework atoms) as zero-based atom numbers of the trajectory; mobile may be empty."""
    atoms = list(range(tr.n))[::sel.get('every', 1)]
    if 'indices' in sel:
        mob = list(sel['indices'])
    else:
        want = sel['specie'] if isinstance(sel['specie'], list) else [sel['specie']]
        mob = [i for i in atoms if tr.species[i] in want]
    if sel['framework'] == 'default':
        fw = [i for i in atoms if i not in mob]
    else:
        fw = list(sel.get('fw', []))
    return mob, fw


def selection_params(sel):
    p = {'specie': None}
    if sel['mode'] == 'element':
        from pymatgen.core import Element, Species
        p['specie'] = Species.from_str(sel['specie']) if sel['specie'][-1] in '+-' else Element(sel['specie'])
    elif sel['mode'] == 'elements':
        from pymatgen.core import Element, Species
        p['specie'] = [Species.from_str(s) if s[-1] in '+-' else Element(s) for s in sel['specie']]
    elif 'specie' in sel:
        p['specie'] = sel['specie']
    else:
        p['specie_indices'] = tuple(sel['indices']) if sel['mode'] == 'indices-tuple' else list(sel['indices'])
        if sel.get('numpy'):
            p['specie_indices'] = list(np.array(sel['indices']))
    if sel['framework'] == 'empty':
        p['framework_indices'] = []
    elif sel['framework'] == 'list':
        p['framework_indices'] = list(sel['fw'])
    elif sel['framework'] == 'tuple':
        p['framework_indices'] = tuple(sel['fw'])
    elif sel['framework'] == 'array':
        p['framework_indices'] = np.array(sel['fw'])
    if 'every' in sel:
        p['sub_sample_atoms'] = sel['every']
    return p
