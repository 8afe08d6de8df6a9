"""Reference model: what the results must be, computed from the true motion (not from the readers' input)."""
import numpy as np

from .core import Violation
from . import gen

AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}


# ----------------------------------------------------------------------------------------------------------- comparison
def require(cond, msg):
    if not cond:
        raise Violation(msg)


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f'{what}: shape {a.shape} != {b.shape}')
    require(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f'), f'{what}: values differ')


def close(got, want, what, rtol=1e-9, atol=0.0):
    try:
        g, w = np.asarray(got, float), np.asarray(want, float)
    except Exception:
        raise Violation(f'{what}: not a numeric array: {type(got)}')
    require(g.shape == w.shape, f'{what}: shape {g.shape}, expected {w.shape}')
    if g.size == 0:
        return
    require(np.all(np.isfinite(g) | ~np.isfinite(w)), f'{what}: non-finite value')
    err = np.abs(g - w)
    lim = atol + rtol * np.abs(w)
    bad = ~((err <= lim) | (np.isnan(g) & np.isnan(w)))
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, err, -1)), g.shape) if g.shape else ()
        raise Violation(f'{what}: at {tuple(int(k) for k in i)} got {g[i]!r}, expected {w[i]!r}')


# -------------------------------------------------------------------------------------------------------------- motion
def tor(frac, latt):
    """Displacements from frame 0, summing nearest-image displacements, each taken in the later frame's cell."""
    out = np.zeros_like(frac)
    for k in range(1, frac.shape[0]):
        d = frac[k] @ latt[k] - frac[k - 1] @ latt[k - 1]
        out[k] = out[k - 1] + d - np.floor(d @ np.linalg.inv(latt[k]) + 0.5) @ latt[k]
    return out


def tie(frac, latt):
    """How close any step comes to the point where two periodic images are equally near (in units of the cell)."""
    c = np.einsum('fai,fij->faj', frac - np.floor(frac), latt)
    d = np.einsum('fai,fij->faj', np.diff(c, axis=0), np.linalg.inv(latt[1:]))
    return float(np.abs(np.abs(d - np.floor(d + 0.5)) - 0.5).min())


def displacements(true, latt, npt):
    """True displacements from the first frame, [entity, frame, 3]; `true` are continuous fractional coordinates."""
    if npt:
        return tor(true - np.floor(true), latt).transpose(1, 0, 2)
    return np.einsum('fai,ij->afj', true - true[:1], latt[0])


def atom_disp(tr, sub=1):
    return displacements(tr.true[::sub], tr.latt[::sub], bool(tr.spec['npt']))


def windows(d, t, sampling='multi-origin'):
    """All displacement observations over t frames from d = [entity, frame, 3].

    The first frame is taken to be preceded by one copy of itself (the trajectory starts at rest)."""
    p = np.concatenate([d[:, :1], d], axis=1)
    if sampling == 'single-origin':
        return p[:, t:t + 1] - p[:, :1]
    return p[:, t:] - p[:, :-t]


def intervals_of(delta_t, clock, sub, fmt):
    """Frames per interval, from reported times in ps."""
    unit = clock['time_step'] * clock['step_skip'] * sub * (1e-3 if fmt in gen.FS else 1.0)
    r = np.asarray(delta_t, float) / unit
    k = np.rint(r).astype(int)
    require(np.all(np.abs(r - k) < 1e-6 * np.maximum(1, k)), f'time intervals {delta_t} are not whole numbers of frames of {unit} ps')
    return k


# ------------------------------------------------------------------------------------------------------------- calling
def analyzers():
    from kinisi.analyze import ConductivityAnalyzer, DiffusionAnalyzer, JumpDiffusionAnalyzer
    return {'D': DiffusionAnalyzer, 'J': JumpDiffusionAnalyzer, 'S': ConductivityAnalyzer}


METHOD = {'ase': 'from_ase', 'pymatgen': 'from_pymatgen', 'xdatcar': 'from_Xdatcar', 'file': 'from_file',
          'universe': 'from_universe'}
PARSER = {'ase': 'ASEParser', 'pymatgen': 'PymatgenParser', 'universe': 'MDAnalysisParser'}


def analyze(kind, fmt, obj, params, dtype=None, uparams=None, charge=None):
    params = dict(params)
    params.setdefault('progress', False)
    kw = {} if charge is None else {'ionic_charge': charge}
    if dtype is not None:
        kw['dtype'] = dtype
    if uparams is not None:  # without uparams: all defaults (progress bars included)
        kw['uncertainty_params'] = {'progress': False, **uparams}
    return getattr(analyzers()[kind], METHOD[fmt])(obj, params, **kw)


def raw(an):
    """The parsed data behind an analyzer, via its dictionary form."""
    d = an.to_dict()
    return d['delta_t'], d['disp_3d'], d['n_o'], d['volume']


def parse(kind, fmt, tr, params, uparams=None, charge=None, via='analyzer'):
    obj = gen.to_input(tr, fmt)
    try:
        return analyze(kind, fmt, obj, params, uparams=uparams, charge=charge)
    finally:
        gen.release(obj, fmt)


def check_windows(an, d, clock, sub, fmt, atol, sampling='multi-origin', what='displacements'):
    """Every observation set of the analyzer equals the true one for the entities' true displacements d."""
    delta_t, disp, n_o, _ = raw(an)
    ks = intervals_of(delta_t, clock, sub, fmt)
    require(len(disp) <= len(ks), f'{what}: more displacement arrays than intervals')
    require(len(disp) >= 1, f'{what}: no displacements')
    for i, (t, got) in enumerate(zip(ks, disp)):
        close(got, windows(d, int(t), sampling), f'{what} over {t} frames', rtol=1e-9, atol=atol)
    return ks, disp, n_o


def corrected(d, mob, fw):
    """True displacements of the mobile entities relative to the mean displacement of the framework."""
    out = d[mob]
    if len(fw):
        out = out - np.mean(d[fw], axis=0)[None]
    return out


def diff(an):
    """The observed statistics behind an analyzer, via its dictionary form."""
    return an.to_dict()['diff']
