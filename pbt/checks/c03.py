"""C03 atom selection."""
from hypothesis import strategies as st

from .. import gen, model
from ..core import Info

ID = 'C03'
RULE = ('Random compositions (including symbols that are prefixes of one another, interleaved orders, sub-sampled atoms) and '
        'random selections: a symbol, an Element object, a list of symbols, a list/tuple of atom numbers in any order, with '
        'default, explicit or empty framework; the result must be, atom by atom and in order, the true displacements of '
        'exactly the selected atoms. Non-trivial: a proper subset of the atoms is selected.')
ASSUMPTIONS = ['no atom moves half a cell length or more between two read frames']
QUICK, THOROUGH = 10000, 100000


@st.composite
def _cases(draw):
    traj = draw(gen.trajs(min_frames=2, min_kept=2, max_frames=8, atoms=(1, 12), max_sub=2, big=0, crowd=40))
    if len(traj['species']) < 13 and draw(st.integers(0, 3)) == 0:
        traj = draw(gen.relabelled(traj))
    return {'traj': traj, 'sel': draw(gen.selections(traj, tuples=True)), 'clock': draw(gen.clocks()), 'kind': draw(st.sampled_from('DJS'))}


def strategy(tier):
    return _cases()


def check(case):
    spec, clock, sel = case['traj'], case['clock'], case['sel']
    fmt, sub = spec['fmt'], spec['sub']
    tr = gen.build(spec)
    mob, fw = gen.mobile_and_framework(sel, tr)
    if not mob:
        # atom sub-sampling can leave nothing to analyse: that must be refused
        params = dict(clock, sub_sample_traj=sub, **gen.selection_params(sel))
        try:
            model.parse(case['kind'], fmt, tr, params)
        except ValueError:
            return Info(False, ['nothing selected'])
        model.require(False, 'a selection of no atoms was accepted')
    params = dict(clock, sub_sample_traj=sub, **gen.selection_params(sel))
    an = model.parse(case['kind'], fmt, tr, params)
    d = model.corrected(model.atom_disp(tr, sub), mob, fw)
    _, disp, _ = model.check_windows(an, d, clock, sub, fmt, 2 * tr.atol(fmt), what='displacements of the selected atoms')
    if 'specie' in sel and 'every' not in sel:
        # metamorphic: naming the atoms by number or by symbol is the same thing
        p2 = dict(params, specie=None, specie_indices=list(mob))
        an2 = model.parse(case['kind'], fmt, tr, p2)
        a, b = model.raw(an)[1], model.raw(an2)[1]
        model.require(len(a) == len(b), 'selection by symbol and by atom number give different numbers of intervals')
        for x, y in zip(a, b):
            model.close(y, x, 'selection by atom number compared with selection by symbol', atol=2 * tr.atol(fmt))
    return Info(len(mob) < tr.n, [fmt, sel['mode'], 'framework:' + sel['framework'], 'crowd' if tr.n > 99 else 'few atoms',
                                  f'every={sel.get("every", 1)}',
                                  'plain symbols' if all(s in gen.SYMBOLS for s in tr.species) else 'ions or types',
                                  'list of one' if isinstance(sel.get('specie'), list) and len(sel['specie']) == 1 else 'other'])
