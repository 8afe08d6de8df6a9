"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json
import os

P = 'kinisi/parser.py'
D = 'kinisi/diffusion.py'
A = 'kinisi/analyzer.py'
AN = ['kinisi/diffusion_analyzer.py', 'kinisi/jump_diffusion_analyzer.py', 'kinisi/conductivity_analyzer.py']
R = 'kinisi/arrhenius.py'

TESTS = 'The existing tests '
rows = [
    dict(id='C01', title='Displacements are the true unwrapped motion of every atom',
         statement='Whatever the reader, cell shape, orientation and fluctuation, and whichever periodic images the positions are given in, the displacements an analysis works with are the true continuous Cartesian displacements of each atom, provided no atom moves half a cell or more between two read frames. Frames left out by trajectory sub-sampling never change the motion attributed to the frames that are read.',
         over=['inputs', 'configurations'], q='all trajectories (1 to many atoms, orthorhombic, triclinic, rotated and left-handed cells, constant or fluctuating), all image conventions, all readers, all sub-sampling strides',
         why=TESTS + 'compare a few hand-made two-frame arrays and bundled example files, almost all in one cell and already wrapped; crossings in tilted, fluctuating or reoriented cells are not reached.',
         files=[P], mech=[('minimum-image accumulation', 'parser.py Parser.get_disp'), ('frame readers', 'parser.py *.get_structure_coords_latt')],
         observe=['the displacements held by an analyzer (to_dict)', 'mean-squared displacements'],
         tech='property-based testing: generated trajectories with known motion, exact comparison'),
    dict(id='C02', title='Rigid drift of the framework is removed exactly',
         statement='The motion reported for the mobile particles is their displacement relative to the mean displacement of the framework: by default all other particles, or exactly those the user names, or nothing when an empty list is given. Adding any rigid translation of the whole system to every frame leaves every reported displacement unchanged when there is a framework.',
         over=['inputs', 'configurations'], q='all trajectories, drifts, mobile selections and framework choices (default, list, tuple, empty), all readers, atoms and molecules',
         why=TESTS + 'check the drift correction on one small array and one file with the default framework; explicit and empty frameworks, order and readers are unexamined.',
         files=[P], mech=[('subtraction of the framework mean', 'parser.py Parser.correct_drift'), ('framework selection', 'parser.py *.get_indices, _get_framework')],
         observe=['displacements held by an analyzer', 'invariance under added translation'],
         tech='property-based testing: reference model and metamorphic translation'),
    dict(id='C03', title='Exactly the selected atoms are analysed',
         statement='Selecting by symbol, by several symbols, by element object or by explicit atom numbers (list or tuple, any order) analyses exactly those atoms of the trajectory, each once and in the selected order, with every reader; no other atom contributes except through the framework. Selecting every k-th atom of an MDAnalysis universe selects among those atoms only.',
         over=['inputs', 'configurations'], q='all compositions (including symbols that are prefixes of one another, interleaved), all forms of selection, readers and frameworks',
         why=TESTS + 'select one species in one or two structures; overlapping symbols, unordered numbers, tuples and framework combinations are not sampled.',
         files=[P], mech=[('index selection', 'parser.py ASEParser/PymatgenParser/MDAnalysisParser.get_indices')],
         observe=['per-atom displacements held by an analyzer'],
         tech='property-based testing: generated compositions and selections against a reference selection'),
    dict(id='C04', title='Molecules are followed by their true centre of mass',
         statement='When groups of atoms are selected as molecules, the displacements are those of each molecule\'s true centre (mass-weighted when masses are given), wherever the molecule lies relative to the cell boundaries, in whatever order or periodic image its atoms appear, and with any framework choice. The molecule must extend over less than half a cell and its centre must move by less than half a cell between read frames.',
         over=['inputs', 'configurations'], q='all systems of equal-sized molecules, rigid or flexible, masses or none, all frameworks and readers',
         why=TESTS + 'use one or two molecules at fixed places; straddling edges, mass weighting against flexible motion and empty or explicit frameworks are not reached.',
         files=[P], mech=[('centre of mass on the periodic cell', 'parser.py _get_molecules'), ('framework', 'parser.py _get_framework')],
         observe=['displacements held by an analyzer'],
         tech='property-based testing: generated molecular systems with known centres'),
    dict(id='C05', title='Time intervals are those requested, in picoseconds',
         statement='The time intervals of an analysis are strictly increasing whole numbers of read frames, converted exactly to picoseconds from the time step (femtoseconds for pymatgen structures, Xdatcar objects and files, picoseconds for ASE atoms and universes), step skip and sub-sampling, running from the requested minimum to the requested maximum (or the whole trajectory) inclusive, at most the requested number of them, spaced linearly or geometrically as asked. No interval is repeated, and none is lost or shifted by floating-point rounding.',
         over=['inputs', 'configurations'], q='all trajectory lengths, time steps (int or float), step skips, strides, minimum/maximum intervals that are whole numbers of read frames, numbers of intervals and spacings, all readers',
         why=TESTS + 'pin a handful of interval arrays for one length; rounding at particular time steps and limits, small numbers of steps and other strides are not sampled.',
         files=[P], mech=[('interval grid', 'parser.py Parser.get_time_intervals'), ('conversion to ps and to frames', 'parser.py Parser.__init__, *Parser.__init__')],
         observe=['dt of analyzers and parsers'],
         tech='property-based testing: generated settings against an independent grid model'),
    dict(id='C06', title='Every observation window is counted once, with the right weight',
         statement='Under each time interval the observations are exactly the displacements over all windows of that length within the trajectory (only the first such window for single-origin sampling), one per particle and origin, and the number of independent observations reported is particles times trajectory length over interval length (particles only, for single-origin). A job whose displacement data would exceed the memory limit is refused, and no other job is.',
         over=['inputs', 'configurations'], q='all displacement histories, interval choices (including non-contiguous), frameworks, sampling modes and memory limits',
         why=TESTS + 'check shapes for one array; window contents, counts with limited intervals and limits near the threshold are not examined.',
         files=[P], mech=[('windowing', 'parser.py Parser.get_disps')],
         observe=['displacements, observation counts, MemoryError'],
         tech='property-based testing: brute-force window enumeration as reference model'),
    dict(id='C07', title='All trajectory formats give the same analysis',
         statement='The same trajectory with the same parameters (the time step in each format\'s own unit) gives the same intervals (in ps), displacements, observation counts, cell volume, mean-squared displacements and uncertainties whether it is given as ASE atoms, pymatgen structures, an Xdatcar object, an XDATCAR file or an MDAnalysis universe, up to that format\'s coordinate precision. Reading again repeats the result exactly, progress bars have no influence, and the objects passed in are left unmodified.',
         over=['inputs', 'configurations', 'histories'], q='all trajectories and parameter sets accepted by every reader',
         why=TESTS + 'test each reader on its own file; agreement between readers is never tested.',
         files=[P, A] + AN, mech=[('readers', 'parser.py ASEParser, PymatgenParser, MDAnalysisParser'), ('entry points', 'analyzer.py Analyzer._from_*')],
         observe=['results of the five entry points of the three analyzers'],
         tech='property-based differential testing across the five readers'),
    dict(id='C08', title='Combining trajectories: consecutive pieces and identical replicas',
         statement='A trajectory cut at any points and given as consecutive pieces gives exactly the result of the uncut trajectory. Replicas given as identical simulations give, interval by interval, the pooled observations of all replicas as further particles with their counts of independent observations and their cell volumes added (so that densities are unchanged) and the same intervals, in any order and number.',
         over=['inputs', 'histories', 'configurations'], q='all trajectories, cut points, replica numbers and orders, all readers and analyzers',
         why=TESTS + 'join one file with itself; cut points, more than two replicas and unequal motion are not reached.',
         files=[A] + AN, mech=[('flattening of pieces', 'analyzer.py _flatten_list'), ('stacking of replicas', 'analyzer.py Analyzer._stack_trajectories')],
         observe=['displacements, counts, volume and statistics of the analyzer'],
         tech='property-based metamorphic testing: cut/join and pooled replicas'),
    dict(id='C09', title='Mean-squared displacement statistics equal their definitions',
         statement='For every interval the mean-squared displacement is the average over all particles and origins of the squared displacement along the chosen axes, its variance is the unbiased sample variance over the number of independent observations (or the blocking estimate when blocking is on), and the non-Gaussian parameter (zero for Gaussian motion along any number of axes) and displacement distributions follow from the same observations. Choosing axes (in either case) and sub-sampling intervals selects data and nothing else, and the time of the maximal non-Gaussian parameter is reported correctly.',
         over=['inputs', 'configurations'], q='all displacement data sets, axis choices, interval sub-samplings, blocking on or off',
         why=TESTS + 'compare against stored numbers for one random array, mostly in three dimensions and without sub-sampling.',
         files=[D, A, AN[0]], mech=[('MSD estimator', 'diffusion.py MSDBootstrap.__init__'), ('non-Gaussian parameter', 'diffusion.py Bootstrap.ngp_calculation')],
         observe=['n, v, s, ngp, displacement distributions, msd, msd_std, ngp_max'],
         tech='property-based testing: direct evaluation as reference model'),
    dict(id='C10', title='Total and charge displacement statistics equal their definitions',
         statement='The total (charge) mean-squared displacement is the average over origins of the squared norm of the (charge-weighted) sum of all particle displacements along the chosen axes, over the first half of the intervals, with the variance divided by the number of independent origins. It accepts one charge or one per particle of any sign, equals the total displacement for unit charges and the single-particle value for one particle, and scales with the square of the charges.',
         over=['inputs', 'configurations'], q='all displacement data sets, charges, axis choices, interval sub-samplings, blocking on or off',
         why=TESTS + 'use one array and unit charge; per-ion charges, axes and sub-sampling are not covered.',
         files=[D] + AN[1:], mech=[('collective estimators', 'diffusion.py MSTDBootstrap.__init__, MSCDBootstrap.__init__')],
         observe=['n, v, s, dt, n_i, mstd, mscd'],
         tech='property-based testing: direct evaluation and metamorphic charge relations'),
    dict(id='C11', title='Bootstrap resampling draws from the right distribution',
         statement='With resampling on, the observed statistics stay those without resampling, and each interval\'s resampled means are means over the number of independent observations drawn with replacement from exactly that interval\'s observations. Their number obeys the documented initial count, stopping level and limit, their mean and variance are those theory demands, and they depend on the given random state only.',
         over=['inputs', 'configurations', 'histories'], q='all displacement data sets, the three estimators, resampling counts, limits and acceptance levels, random states',
         why=TESTS + 'look at lengths of results for one seed; the distribution resampled from and the stopping rule are not examined.',
         files=[D], mech=[('resampling until normal', 'diffusion.py Bootstrap.sample_until_normal'), ('resampling', 'diffusion.py _bootstrap')],
         observe=['bootstrap distributions in the dictionary form of an estimator'],
         tech='property-based testing with lattice-valued data and theory-based statistical oracles'),
    dict(id='C12', title='The covariance matrix is the random-walk model, well conditioned',
         statement='The covariance matrix of a fit covers exactly the intervals from the start time on, is symmetric positive definite, and its element for two intervals is the variance at the earlier one scaled by the ratio of their numbers of independent observations, the variances being the observed ones or their least-squares random-walk model. Reconditioning raises eigenvalues below the largest divided by the permitted condition number to that value and changes nothing else.',
         over=['inputs', 'configurations'], q='all data sets, start times, variance choices and condition limits; all symmetric matrices for the reconditioning',
         why=TESTS + 'check one small matrix and shapes; data scale, start time and conditioning vary in practice.',
         files=[D], mech=[('covariance', 'diffusion.py Bootstrap.generate_covariance_matrix, _populate_covariance_matrix'), ('reconditioning', 'diffusion.py minimum_eigenvalue_method')],
         observe=['covariance_matrix of estimators'],
         tech='property-based testing: independent construction and eigenvalue oracle'),
    dict(id='C13', title='The fit samples the generalised least-squares posterior',
         statement='The sampled gradient and intercept follow the posterior of the generalised least-squares line through the observed points from the start time on, with their covariance, restricted to non-negative gradients: same means, spreads and correlation; without an intercept the line passes through the origin. Burn-in, thinning, walker and sample counts do what they say, and intervals before the start time have no influence.',
         over=['inputs', 'configurations'], q='all data sets with well-conditioned covariance, start times, three analyses, with or without intercept, all sampler settings',
         why=TESTS + 'check that a distribution exists and its size for one data set; the posterior is never compared with anything.',
         files=[D], mech=[('likelihood and sampling', 'diffusion.py Bootstrap.bootstrap_GLS')],
         observe=['gradient, intercept, flatchain'],
         tech='property-based testing against the closed-form posterior'),
    dict(id='C14', title='Transport coefficients follow from the gradient in the stated units',
         statement='Each reported sample of the self-diffusion coefficient (cm^2/s), jump-diffusion coefficient (cm^2/s) and ionic conductivity (mS/cm) is the corresponding sampled gradient converted exactly for the number of axes, particles, volume and temperature; the volume is that of the simulation cell (in the first frame; of all cells together for identical replicas). Intercept, chain and fitted-line distribution are consistent with those samples, with or without an intercept and however often the fit is repeated.',
         over=['inputs', 'configurations', 'histories'], q='all gradients, axis choices, particle numbers, replicas, charges, volumes, temperatures and cells',
         why=TESTS + 'check one three-dimensional case per coefficient, without an independent unit conversion.',
         files=[D, A] + AN, mech=[('coefficients', 'diffusion.py Bootstrap.diffusion/jump_diffusion/conductivity'), ('accessors', 'analyzers: flatchain, distribution, volume')],
         observe=['D, D_J, sigma, flatchain, distribution, intercept, volume'],
         tech='property-based testing: independent SI conversion of every sample'),
    dict(id='C15', title='Results are reproducible and independent of history',
         statement='An analysis with a given random state gives the same result every time, on fresh objects or on objects used before, whatever was computed earlier in the process and however the global random generator was used. Inputs, parameter dictionaries and arrays handed over are never modified, and a new fit replaces the former one entirely.',
         over=['histories', 'inputs', 'configurations'], q='all sequences of building, fitting, predicting with shared inputs and objects',
         why=TESTS + 'run single operations on fresh objects; sequences and aliasing are not explored.',
         files=[D, A, P] + AN, mech=[('random_state parameters', 'diffusion.py'), ('parameter dictionaries', 'analyzers')],
         observe=['all results after each operation; inputs before and after'],
         tech='stateful property-based testing against fresh twin objects'),
    dict(id='C16', title='Saved analyses come back exactly and can be continued',
         statement='Saving an analysis at any stage and loading it, or converting it to a dictionary and back, any number of times, gives an object with bit-for-bit the same results that can be analysed further with the same outcome as the original. Saving writes where it was told (any directory or name), never overwrites an existing file, and loading leaves the file unchanged.',
         over=['histories', 'configurations', 'inputs'], q='all histories of build, fit, save, load, dictionary round trip and further fits for the three analyzers',
         why=TESTS + 'round-trip single objects once and compare a few arrays; repeated round trips, continued analyses and file names are not sampled.',
         files=[A, D] + AN, mech=[('HDF5 storage', 'analyzer.py save, load, _dict_to_group, _group_to_dict'), ('dictionary form', 'to_dict/from_dict of all classes')],
         observe=['every public result of original and restored objects; the files'],
         tech='stateful property-based testing: round trips against an uninterrupted twin'),
    dict(id='C17', title='Arrhenius fits evaluate and recover the stated model',
         statement='The Arrhenius and super-Arrhenius relations evaluate A exp(-Ea/kB(T-T0)) with Ea in eV and T in K; activation energy, prefactor and T0 are reported under their names and within their own bounds, and the fitted-curve distribution and extrapolation evaluate every posterior sample. Objects are independent of one another and of the bounds passed in, and sampling recovers known parameters within the uncertainty.',
         over=['inputs', 'configurations', 'histories'], q='all temperatures, parameters, data as values with errors or as distributions, bounds, sequences of objects',
         why=TESTS + 'use one data set and default bounds; parameter order, bounds and sequences of objects are not sampled.',
         files=[R], mech=[('relations', 'arrhenius.py')],
         observe=['activation_energy, preexponential_factor, T0, distribution, extrapolate'],
         tech='property-based testing: independent model evaluation and parameter recovery'),
    dict(id='C19', title='Posterior predictive samples come from the fitted model',
         statement='Posterior predictive sampling returns the requested number of samples over exactly the fitted intervals, each drawn from the normal distribution with the covariance matrix of the fit around the line of one jointly drawn posterior sample, all posterior samples being equally likely. It works with and without an intercept, has the documented defaults and leaves the fit unchanged.',
         over=['inputs', 'configurations'], q='all data sets, start times, sample numbers, with or without intercept, estimators and analyzers',
         why=TESTS + 'check the shape for one data set.',
         files=[D, A], mech=[('predictive sampling', 'diffusion.py Bootstrap.posterior_predictive, analyzer.py Analyzer.posterior_predictive')],
         observe=['returned arrays'],
         tech='property-based testing with whitened chi-squared oracle'),
    dict(id='C20', title='Invalid requests are refused, never answered with wrong numbers',
         statement='A request that cannot be met (absent species, no or malformed selection, unequal molecules, wrong number of masses, unknown spacing, sampling, combination mode or axis, consecutive universes, atom sub-sampling with explicit atoms, intervals beyond the trajectory, too little memory, an existing output file) raises an error of the documented kind. The same request without the defect succeeds.',
         over=['inputs', 'configurations'], q='all valid analyses and single defects of these kinds, all readers and analyzers',
         why=TESTS + 'check some of these errors on one input with one reader each.',
         files=[P, A, D] + AN, mech=[('validation', 'parser.py, analyzer.py, diffusion.py raise statements')],
         observe=['exception types'],
         tech='property-based fault injection into valid requests'),
    dict(id='C21', title='The whole analysis respects the symmetries of the physics',
         statement='Through any reader and analyzer, scaling all lengths scales mean-squared displacements by the square and leaves dimensionless results unchanged; scaling time scales only the intervals; translating the system, reordering atoms, renaming axes, rotating the cell, building a supercell, adding unselected atoms outside the framework, sub-sampling instead of thinning the input, and scaling charges all change results exactly as they must. Uncertainties and covariance matrices transform along.',
         over=['inputs', 'configurations'], q='all trajectories and transformations of these kinds, all readers and analyzers',
         why=TESTS + 'contain no relation between two runs.',
         files=[P, D, A] + AN, mech=[('the whole pipeline', 'readers, windowing, estimators')],
         observe=['dt, msd/mstd/mscd and their uncertainties, distributions, covariance matrix'],
         tech='property-based metamorphic testing of the whole pipeline'),
    dict(id='C22', title='Known diffusion coefficients are recovered within their uncertainty',
         statement='For independent Brownian particles of known diffusion coefficient, in any cell, format, number of axes, drift, start time and number of replicas, the estimated coefficients (self-diffusion, jump-diffusion, conductivity) are unbiased, and the reported uncertainty matches the actual scatter of the estimates over independent simulations.',
         over=['inputs', 'configurations'], q='all Brownian systems with enough particles and frames; batches of independent simulations',
         why=TESTS + 'never run a system with a known answer repeatedly.',
         files=[P, D, A] + AN, mech=[('the whole pipeline', 'readers, estimators, generalised least squares, sampling')],
         observe=['D, D_J, sigma'],
         tech='property-based statistical testing: batches of simulations with known answer'),
]

NOTE = ('Exploration by generated inputs with shrinking: holds on every case generated by this run (counts in the evidence), '
        'nothing is proved beyond them. Trusts the reference computation in pbt/, numpy/scipy and the stated assumptions.')


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for r in rows:
            f.write(json.dumps({
                'id': r['id'], 'title': r['title'], 'statement': r['statement'],
                'quantifier': {'over': r['over'], 'text': r['q']}, 'why_tests_cant': r['why'],
                'anchors': {'files': r['files'], 'mechanism': [{'name': a, 'where': b} for a, b in r['mech']],
                            'observe_at': r['observe'], 'hook_needed': None}}) + '\n')
    py = '/opt/venv/bin/python run.py'
    man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --setup',
           'checks': [{'property': r['id'], 'quick_cmd': f'{py} {r["id"]} --tier quick',
                       'thorough_cmd': f'{py} {r["id"]} --tier thorough', 'evidence_file': f'evidence/{r["id"]}.json',
                       'technique': r['tech'], 'level': 'exploration', 'level_note': NOTE} for r in rows],
           'not_applicable': [],
           'notes': 'No hooks in /repo. Known findings and repairs: KNOWN_FINDINGS.md. Replay: run.py ID --replay FILE.'}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
