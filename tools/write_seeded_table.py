"""Rewrites the last section of DESIGN.md from the descriptions of the planted changes."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# changes that the checks missed when they were planted, and what was added for them
MISSED = {
    'vacf-rest': 'particles at rest in P08',
    'alpha2-still-first': 'particles that do not move in P08',
    'overlap-still-first': 'particles that do not move in P08',
    'chi4-still-first': 'particles that do not move in P09',
    'sk-memo': 'particles that do not move in P03',
    'msd-fit-ndim': 'one and four dimensions in the analysis of P18',
    'filter-tag-signs': 'opposite inequalities in P27',
    'api-qst-tmax-func': 'longer trajectories and more shapes of the time grid in P19',
    'ids-first-frame-particle': 'particles stored in another order in each frame in P01, P03, P16',
    'grid-name-strip': 'names of the grids in P27',
    'loadtxt-third': 'stored files with further columns in P14',
    'linear-grid-last': 'grids of hundreds of points in P18',
    'twobody-kwargs-first': 'conditions with keyword arguments in every check',
    'unf-second-kwargs': 'conditions with keyword arguments in every check',
    'weight-filter-kwargs': 'conditions with keyword arguments in every check',
    'msd-rmax-first': 'target displacements in P10',
    'gr-equal-groups': 'two conditions whatsoever, overlapping or equal, in P12',
    'pos-cm-filter-cached': 'two conditions whatsoever, overlapping or equal, in P12',
    'partial-update-half': 'histories of partial correlations in which some files are missing in P14',
    'fskt-int8': 'explicit wave-vectors with large multiples in P05',
    'gr-side-alias': 'open cells in P15',
    'path-unwrapped': 'formats of files in P23',
    'gr-legacy-batch': 'sub-check of large systems in P01',
    'lags-shared': 'block-periodic trajectories in P15',
    'overlap-le': 'ties in P24',
    'partial-ba-filter': 'partial correlations in P16',
    'filter-tag-negation': 'pairs of selections in P27',
    'lag-from-zero': 'different origins of steps in P23',
    'alpha2-small': 'changes of units by large factors in P13',
    'cm-mass-once': 'masses that change from frame to frame in P20',
    'ba-side-once': 'cells that change from frame to frame in P16',
    'msd-cancellation': 'moves that are tiny compared to the cell, with error bounds, in P07',
    'species-prefix': 'species whose labels begin like others in all generators',
    'weight-zero-kept': 'a field of the same name in the trajectory itself in P17',
    'gcf-dt-round': 'times and values in other units in P25',
    'sk-cell-allclose': 'cells that breathe by a small fraction in P03',
    'ba-small-units': 'other units of length and time in the checks of every quantity',
    'ids-per-frame': 'species numbers among the arrays in P28',
    'mtime-whole-seconds': 'modifications within one second in P14',
    'linkedcells-other-index': 'which positions are on the border of the cell in P02',
    'sk-fast-single': 'more wave-vectors than `nk` among those given explicitly in P03 and others',
    'filter-all-frames': 'conditions made of a property name only in P12',
    'ba-cutoff-first-origin': 'strict first minimum in P16',
    'gr-rmax-strict': 'maximum distances equal to a bin centre in P01',
    'write-decimals': 'other units of length and relative comparison of columns in P14',
}
HEAD = '## Sensitivity: planted changes'
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read().split(HEAD)[0] + HEAD + '''

Each change in `seeded/` has a demonstration that passes on the unchanged tree and fails with the change, and passes the
tests of the repository.  All are reported by the quick check of their property (`tools/write_seeded_table.py` writes this
table).  Those marked with a star were missed when they were planted; the last column says what was added for them.
Besides, a sweep of simple mutations (constants, comparisons, deleted statements, swapped indices) over all
source files was used to look for gaps: what survives is equivalent, or log messages and defaults.

| change | property | needs | |
|--------|----------|-------|-|
'''
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    text += '| %s%s | %s | %s | %s |\n' % (name, ' *' if name in MISSED else '', m['property'], m['needs'].replace('|', '/'), MISSED.get(name, ''))
with open(path, 'w') as fh:
    fh.write(text)
