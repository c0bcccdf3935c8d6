"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = 'atooms/postprocessing/'
ROWS = []


def prop(pid, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    ROWS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else P + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=None)))


SAMPLE = ('The tests compare a handful of averages against stored reference numbers on the shipped data files '
          '(one system size, one cubic cell, default options), with loose tolerances; ')

prop('P01', 'g(r) is the normalised minimum-image pair histogram',
     'For any trajectory in a periodic orthorhombic cell, fixed or fluctuating, with positions inside the cell, every value reported by the radial '
     'distribution function equals the number of particle pairs whose minimum-image distance falls in that bin, averaged over the time '
     'origins actually used, divided by the ideal-gas count of the bin shell (mean N_a times mean density N_b / V at the same origins times the shell volume '
     'or area, halved for unordered pairs of one group). This holds in two and three dimensions, for the whole system, for a single species and for a pair '
     'of distinct species, with the compiled and with the pure-Python backend, for any bin width, grid starting at half a bin and number'
     ' of time origins, also when the number of particles or the cell changes along the trajectory. The reported distances are the bin centres up to'
     ' half the shortest cell side (or up to the requested maximum distance).',
     ['inputs', 'configurations'],
     'all particle configurations inside the cell, cell aspect ratios, 1 to 3 species, bin widths, origin counts, both backends',
     SAMPLE + 'a wrong bin edge, a minimum-image slip in a non-cubic cell or a normalisation error in 2D or for small N stays within those tolerances.',
     ['gr.py', 'realspace.f90'],
     [('pair histogram kernels', P + 'realspace.f90: gr_self_c, gr_distinct_c'), ('normalisation and cropping', P + 'gr.py: _compute'),
      ('numpy backend', P + 'gr.py: pairs_newton_hist, pairs_hist')],
     ['grid and value of the correlation object'])

prop('P02', 'Linked cells find every neighbour exactly once',
     'For any two- or three-dimensional cell, wide or narrow with respect to the cutoff, periodic along all or some of its axes, and '
     'any set of positions inside the cell (its boundary included), the linked-cell search lists every pair of particles closer than the'
     ' cutoff (minimum image along the periodic axes), lists no pair twice, never pairs a particle with itself, and lists only valid '
     'indices: each unordered pair once in the half (Newton) list, each ordered pair once when two groups are searched or a full list is'
     ' requested. The same search object gives correct lists for any sequence of boxes, positions and kinds of search, and says that a position is on the border of the cell exactly when its subcell is one of the outermost ones. Consequently the '
     'radial distribution function computed with a maximum distance equals the one computed without it at all the distances it reports, also when the cell changes shape along the trajectory.',
     ['inputs', 'configurations'],
     'all particle positions including cell corners and boundaries, cell aspect ratios, cutoffs from a fraction of the side to several sides, one or two groups, list or array output',
     'The only test of linked cells does not run on the installed numpy and looks at one file; a missing neighbour subcell only shows for pairs straddling one particular edge or corner.',
     ['linkedcells.py', 'gr.py', 'realspace.f90'],
     [('subcell map', P + 'linkedcells.py: LinkedCells._map'), ('neighbour collection', P + 'linkedcells.py: LinkedCells.compute'),
      ('neighbour kernels', P + 'realspace.f90: gr_neighbors_self_c, gr_neighbors_distinct_c')],
     ['neighbour lists returned by LinkedCells.compute', 'g(r) with rmax'])

prop('P03', 'S(k) is the density-mode product over the reported wave-vectors',
     'For any trajectory in a fixed periodic cell, the structure factor reported at each grid point equals the average, over the time origins used and over the '
     'wave-vectors the object reports for that point, of Re[rho_a(k) rho_b*(k)] divided by the geometric mean of the average numbers of particles of the two '
     'groups, where rho is the plain sum of exp(i k.r). This holds in two and three dimensions with the default backend and in three dimensions with the compiled one (in any dimension with wave-vectors given by the user), for the whole system, '
     'one species and pairs of species, fluctuating particle numbers included; with a cell that changes along the trajectory it holds with the wave-vectors of each frame (for those given by the user, '
     'the same multiples of the smallest ones), while those of the first frame are reported.',
     ['inputs', 'configurations'],
     'particle configurations, cells, wave-vector grids, numbers of vectors per shell, species, origins, backends',
     SAMPLE + 'an offset in the tabulated exponentials or a wrong normalisation of a partial is invisible for near-isotropic liquids at those tolerances.',
     ['sk.py', 'fourierspace.py', 'fourierspace.f90'],
     [('tabulated exponentials', P + 'fourierspace.py: expo_sphere'), ('accumulation and normalisation', P + 'sk.py: StructureFactorLegacy._compute, StructureFactorFast._compute'),
      ('compiled density modes', P + 'fourierspace.f90: sk_bare')],
     ['grid, value and kvectors of the correlation object'])

prop('P04', 'Wave-vectors are compatible with the cell and fit their shells',
     'After any Fourier-space calculation on a fixed cell, each reported wave-vector is an integer multiple of 2 pi / L along each axis,'
     ' appears once, and is attributed to the first requested wave-number within whose width it lies (a width that is enlarged in steps '
     'of 20% until the shell contains some vector); each shell is non-empty, holds no more than the requested number of vectors, and '
     'holds all available ones when fewer exist. The reported grid value is the mean norm of the vectors in the shell, as the printed '
     'report tells, and the selection is the same for every calculation with the same cell and parameters (all species and repeated '
     'calls). Setting the wave-vectors explicitly makes the calculation use and report exactly those, and the list of wave-numbers given'
     ' by the caller, at construction or later, is left as it was.',
     ['inputs', 'configurations'],
     'cell shapes in 2D and 3D, requested grids (sorted or not, dense or sparse), shell widths, vectors per shell, explicit wave-vector lists',
     'Tests use one cubic cell and two or three grids; off-by-one errors in the integer grid show up only for elongated cells or at the edge of the largest shell.',
     ['fourierspace.py'],
     [('shell search', P + 'fourierspace.py: _setup_grid_sphere'), ('decimation', P + 'fourierspace.py: _setup'), ('explicit vectors', P + 'fourierspace.py: kvectors setter')],
     ['kvectors, kgrid, report()'])

prop('P05', 'F_s(k,t) is the single-particle phase average',
     'For any trajectory in a fixed periodic cell, the self intermediate scattering function at (k,t) equals the average of '
     'cos[k.(r_i(t0+t)-r_i(t0))] over particles, over the wave-vectors reported for k and over the selected time origins (frames spaced '
     'by the origin interval, starting from the first frame from which the lag is available within a block), divided by its value at t=0'
     ' when normalised (which is then exactly 1). The compiled and the pure-Python versions give the same numbers, which do not depend '
     'on the memory allotted to lookup tables nor on whether positions are folded into the cell.',
     ['inputs', 'configurations'],
     'trajectories (2D, 3D, any cell), k grids, time grids, origin counts, particle counts that do or do not split evenly into blocks, lookup sizes',
     SAMPLE + 'particle blocks, block-periodic time grids and non-cubic cells are not exercised together.',
     ['fkt.py', 'fourierspace.py', 'fourierspace.f90'],
     [('particle blocking', P + 'fkt.py: SelfIntermediateScatteringFast._compute'), ('compiled kernels', P + 'fourierspace.f90: fskt_kernel_2d, fskt_kernel_3d')],
     ['grid, value, kvectors'])

prop('P06', 'F(k,t) is the density-mode time correlation',
     'For any trajectory in a fixed periodic cell, the coherent intermediate scattering function at (k,t) equals the average over the '
     'reported wave-vectors and over the selected time origins (frames spaced by the origin interval, starting from the first frame from'
     ' which the lag is available within a block) of Re[rho_a(k,t0+t) rho_b*(k,t0)], divided by its value at t=0 when normalisation is '
     'on. This holds in two and three dimensions (in any dimension with wave-vectors given by the user) for the whole system, one species and pairs of species. Without normalisation the '
     'functions of all ordered pairs of species add up to the total one.',
     ['inputs', 'configurations'],
     'trajectories, cells, species, k and time grids, origin counts, normalisation on and off',
     SAMPLE + 'cross-species terms and several time origins are only compared with stored numbers of the same code.',
     ['fkt.py', 'fourierspace.py'],
     [('density tabulation', P + 'fkt.py: IntermediateScattering._compute')], ['grid, value, kvectors'])

prop('P07', 'MSD follows particles across periodic boundaries',
     'For any trajectory whose particles move less than half a cell side between consecutive frames, the mean square displacement at '
     'each reported time equals the average over particles and over the selected time origins (frames spaced by the origin interval, '
     'starting from the first frame from which the lag is available within a block) of the squared true (unwrapped) displacement. It '
     'does not change if the stored positions are folded back into the cell, and it is zero at zero lag. When the trajectory stores '
     'unwrapped positions, those are used as they are.',
     ['inputs', 'configurations'],
     'particle paths crossing boundaries any number of times, 2D/3D cells of any shape, frame spacings and time steps, origin counts, species',
     'The tests use two smooth reference files; a particle crossing a boundary on a particular frame, an origin or an offset in a block-periodic trajectory is not isolated.',
     ['msd.py', 'correlation.py'],
     [('unfolding of positions', P + 'correlation.py: _setup_arrays_onebody'), ('origin average', P + 'correlation.py: gcf_offset'), ('displacement', P + 'msd.py: _compute')],
     ['grid, value'])

prop('P08', 'Velocity, non-Gaussian and overlap functions match their definitions',
     'For any trajectory, at each reported time the velocity autocorrelation equals the average of v_i(t0+t).v_i(t0), the non-Gaussian '
     'parameter the average over origins of d<dr^4>/((d+2)<dr^2>^2)-1 in d dimensions (0 at zero lag), the self overlap the fraction of '
     'particles whose unwrapped displacement is smaller than the cutoff, and the collective overlap the number of pairs i,j per particle'
     ' with |r_i(t0+t)-r_j(t0)| below the cutoff using the positions as stored. Averages run over all particles of the chosen group and '
     'over the selected time origins (frames spaced by the origin interval, starting from the first frame from which the lag is '
     'available within a block).',
     ['inputs', 'configurations'],
     'trajectories in 2D/3D, cutoffs, time grids (default included), origin counts given as numbers or strings, species',
     'These functions have no value tests beyond running once through the command-line API.',
     ['vacf.py', 'alpha2.py', 'qt.py', 'correlation.py'],
     [('definitions', P + 'vacf.py, alpha2.py, qt.py: _compute'), ('origin average', P + 'correlation.py: gcf_offset')], ['grid, value'])

prop('P09', 'chi_4 is the variance of the self overlap over time origins',
     'For any trajectory, the four-point susceptibility at each time equals (<w^2>-<w>^2)/N where w is the number of particles whose '
     'unwrapped displacement over that lag is below the cutoff and the average runs over the selected time origins; the accompanying '
     'average and second-moment functions equal <w> and <w^2> over these origins. It is therefore never negative, vanishes at zero lag, is the same with the compiled overlap kernel, and matches the generic fluctuation estimate built '
     'from single-origin self overlaps wherever both use the same origins.',
     ['inputs', 'configurations'],
     'trajectories, cutoffs, time grids, origin counts, species subsets',
     'One test checks one number on one file; the compiled variant and short trajectories are never run.',
     ['chi4t.py', 'susceptibility.py', 'realspace.f90'],
     [('variance', P + 'chi4t.py: _compute'), ('compiled overlap', P + 'realspace.f90: self_overlap'), ('generic susceptibility', P + 'susceptibility.py')],
     ['grid, value, average, variance'])

prop('P10', 'Time grids and time origins honour the request',
     'For any trajectory (evenly spaced, block-periodic or irregular steps, any time step), each time reported by a dynamic correlation '
     'is a time difference that really occurs between stored frames, and for each requested time the closest available difference is '
     'present (up to rounding to one step). A negative number of origins uses all of them (one per block for block-periodic '
     'trajectories), a request for n uses one every floor(blocks/n) blocks, a fraction f uses one every floor(1/f) blocks, and 1 uses '
     'the first block only. Integers larger than one given as int, float or string are equivalent, so are fractions given as float or '
     'string, and none of them ever fails. Given a target root mean square displacement and no grid, the mean square displacement uses '
     'the requested number of times, evenly spaced up to the time at which the target is reached, in proportion to the displacement of '
     'the selected particles over the whole trajectory (or to the total time, if it is not reached).',
     ['inputs', 'configurations'],
     'step sequences, time steps, requested grids, origin requests as int, float or string as passed by the command line',
     'Tests pass integers only and look at final averages; the README quick start with a fractional number of origins crashed.',
     ['helpers.py', 'correlation.py', 'msd.py', 'fkt.py'],
     [('origin interval', P + 'helpers.py: adjust_skip'), ('discrete time grid', P + 'helpers.py: setup_t_grid, _templated')], ['skip, grid'])

prop('P11', 'Partial correlations recombine into the total',
     'For any multi-component trajectory, the partial functions of all species or species pairs recombine into the whole-system function: g(r) and S(k) weighted by concentrations, one-body averages (mean square displacement, velocity autocorrelation, self scattering, self overlap) by '
     'composition. The a-b and b-a functions of symmetric two-body quantities are identical.',
     ['inputs', 'configurations'],
     'mixtures of 1 to 3 species of any composition (single-particle species included), integer or string labels, 2D/3D, all correlation classes',
     'Tests compare partials with stored numbers on one binary mixture; no test relates partials to the total.',
     ['partial.py', 'helpers.py', 'gr.py', 'sk.py', 'fkt.py'],
     [('species filters', P + 'partial.py: Partial, helpers.py: filter_species')], ['partial[...] grid and value'])

prop('P12', 'Filtering equals computing on the filtered trajectory',
     'For any condition on particle properties, a filtered one-body function, or a filtered two-body function with two conditions '
     'selecting disjoint groups, equals the function of the trajectory that contains only the selected particles (respectively the '
     'corresponding species pair after relabelling); a two-body function with one condition correlates the selected group with the whole'
     ' system. A filter by species equals the partial of that species; a filter true for all particles changes nothing; more filters '
     'than the function has bodies are refused.',
     ['inputs', 'configurations'],
     'conditions on species, radius, mass or any per-particle property, including groups whose size changes in time, every correlation class',
     'Tests use two species conditions on one file and check one class.',
     ['filter.py', 'correlation.py', 'partial.py'],
     [('condition evaluation', P + 'filter.py: Filter'), ('filtered arrays', P + 'correlation.py: _setup_arrays_onebody, _setup_arrays_twobody')], ['grid and value'])

prop('P13', 'Results respect the symmetries of the system',
     'For any trajectory, no correlation function changes when particles are relabelled consistently, when all positions are shifted by '
     'a common vector and folded back, when periodic images are chosen differently (the collective overlap, which uses positions as '
     'stored, excepted; functions of distances within a frame need positions inside the cell), or (isotropic quantities with complete '
     'shells) when axes are permuted or mirrored. Changing the unit of length or of time rescales the axes and values by the '
     'corresponding power only.',
     ['inputs', 'configurations'],
     'trajectories and every translation, permutation, mirror image and scale factor, all correlation classes except the collective overlap under folding',
     'Tests never transform an input; an off-by-one that favours one axis or one particle index averages out in the reference files.',
     ['gr.py', 'sk.py', 'fkt.py', 'msd.py', 'ba.py', 'qt.py', 'realspace.f90', 'fourierspace.f90'],
     [('minimum image and unfolding', P + 'realspace.f90, ' + P + 'correlation.py')], ['grid and value'])

prop('P14', 'Written results read back and update only when needed',
     'For any sequence of computing, writing, reading, touching or growing the trajectory file and asking for updates, the output file of a one-variable function exists at the path given by the template, has one row per grid point which reads back (also through an update) equal to grid and value to the written precision, '
     'and a two-variable function writes one row per (x,y) pair in order. An update recomputes exactly when the output is missing or not newer than the trajectory and otherwise leaves the file untouched and returns its content; a result for an in-memory trajectory is computed without writing.',
     ['histories', 'inputs'],
     'sequences of do/update/touch/delete/append over correlation classes, output path templates, tags and one-row results',
     'One test performs one update on one class.',
     ['correlation.py', 'partial.py', 'fkt.py'],
     [('output and update logic', P + 'correlation.py: write, read, need_update, do, _output_file')], ['files on disk'])

prop('P15', 'Calculations do not interfere with each other or with their inputs',
     'Computing any correlation function leaves the trajectory, the argument lists and the global random state as they were, and the result is the same whatever other calculations were done before on the same trajectory, whether it is cached or not, whichever other objects exist, and whether it is the first or a repeated call. '
     'It is a deterministic function of trajectory and parameters.',
     ['histories', 'inputs'],
     'sequences of calculations of different classes sharing one cached, uncached or in-memory trajectory and shared argument lists, with recomputation',
     'Each test computes each object once on a fresh trajectory.',
     ['correlation.py', 'fourierspace.py', 'filter.py', 'gr.py', 'ba.py', 'chi4t.py'],
     [('array setup', P + 'correlation.py: _setup_arrays'), ('wave-vector setup', P + 'fourierspace.py: _setup')], ['trajectory content, argument lists, grid, value'])

prop('P16', 'Bond-angle distribution counts all neighbour pairs and is normalised',
     'For any trajectory and cutoffs, the bond-angle distribution equals the histogram of angles between all ordered pairs of distinct '
     'neighbours (particles of the second group closer than the species-pair cutoff under minimum image) around every particle of the '
     'first group and every origin used, divided by total count and bin width, so that it integrates to one. It holds for any number of '
     'neighbours, for partial functions with the first species at the centre, and in 2D and 3D. The default cutoff of a pair of species '
     'is the first minimum of its radial distribution function after the main peak.',
     ['inputs', 'configurations'],
     'configurations from dilute to very dense neighbourhoods, cutoff matrices, bin widths, species, origins',
     'One test checks a peak position on one file; the neighbour buffer has a fixed size the tests never reach.',
     ['ba.py', 'realspace.f90'],
     [('neighbour search', P + 'realspace.f90: neighbors'), ('angle histogram', P + 'realspace.f90: bond_angle'), ('normalisation', P + 'ba.py: _compute')], ['grid and value'])

prop('P17', 'Weighted structure factors use the field of the right particle and frame',
     'For any per-particle field, the weighted structure factor equals <rho_w rho_w*> - <rho_w><rho_w*> over the reported wave-vectors and origins with rho_w the field-weighted density mode, normalised like S(k); with fluctuations requested the frame-averaged mean of the field over the trajectory is subtracted first. The field may come '
     'from the trajectory itself or from another one with the same steps, in which case it is taken from the matching frame and particle; different steps are refused, and with a field equal to one everywhere the result is the unweighted S(k) minus the squared mean mode.',
     ['inputs', 'configurations'],
     'fields (integer or real, constant, zero mean), own or separate weight trajectory, partial functions, fluctuations on and off',
     'Two tests with two files; frame or particle misalignment is invisible when the field is static.',
     ['correlation.py', 'sk.py', 'helpers.py', 'partial.py'],
     [('weights', P + 'correlation.py: add_weight, _setup_weight_onebody, _setup_weight_twobody, helpers.py: copy_field')], ['grid and value'])

prop('P18', 'Derived quantities agree with the curves they summarise',
     'For any data, the crossing finder returns the first crossing of the piecewise-linear curve (or nothing if there is none), the '
     'extremum finder returns the vertex of the parabola through the extreme point and its neighbours (or the end point), the linear fit'
     ' returns the least-squares line and its standard errors, and grids have the documented end points and number of entries. The '
     'relaxation times, diffusion coefficient, diffusive time and peak positions reported by the correlation functions are those values '
     'for the reported curve.',
     ['inputs'],
     'data sequences (monotonic, constant, noisy, exactly linear, short), levels, grid parameters; all classes with an analysis',
     'One example for one helper; exactly linear or constant data and short curves are not covered.',
     ['helpers.py', 'msd.py', 'fkt.py', 'qt.py', 'chi4t.py', 'alpha2.py'],
     [('helpers', P + 'helpers.py: feqc, ifabsmm, linear_fit, linear_grid, logx_grid'), ('analysis', P + 'msd.py, fkt.py, qt.py, chi4t.py, alpha2.py: analyze')], ['analysis'])

prop('P19', 'The API and command line compute the same as the classes, per file',
     'For any set of input files and options, each API function or command writes for each input file the same results as the '
     'corresponding class with these options on the selected frames (first, last, skip), for the total and for every partial the command'
     ' is documented to compute, independently of the other files given. Options given as strings on the command line behave as the '
     'equivalent numbers. Restricting the partials affects which files are written but not their content, and a filter given to any '
     'command (but the spectral density) yields the filtered function and no partials.',
     ['inputs', 'configurations'],
     'commands, one or several files, frame ranges, origin requests, time and wave-number options, single and multi-component systems',
     'API tests only check that the calls return.',
     ['api.py', 'bin/pp.py'],
     [('dispatch', P + 'api.py, bin/pp.py')], ['output files'])

prop('P20', 'Fixing the centre of mass removes any drift',
     'With the centre of mass fixed, adding any time-dependent common displacement to all particles does not change the mean square displacement or the intermediate scattering functions, for the whole system and for each species or pair of species; the result equals the one obtained from positions from which the mass-weighted mean '
     'displacement of the whole system was subtracted. Stored unwrapped positions are handled the same way as reconstructed ones.',
     ['inputs', 'configurations'],
     'trajectories with masses, drifts per frame below half a cell, species subsets, folded or unwrapped storage',
     'No test uses the option.',
     ['correlation.py', 'msd.py', 'fkt.py', 'api.py'],
     [('centre-of-mass removal', P + 'correlation.py: _setup_arrays_onebody, _setup_arrays_twobody')], ['grid and value'])

prop('P21', 'Spectral density uses sphere form factors at the physical wave-vectors',
     'For any three-dimensional trajectory with particle radii (in any other file with matching frames, or the same one), the spectral '
     'density at each grid point equals the average over origins and reported wave-vectors of |sum_i m(k,R_i) exp(i k.r_i)|^2 divided by'
     ' the mean volume, where m(k,R)=4 pi [sin(kR)-kR cos(kR)]/k^3 (its limit 4 pi R^3/3 at k=0). In particular it tends to (4 pi '
     'R^3/3)^2 N/V times S(k) for small equal radii.',
     ['inputs', 'configurations'],
     'configurations, cells, radii, k grids, vectors per shell, origins',
     'The API test never evaluates a number.',
     ['ik.py'], [('spectral density', P + 'ik.py: _compute')], ['grid, value, kvectors'])

prop('P22', 'S_4(k,t) is the variance of the overlap density modes',
     'For any trajectory, the four-point structure factor at (t,k) equals [<|W|^2>-|<W>|^2]/N averaged over the reported wave-vectors, with W(k,t0) the sum of exp(i k.r_j(t0)) over the particles whose unwrapped displacement over t is below the cutoff and the averages running over time origins.',
     ['inputs', 'configurations'], 'trajectories in 2D/3D, cutoffs, times, k grids, origins',
     'There is no test of this class.', ['s4kt.py'], [('overlap modes', P + 's4kt.py: _tabulate_W, _compute')], ['grid, value, kvectors'])

prop('P23', 'Results do not depend on how the trajectory is supplied',
     'For any trajectory, a correlation function gives the same result (to the precision of the file) from a path (in a format recognised by its suffix or set by the user), an open file, a cached file, an in-memory trajectory or a slice, and a slice or subset of frames gives the result of a trajectory holding just those frames. A trajectory with a single frame or a '
     'single particle works for every static function.',
     ['inputs', 'configurations'],
     'trajectories, storage forms, slices (start, stop, step), cell and time-step metadata',
     'Tests use files only, except one or two in-memory systems.',
     ['correlation.py', 'api.py'], [('trajectory handling', P + 'correlation.py: Correlation.__init__, _setup_arrays')], ['grid and value'])

prop('P24', 'Compiled kernels stay within their arrays and agree with Python',
     'For any valid call, the compiled kernels used for distances, neighbours, angles, overlaps and density modes read and write only '
     'inside the arrays passed to them, and give what the defining formula gives. Minimum-image folding, cell indices, surface masks, '
     'neighbour lists (half, full, subset) and histograms in C and Fortran layout agree with a direct computation.',
     ['inputs'], 'kernel arguments: array sizes, positions, boxes, cutoffs, species indices, histogram widths, zero particles or neighbours included',
     'Kernels are only reached through a few classes at typical sizes; an overrun of a buffer corrupts memory silently.',
     ['realspace.f90', 'fourierspace.f90', 'ba.py', 'gr.py'],
     [('kernels', P + 'realspace.f90, ' + P + 'fourierspace.f90')], ['arrays after each call; bounds-checked build'])

prop('P25', 'Generic time-correlation helpers average every pair on the grid',
     'For any series, the generic helpers return for each lag on the grid the average of f(x(t0+t),x(t0)) (for scalar series, of the '
     'product or of the product of deviations from the series mean) over all origins spaced by the given interval for which the later '
     'frame exists, keyed by the true time difference and sorted, for lags with at least one pair; counts returned with it are the '
     'numbers of pairs. The autocorrelation script prints the same numbers for the columns of a file.',
     ['inputs'], 'series of scalars or arrays, grids of lags and offsets, intervals, time axes (even or uneven)',
     'The helpers are only run through the classes, and two of them never.',
     ['correlation.py', 'bin/acf.py'],
     [('helpers', P + 'correlation.py: acf, gcf, gcf_offset')], ['returned lists'])

prop('P26', 'g(r) without periodic boundaries uses no periodic images and no surface centres',
     'For any trajectory of an open (non-periodic) cell, the compiled g(r) counts plain distances between particles, without periodic images; '
     'given a maximum distance, it only centres on particles farther than that distance from every face of the cell, averages and normalises over these, '
     'and reports in the first bin of the g(r) of one group the value of the second. Without a cell it counts all pairs and takes the volume of the box that bounds the '
     'particles. A partly periodic cell is refused; a fully periodic one gives the standard g(r).',
     ['inputs', 'configurations'],
     'cells open or periodic along each axis, absent cells, distances from the surface, bin widths, groups, origins, numbers of particles',
     'One test compares a cubic open system with loose tolerance at one cutoff.',
     ['gr.py', 'realspace.f90'],
     [('open boundaries', P + 'gr.py: RadialDistributionFunctionFast._compute'), ('surface', P + 'realspace.f90: on_surface_c'), ('search', P + 'linkedcells.py')], ['grid and value'])

prop('P27', 'Output files describe their content; each calculation goes to its own file',
     'Whatever is written to a file can be told from the file: its title and column labels name the quantity, its header records the trajectory file and the '
     'selection (whole system, species, pair of species, described filters or weight, for the average and second moment of chi_4 too), comments and analysis are recorded as they are, and '
     'the path derives from a template with quantity and selection. Calculations of different quantities or of different selections never overwrite each other\'s '
     'files under the default template; files of relaxation times hold one line per wave-number with the number of the curve of that wave-number.',
     ['inputs', 'histories'],
     'quantities, selections (partials, described filters, weights, fluctuations), templates, comments, sequences of calculations on one trajectory',
     'Tests check that some files exist, not what their headers say or that files of different calculations differ.',
     ['correlation.py', 'filter.py', 'partial.py', 'helpers.py'],
     [('header', P + 'correlation.py: Correlation.write'), ('path', P + 'correlation.py: Correlation._output_file'), ('tags', P + 'filter.py'), ('tags of partials', P + 'partial.py')], ['files'])

prop('P28', 'Correlations written by the user get the documented arrays',
     'A class derived from Correlation that only lists the variables it needs (positions, unwrapped positions, velocities, species numbers, in any combination, as a string, list or '
     'tuple, on the class or on the object, or all of them by default) and implements the calculation finds in the documented arrays one entry per frame with the '
     'coordinates of the selected particles in their order: folded positions as in the trajectory, unwrapped positions that follow every particle across the '
     'boundary from its position in the first frame (or as stored in the trajectory), velocities as in the trajectory, species numbered in sorted order over the whole system; two sets of them for correlations of two bodies, with and '
     'without filters. With a fixed centre of mass positions are relative to the centre of mass of the whole system. Computing again does not accumulate '
     'frames. The recipes of the documentation (average over frames; average over time origins with the helper for time grids and the origin interval) give the '
     'average from the definition, and such classes work with partial correlations (each ordered pair of its own when declared not symmetric), filters and output files.',
     ['inputs', 'configurations'],
     'subsets of variables, bodies, filters, storage forms, fixed centre of mass, static and dynamic kernels of one and two groups, partials, files',
     'No test derives a class; the shipped classes never ask for more than one kind of position.',
     ['correlation.py', 'partial.py', 'filter.py', 'helpers.py'],
     [('arrays', P + 'correlation.py: _setup_arrays_onebody, _setup_arrays_twobody'), ('partials', P + 'partial.py: Partial.compute'), ('documentation', 'docs/index.org: Writing your own correlation functions')],
     ['_pos, _pos_unf, _vel and their _0, _1 variants', 'grid, value, files'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as fh:
    for row in ROWS:
        fh.write(json.dumps(row) + '\n')
print(len(ROWS))
