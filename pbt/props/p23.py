"""Ways to supply the trajectory; slices; single frames and particles."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target
from . import p13

STATIC = ['gr', 'gr_legacy', 'gr_fast', 'sk', 'sk_legacy', 'sk_fast', 'ba']
DYN = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy', 'fskt_fast', 'fkt', 's4kt']
SOURCES = ['path', 'open', 'cached', 'ram', 'cached ram', 'generic']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(STATIC + DYN))
    static = kind in STATIC
    case = draw(gen.trajectories(motion='walk', max_n=12, min_n=2 if static else 1, max_frames=10, min_frames=1 if static else 2, lo=20, hi=50,
                                 velocities=True, dims=(3,) if kind in ('sk_fast', 'gr_fast') else (2, 3),
                                 kinds=('even', 'blocks', 'irregular') if static else ('even', 'blocks', 'even')))
    case['par'] = draw(lib.corr_pars(kind, case))
    case['norm'] = case['par'].pop('normalize', None)
    if case['norm'] is not None:
        case['par']['normalize'] = case['norm'] and kind != 'fkt'
    if kind == 'gr' and draw(st.integers(0, 3)) == 0:
        case['par']['rmax'] = round(min(case['side']) * draw(st.sampled_from([0.15, 0.2, 0.3])), 3)
    groups = draw(lib.group_choices(case))
    case['groups'] = groups if lib.KINDS[kind]['bodies'] == 2 else groups[:1]
    case['source'] = draw(st.sampled_from(SOURCES))
    case['partial'] = draw(st.integers(0, 3)) == 0
    case['start'] = draw(st.sampled_from([0, 0, 3, 50]))
    n = len(case['steps'])
    lo = 1 if static else 2
    case['slice'] = None
    if n > lo and draw(st.booleans()):
        bs = ref.block_size(case['steps'])
        if 1 < bs < n:
            # whole blocks
            a = draw(st.integers(0, n // bs - 1)) * bs
            b = draw(st.sampled_from([None] + list(range(a + bs, n + 1, bs))))
            case['slice'] = [a, b, 1]
        else:
            a = draw(st.integers(0, n - lo))
            b = draw(st.sampled_from([None] + list(range(a + lo, n + 1))))
            case['slice'] = [a, b, draw(st.sampled_from([1, 1, 2]))]
    return case


def supply(d, source, folder, name):
    """The trajectory in one of its forms."""
    from atooms.trajectory import Trajectory, TrajectoryXYZ
    if source in ('ram', 'cached ram'):
        th = gen.ram(d)
    else:
        path = gen.xyz(d, os.path.join(folder, name), variables=['species', 'position', 'velocity'])
        if source == 'path':
            return path
        th = Trajectory(path) if source == 'generic' else TrajectoryXYZ(path)
    if source.startswith('cached'):
        th.cache = True
    return th


def subset(d, frames):
    e = gen.Data(d.case)
    e.frames = len(frames)
    e.steps = [d.steps[i] for i in frames]
    e.pos, e.unf, e.vel = d.pos[frames], d.unf[frames], d.vel[frames]
    e.counts, e.sides = [d.n] * len(frames), [d.side] * len(frames)
    return e


def result(case, th):
    par, groups = case['par'], case['groups']
    if case['partial'] and groups:
        from atooms.postprocessing.partial import Partial
        cls, kw = lib.cls_args(par)
        with target('Partial(%s).compute()' % cls.__name__):
            obj = Partial(cls, sorted(set(case['species'])), th, **kw)
            obj.compute()
        return obj.partial[groups[0] if lib.KINDS[par['kind']]['bodies'] == 1 else (groups[0], groups[-1])]
    return lib.run(par, th, groups)


def run(case):
    from atooms.trajectory import Sliced
    d = gen.Data(case)
    par, groups, kind = case['par'], case['groups'], case['par']['kind']
    e = d
    if case['slice']:
        frames = list(range(d.frames))[slice(*case['slice'])]
        e = subset(d, frames)
        # (the block size of a slice is that of the whole trajectory)
        if ref.block_size(e.steps) != ref.block_size(d.steps):
            raise Reject('blocks of a slice')
        if len(frames) < (1 if kind in STATIC else 2):
            raise Reject('no frames')
    # (the origin of time does not matter)
    e.steps = [s + case['start'] - e.steps[0] for s in e.steps]
    if ref.block_size(e.steps) != ref.block_size(d.steps):
        raise Reject('blocks')
    if lib.KINDS[kind]['bodies'] == 2:
        for g in groups or [None]:
            if len(lib.sel_indices(d, g)) < (2 if len(groups) < 2 and kind not in ('fkt', 'sk', 'sk_legacy', 'sk_fast') else 1):
                raise Reject('no pairs')
    if p13.ambiguous(e, dict(par, kind='gr' if kind == 'gr_fast' else kind), groups):
        raise Reject('on a threshold')
    with lib.scratch() as folder:
        if case['slice']:
            th = supply(d, 'open' if case['source'] == 'path' else case['source'], folder, 'whole.xyz')
            th = Sliced(th, slice(*case['slice']))
        else:
            th = supply(d, case['source'], folder, 'data.xyz')
        got = result(case, th)
        os.makedirs(os.path.join(folder, 'sub'))
        same = result(case, supply(e, 'path' if case['source'] != 'path' or case['slice'] else 'ram', os.path.join(folder, 'sub'), 'data.xyz'))
    what = '%s from %s%s' % (kind, case['source'], ' (sliced)' if case['slice'] else '')
    scale = max([abs(x) for x in lib.flat(same.value) if numpy.isfinite(x)] or [0.0])
    ref.same(lib.flat(got.grid), lib.flat(same.grid), what + ' (grid)', 1e-9, 1e-12)
    ref.same(lib.flat(got.value), lib.flat(same.value), what, 1e-8, 1e-9 * (1 + scale) if kind != 'alpha2' else 1e-6)
    return scale > 0 and len(lib.flat(got.value)) > 1, [kind, case['source'], 'sliced' if case['slice'] else 'whole', 'dim%d' % d.dim,
                                                       'partial' if case['partial'] and groups else 'filter' if groups else 'all']


# ---------------------------------------------------------------------- single frames and particles

@st.composite
def single_cases(draw):
    kind = draw(st.sampled_from(STATIC))
    few = draw(st.sampled_from(['frame', 'particle', 'both']))
    case = draw(gen.trajectories(motion='free', max_n=1 if few != 'frame' else 9, max_frames=1 if few != 'particle' else 5, lo=20, hi=50,
                                 dims=(3,) if kind in ('sk_fast', 'gr_fast') else (2, 3)))
    case['par'] = draw(lib.corr_pars(kind, case))
    case['few'] = few
    case['source'] = draw(st.sampled_from(['path', 'ram']))
    return case


def run_single(case):
    d = gen.Data(case)
    par = case['par']
    kind = par['kind']
    with lib.scratch() as folder:
        obj = lib.run(par, supply(d, case['source'], folder, 'data.xyz'))
    grid, value = lib.flat(obj.grid), lib.flat(obj.value)
    check(len(grid) == len(value), '%s: %d values for %d grid points', kind, len(value), len(grid))
    if kind.startswith('sk'):
        check(len(value) == len(par['kgrid']), '%s: %d values', kind, len(value))
        if d.n == 1:
            ref.same(value, numpy.ones(len(value)), '%s of one particle' % kind)
        want = []
        for kl in lib.shared_kvectors(obj):
            want.append(numpy.mean([abs(ref.rho_k(d.pos[i], kv))**2 for kv in kl
                                    for i in range(0, d.frames, ref.skip(d.steps, par['norigins'], d.n))]) / d.n)
        ref.same(value, want, '%s of a single %s' % (kind, case['few']), 1e-8, 1e-9)
    else:
        if d.n == 1:
            check(not any(abs(x) > 1e-12 for x in value), '%s of one particle is %s', kind, value[:10])
    return len(value) > 0 and (d.n > 1 or kind.startswith('sk')), [kind, case['few'], case['source'], 'dim%d' % d.dim]


# ---------------------------------------------------------------------- formats

# (format, suffix of a file recognized without giving the format)
FORMATS = {'xyz': 'xyz', 'exyz': None, 'simplexyz': None, 'rumd': None, 'pdb': 'pdb', 'lammps': 'atom'}
VELOCITIES = ('xyz', 'exyz', 'rumd', 'lammps')


@st.composite
def format_cases(draw):
    case = draw(cases())
    fmts = sorted(FORMATS)
    if case['par']['kind'] == 'vacf':
        fmts = [x for x in fmts if x in VELOCITIES]
    if len(case['side']) == 2:
        fmts = ['xyz'] if case['par']['kind'] == 'vacf' else ['xyz', 'simplexyz']
    case['fmt'] = draw(st.sampled_from(fmts))
    case['named'] = draw(st.booleans()) or FORMATS[case['fmt']] is None
    case['suffix'] = draw(st.sampled_from(['dat', 'xyz', 'out'])) if case['named'] else FORMATS[case['fmt']]
    case['slice'] = None
    return case


def dump_lammps(d, path):
    names = sorted(set(d.species))
    with open(path, 'w') as fh:
        for i, step in enumerate(d.steps):
            fh.write('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS%s\n' % (step, d.n, ' pp' * d.dim))
            for L in d.side:
                fh.write('%.14g %.14g\n' % (-L / 2, L / 2))
            axes = 'xyz'[:d.dim]
            fh.write('ITEM: ATOMS id type %s %s\n' % (' '.join(axes), ' '.join('v' + x for x in axes)))
            for j in range(d.n):
                fh.write('%d %d %s %s\n' % (j + 1, names.index(d.species[j]) + 1, ' '.join('%.14g' % x for x in d.pos[i][j]),
                                            ' '.join('%.14g' % x for x in d.vel[i][j])))


def run_format(case):
    from atooms.postprocessing import core
    from atooms.trajectory import Trajectory
    from atooms.trajectory.ram import TrajectoryRam
    d = gen.Data(case)
    kind, fmt = case['par']['kind'], case['fmt']
    if fmt == 'pdb' and any(len(str(x)) > 1 for x in d.species):
        raise Reject('species names in pdb')
    cls = Trajectory.formats[fmt]
    with lib.scratch() as folder:
        path = os.path.join(folder, 'data.' + case['suffix'])
        if fmt == 'lammps':
            dump_lammps(d, path)
        else:
            with cls(path, 'w') as th:
                if fmt == 'xyz':
                    th.variables = ['species', 'position', 'velocity']
                if fmt != 'pdb':
                    th.precision = 12
                th.timestep = case['dt']
                for system, step in zip(gen.systems(d), d.steps):
                    th.write(system, step)
        # The frames as read by the class, kept in memory
        with cls(path) as th:
            frames = [s for s in th]
            steps, dt = list(th.steps), th.timestep
        if steps != list(d.steps) or len(frames[0].particle) != d.n:
            raise Reject('not what was written')
        mem = TrajectoryRam(mode='w')
        for s, step in zip(frames, steps):
            mem.write(s, step)
        mem.timestep = dt
        # The format may give other names to the species
        names = [p.species for p in frames[0].particle]
        for group in case['groups']:
            if len({y for x, y in zip(d.species, names) if x == group}) != 1:
                raise Reject('names of species')
        other = dict(case, species=names, groups=[names[list(d.species).index(x)] for x in case['groups']])
        if lib.KINDS[kind]['bodies'] == 2:
            for g in case['groups'] or [None]:
                if len(lib.sel_indices(d, g)) < 2:
                    raise Reject('no pairs')
        saved = core.pp_trajectory_format
        core.pp_trajectory_format = fmt if case['named'] else None
        try:
            got = result(other, path)
        finally:
            core.pp_trajectory_format = saved
        same = result(other, mem)
    what = '%s of a %s file' % (kind, fmt)
    scale = max([abs(x) for x in lib.flat(same.value) if numpy.isfinite(x)] or [0.0])
    ref.same(lib.flat(got.grid), lib.flat(same.grid), what + ' (grid)', 1e-12, 1e-14)
    ref.same(lib.flat(got.value), lib.flat(same.value), what, 1e-10, 1e-12 * (1 + scale))
    return scale > 0 and len(lib.flat(got.value)) > 1, [kind, fmt, 'named' if case['named'] else 'suffix', 'dim%d' % d.dim,
                                                       'filter' if case['groups'] else 'all']


PROP = Prop('P23', 'more than one value and one that is not zero; for single frames more than one particle or a structure factor',
            [Sub('sources', cases, run, quick=4500),
             Sub('single', single_cases, run_single, quick=1800),
             Sub('formats', format_cases, run_format, quick=1500),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['files are in xyz format with positions written to 14 digits', 'slices of block-periodic trajectories are whole blocks',
             'cases with a distance, displacement or angle within rounding of a threshold are skipped'])
