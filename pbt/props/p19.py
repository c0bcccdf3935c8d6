"""API functions and command line against the classes, file by file."""
import inspect
import os
import sys

import numpy
from hypothesis import strategies as st

from .. import env, gen, lib, ref
from ..core import Prop, Sub, Reject, check, target
from . import p13
from .p14 import expected_rows, rows_of

COMMANDS = ['gr', 'sk', 'msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'ba', 'ik']
TWO = ['gr', 'sk', 'fkt', 'ba']
TIME = ['msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt']
FUNC = {'msd': 'linear', 'vacf': 'linear'}
TMAX_FRACTION = {'vacf': 0.10}
TSAMPLES = {'msd': 30, 'vacf': 30}
FLAGS = ['grandcanonical', 'fix_cm', 'no_offset', 'total', 'weight_fluctuations']


@st.composite
def data(draw, command):
    two = command in TWO
    most = draw(st.sampled_from([9, 9, 24])) if command in TIME and command not in ('fkt', 'fskt') else 9
    return draw(gen.trajectories(motion='walk', max_n=14 if two else 8, min_n=9 if two else 1, min_frames=1 if two else 2, max_frames=most, lo=20, hi=40, velocities=True,
                                 masses=False, radii=True, max_species=2, dims=(3,) if command == 'ik' else (2, 3),
                                 timesteps=[1.0, 0.5, 0.1, 0.002]))


@st.composite
def cases(draw, cli):
    command = draw(st.sampled_from(COMMANDS))
    files = [draw(data(command)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    one = files[0]
    few = min(len(f['steps']) for f in files)
    maybe = lambda x: draw(st.integers(0, 2)) > 0 and x
    opts, glob = {}, {}
    side = max(one['side'])
    k0 = 2 * numpy.pi / side
    total = max(0.01, (one['steps'][-1] - one['steps'][0]) * one['dt'])
    if command == 'gr':
        if maybe(True):
            opts['dr'] = draw(st.sampled_from([0.1, 0.25, 0.3]))
        if draw(st.integers(0, 3)) == 0:
            opts['rmax'] = draw(st.sampled_from([0.5, 0.9]))
        opts['grandcanonical'] = draw(st.booleans())
    if command in ('sk', 'ik', 'fkt', 'fskt'):
        style = draw(st.sampled_from(['kgrid', 'range', 'range']))
        if style == 'kgrid':
            ks = draw(st.lists(st.integers(8, 30), min_size=1, max_size=3, unique=True))
            opts['kgrid'] = ','.join('%.5f' % (k0 * k / 10) for k in sorted(ks))
        else:
            opts['kmin'] = -1.0 if command in ('sk', 'ik') and draw(st.booleans()) else round(k0 * 1.1, 4)
            opts['kmax'] = round(k0 * 2.7, 4)
            opts['ksamples'] = draw(st.integers(1, 4))
        opts['nk'] = draw(st.integers(1, 6))
        opts['dk'] = round(k0 * draw(st.sampled_from([0.2, 0.5])), 4)
    elsewhere = False
    if command == 'sk' and draw(st.integers(0, 2)) == 0:
        opts['weight'] = 'radius'
        opts['weight_fluctuations'] = draw(st.booleans())
        elsewhere = draw(st.booleans())     # the weights are in another file
    if command in TIME:
        style = draw(st.sampled_from(['default', 'tmax', 'fraction', 'default', 'tmax', 'fraction', 'class']))
        if style == 'class':
            # the default grid of the class
            opts.update(tmax=draw(st.sampled_from([-1.0, 0.0])), tmax_fraction=draw(st.sampled_from([-1.0, 0.0])))
        elif style == 'tmax':
            opts['tmax'] = round(total * draw(st.sampled_from([0.3, 0.61, 0.97, 1.7])), 6)
        elif style == 'fraction':
            opts['tmax_fraction'] = draw(st.sampled_from([0.31, 0.5, 0.97]))
        if maybe(True):
            opts['tsamples'] = draw(st.integers(2, 12))
        if draw(st.booleans()):
            opts['func'] = draw(st.sampled_from(['linear', 'logx', 'linear_grid', 'logx_grid']))
    if command in ('fkt', 'fskt', 'chi4qs'):
        opts['total'] = draw(st.booleans())
    if command in ('fkt', 'fskt', 'msd'):
        opts['fix_cm'] = draw(st.sampled_from([False, False, True]))
    if command == 'msd':
        opts['sigma'] = draw(st.sampled_from([1.0, 0.5]))
        opts['no_offset'] = draw(st.sampled_from([False, False, True]))
        if draw(st.booleans()):
            # (it matters with the default grid of the class)
            opts['rmsd_max'] = draw(st.sampled_from([0.3, 1.0, 2.5]))
    if command == 'chi4qs' and maybe(True):
        opts['a'] = draw(lib.cutoffs(one))
    if command == 'ba' and maybe(True):
        opts['dtheta'] = draw(st.sampled_from([10.0, 20.0, 7.0]))
    if command == 'fskt' and draw(st.integers(0, 3)) == 0:
        opts['lookup_mb'] = 0.001
    # global options
    if maybe(True):
        glob['norigins'] = draw(gen.norigins)
        if glob['norigins'] is None:
            del glob['norigins']
    if draw(st.booleans()):
        glob['first'] = draw(st.sampled_from([0.0, 1.0, 2.0, 0.2, 0.3][:5 if few > 5 else 2 if few > 3 else 1]))
    if draw(st.booleans()):
        glob['last'] = draw(st.sampled_from([float(few), 100.0, 0.9, -1.0, 5.0, 0.6, 4.0][:7 if few > 6 else 4 if few > 4 else 2]))
    if draw(st.integers(0, 2)) == 0:
        glob['skip'] = draw(st.sampled_from([1, 2, 3])) if all(ref.block_size(f['steps']) == 1 for f in files) else 1
    for key, rate in (('legacy', 3), ('fast', 3), ('no_cache', 2), ('no_partial', 4), ('center', 4), ('update', 5)):
        if draw(st.integers(0, rate)) == 0:
            glob[key] = True
    if draw(st.integers(0, 3)) == 0 and command != 'ik':
        conditions = ['radius > 0.3', 'species == "%s"' % one['species'][0]]
        if command in TWO:
            conditions += ['radius > 0.3,radius <= 0.3', 'species=="%s",species!="%s"' % (one['species'][0], one['species'][0])]
        glob['filter'] = draw(st.sampled_from(conditions))
    if draw(st.integers(0, 5)) == 0:
        glob['species_layout'] = draw(st.sampled_from(['A', 'F', 'C']))
        for f in files:
            old = sorted(set(f['species']))
            new = draw(st.sampled_from([['A', 'B'], ['1', '2'], ['0', '1']]))
            if all(x in f['species'] for x in old):
                f['species'] = [new[old.index(x)] for x in f['species']]
        glob.pop('filter', None)
    if command == 'fkt':
        glob.pop('center', None)
    if draw(st.integers(0, 3)) == 0:
        glob['fmt'] = 'xyz'
    case = {'command': command, 'files': files, 'opts': opts, 'globals': glob}
    if elsewhere:
        for key in ('first', 'last', 'skip'):
            glob.pop(key, None)
        del files[1:]
    if elsewhere or command == 'ik' and len(files) == 1 and draw(st.integers(0, 2)) == 0:
        # the radii are in another file
        case['other'] = [draw(st.integers(5, 80)) / 100. for _ in range(one['n'])]
    if cli:
        case['output'] = draw(st.sampled_from([None, '{trajectory.filename}.x.{symbol}.{tag}', '{trajectory.filename}-out/{tag}-{symbol}']))
        case['loud'] = draw(st.sampled_from([None, '--quiet', '--verbose', '--debug']))
        for f in files:
            for key in ('pos', 'disp', 'vel'):
                f[key] = f.get(key, '')
    return case


# ---------------------------------------------------------------------- what to expect

def selected(d, glob):
    """Frames selected by first, last, skip; whole blocks for block-periodic trajectories."""
    n = d.frames
    bs = ref.block_size(d.steps)

    def index(x):
        if x is None:
            return None
        return int(x * n) if 0 < x < 1 else int(x)
    first, last, skip = index(glob.get('first')), index(glob.get('last')), glob.get('skip')
    if bs > 1:
        if skip not in (None, 1):
            raise Reject('skipping frames inside blocks')
        first = None if first is None else (first // bs) * bs
        last = None if last is None else (last // bs) * bs
    return list(range(n))[slice(first, last, skip)], bs


def subset(d, frames):
    e = gen.Data(d.case)
    e.frames = len(frames)
    e.steps = [d.steps[i] for i in frames]
    e.pos, e.unf, e.vel = d.pos[frames], d.unf[frames], d.vel[frames]
    e.counts, e.sides = [d.n] * len(frames), [d.side] * len(frames)
    return e


def as_number(x):
    """The number that a string stands for."""
    if isinstance(x, str):
        x = float(x)
        x = int(x) if x in (1, -1) or x == int(x) else x
    return x


def time_grid(command, opts, d):
    tmax, fraction = opts.get('tmax', -1.0), opts.get('tmax_fraction', TMAX_FRACTION.get(command, 0.75))
    m = opts.get('tsamples', TSAMPLES.get(command, 60))
    func = opts.get('func', FUNC.get(command, 'logx'))
    total = (d.steps[-1] - d.steps[0]) * d.dt
    top = min(total, tmax) if command in ('msd', 'vacf', 'chi4qs') else tmax
    if tmax <= 0:
        if fraction <= 0:
            return None
        top = fraction * total
    if top <= 0:
        raise Reject('a single frame')
    if func.startswith('linear'):
        grid = [d.dt + i * (top - d.dt) / (m - 1) for i in range(m)]
    else:
        x = (top / d.dt)**(1. / m)
        grid = [d.dt] + [d.dt * x**i for i in range(2, m + 1)]
    for t in grid:
        if abs(t / d.dt % 1.0 - 0.5) < 1e-6:
            raise Reject('half a step')
    return [0.0] + grid


def class_of(command, opts, glob, d, path):
    """(class, keyword arguments) documented for this command."""
    pp = lib.pp()
    kw = {'norigins': as_number(glob.get('norigins'))}
    if command in TIME:
        kw['tgrid'] = time_grid(command, opts, d)
    if command == 'gr':
        kw.update(dr=opts.get('dr', 0.04), rmax=opts.get('rmax', -1.0))
        return (pp.RadialDistributionFunctionLegacy if glob.get('legacy') else pp.RadialDistributionFunction), kw
    if command in ('sk', 'ik', 'fkt', 'fskt'):
        kw.update(nk=opts['nk'], dk=opts['dk'])
        if 'kgrid' in opts:
            kw['kgrid'] = [float(x) for x in opts['kgrid'].split(',')]
        elif command in ('sk', 'ik'):
            kw.update(kmin=opts['kmin'], kmax=opts['kmax'], ksamples=opts['ksamples'])
        else:
            m = opts['ksamples']
            kw['kgrid'] = [opts['kmin'] + i * (opts['kmax'] - opts['kmin']) / max(1, m - 1) for i in range(m)]
    if command in ('fkt', 'fskt', 'msd'):
        kw['fix_cm'] = opts.get('fix_cm', False)
    if command == 'sk':
        return (pp.StructureFactorFast if glob.get('fast') else pp.StructureFactorLegacy), kw
    if command == 'ik':
        return pp.SpectralDensity, dict(kw, trajectory_radius=path)
    if command == 'fkt':
        return pp.IntermediateScattering, kw
    if command == 'fskt':
        return (pp.SelfIntermediateScatteringLegacy if glob.get('legacy') else pp.SelfIntermediateScattering), kw
    if command == 'msd':
        return pp.MeanSquareDisplacement, dict(kw, sigma=opts.get('sigma', 1.0), no_offset=opts.get('no_offset', False), rmax=opts.get('rmsd_max', -1.0))
    if command == 'vacf':
        return pp.VelocityAutocorrelation, kw
    if command == 'chi4qs':
        return (pp.Chi4SelfOverlapOptimized if glob.get('fast') else pp.Chi4SelfOverlap), dict(kw, a=opts.get('a', 0.3))
    if command == 'ba':
        return pp.BondAngleDistribution, dict(kw, dtheta=opts.get('dtheta', 4.0))
    return {'alpha2': pp.NonGaussianParameter, 'qst': pp.SelfOverlap, 'qt': pp.CollectiveOverlap}[command], kw


def layout(species, name):
    """Species labels in the requested layout."""
    names = sorted(set(species))
    current = 'A' if not names[0].isdigit() else 'C' if names[0] == '0' else 'F'
    if name is None or name == current:
        return {s: s for s in names}
    if name == 'A':
        base = 0 if current == 'C' else 1
        return {s: 'ABCDEFGH'[int(s) - base] for s in names}
    base = 0 if name == 'C' else 1
    if current == 'A':
        return {s: str('ABCDEFGH'.index(s) + base) for s in names} if names == ['A', 'B'][:len(names)] else {s: str(names.index(s) + base) for s in names}
    return {s: str(int(s) - (0 if current == 'C' else 1) + base) for s in names}


def expected(case, d, folder, k, other=None):
    """{(symbol, tag): rows} for one file, from the classes on a file with the selected frames only."""
    command, opts, glob = case['command'], case['opts'], case['globals']
    os.makedirs(os.path.join(folder, 'ref%d' % k))
    path = gen.xyz(d, os.path.join(folder, 'ref%d' % k, 'data.xyz'), variables=['species', 'position', 'velocity', 'radius'])
    cls, kw = class_of(command, opts, glob, d, other if other and command == 'ik' else path)
    pp = lib.pp()
    from atooms.trajectory import TrajectoryXYZ
    weights = {'trajectory': TrajectoryXYZ(other)} if other else {}
    names = sorted(set(d.species))
    jobs = []
    if command in ('fkt', 'fskt'):
        want_total, want_partial = opts.get('total') or len(names) == 1, len(names) > 1
    elif command == 'chi4qs':
        want_total, want_partial = opts.get('total') or len(names) == 1, len(names) > 1 and not opts.get('total')
    else:
        want_total, want_partial = True, len(names) > 1 and command != 'ik'
    if glob.get('filter'):
        want_total, want_partial = True, False
    if glob.get('no_partial'):
        want_partial = False
    out = {}
    if want_total:
        obj = cls(path, **kw)
        if glob.get('filter'):
            obj = pp.Filter(obj, glob['filter'])
        if opts.get('weight'):
            obj.add_weight(field=opts['weight'], fluctuations=opts.get('weight_fluctuations', False), **weights)
        jobs.append(obj)
    if want_partial:
        part = pp.Partial(cls, names, path, **kw)
        if opts.get('weight'):
            part.add_weight(field=opts['weight'], fluctuations=opts.get('weight_fluctuations', False), **weights)
        jobs.append(part)
    for obj in jobs:
        obj.compute()
        for x in obj.partial.values() if hasattr(obj, 'partial') else [obj]:
            for y in [x] + ([x.average, x.variance] if hasattr(x, 'average') else []):
                out[y.symbol, y.tag] = expected_rows(y)
    return out


def call_api(case, paths):
    from atooms.postprocessing import api
    command = case['command']
    func = getattr(api, command)
    args = [paths[0]]
    for name, par in list(inspect.signature(func).parameters.items())[1:]:
        if par.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
            args.append(case['opts'].get(name, par.default))
    with target('api.%s()' % command):
        func(*(args + paths[1:]), **dict(case['globals']))


def call_cli(case, paths):
    argv = ['pp.py']
    if case['output']:
        argv += ['--output', case['output']]
    if case['loud']:
        argv.append(case['loud'])
    for key, val in case['globals'].items():
        name = '--' + key.replace('_', '-')
        argv += [name] if val is True else ['%s=%s' % (name, val)]
    argv.append(case['command'])
    for key, val in case['opts'].items():
        name = '--' + key.replace('_', '-')
        if key in FLAGS:
            argv += [name] if val else []
        else:
            argv += ['%s=%s' % (name, val)]
    argv += paths
    import runpy
    saved = sys.argv
    sys.argv = argv
    # (this process is a child that ends with the case)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        with target(' '.join(argv[:-len(paths)])):
            try:
                runpy.run_path(os.path.join(env.REPO, 'bin', 'pp.py'), run_name='__main__')
            except SystemExit as exc:
                if exc.code not in (None, 0):
                    raise RuntimeError('exit with status %s' % exc.code)
    finally:
        sys.argv = saved


def run(case, cli=False):
    command, opts, glob = case['command'], case['opts'], case['globals']
    with lib.scratch() as folder:
        paths, wants, maps = [], [], []
        for k, f in enumerate(case['files']):
            d = gen.Data(f)
            frames, bs = selected(d, glob)
            if len(frames) == 0 or (command in TIME and len(frames) < 2):
                raise Reject('no frames')
            e = subset(d, frames)
            if len(frames) != d.frames and ref.block_size(e.steps) != bs:
                # (the block size of a slice is that of the whole trajectory)
                raise Reject('blocks of a slice')
            for cond in (glob.get('filter') or '').split(','):
                if cond and not any(eval(cond, {'radius': float(r), 'species': sp}) for r, sp in zip(d.radius, d.species)):
                    raise Reject('nobody is selected')
            maps.append(layout(e.species, glob.get('species_layout')))
            if glob.get('center'):
                par = {'gr': {'kind': 'gr', 'dr': opts.get('dr', 0.04)}, 'ba': None, 'qt': {'kind': 'qt', 'a': 0.3}, 'qst': {'kind': 'qst', 'a': 0.3},
                       'chi4qs': {'kind': 'chi4', 'a': opts.get('a', 0.3)}}.get(command, {'kind': command})
                if par is None or p13.ambiguous(e, par, []):
                    raise Reject('on a threshold')
                d.pos = d.pos + d.side / 2
            e.species = [maps[-1][s] for s in e.species]
            other = None
            if case.get('other'):
                other = os.path.join(folder, 'other.xyz')
                x = gen.Data(f)
                x.radius = numpy.array(case['other'])
                gen.xyz(x, other, variables=['species', 'position', 'radius'])
                opts = dict(opts, **{'trajectory_radius' if command == 'ik' else 'weight_trajectory': other})
                case = dict(case, opts=opts)
            try:
                wants.append(expected(case, e, folder, k, other))
            except Reject:
                raise
            except Exception as exc:
                raise Reject('not defined: %s' % exc)
            os.makedirs(os.path.join(folder, 'in'), exist_ok=True)
            paths.append(gen.xyz(d, os.path.join(folder, 'in', 'file%d.xyz' % k), variables=['species', 'position', 'velocity', 'radius']))
        if cli:
            call_cli(case, paths)
        else:
            call_api(case, paths)
        template = (case.get('output') if cli else None) or '{trajectory.filename}.pp.{symbol}.{tag}'
        allowed, nonzero = set(paths), 0
        for k, (path, want) in enumerate(zip(paths, wants)):
            for (symbol, tag), rows in want.items():
                name = template.replace('{trajectory.filename}', path).replace('{symbol}', symbol).replace('{tag}', tag)
                head, tail = os.path.split(name)
                for c in '._-':
                    tail = tail.replace(c + c, c).strip(c)
                name = os.path.join(head, tail)
                check(os.path.isfile(name), '%s: no file %s (there are %s)', command, os.path.relpath(name, folder), lib.tree(os.path.join(folder, 'in')))
                allowed |= set([name, name + '.tau'])
                got = rows_of(name)
                check(len(got) == len(rows), '%s: file %d, %s of %s has %d rows instead of %d', command, k, symbol, tag or 'all', len(got), len(rows))
                ref.same(numpy.array(got, dtype=float).reshape(len(got), -1), numpy.array(rows, dtype=float).reshape(len(rows), -1),
                         '%s: file %d, %s of %s' % (command, k, symbol, tag or 'all'), 2e-5, 1e-9 if not glob.get('center') else 1e-7)
                nonzero += any(abs(r[-1]) > 1e-12 for r in rows)
        extra = [f for f in lib.tree(os.path.join(folder, 'in')) if os.path.join(folder, 'in', f) not in allowed]
        check(not extra, '%s wrote %s in addition', command, extra)
    return nonzero > 0, [command, '%d files' % len(paths)] + sorted(glob) + ['opt ' + o for o in sorted(opts)]


PROP = Prop('P19', 'some written value is not zero',
            [Sub('api', lambda: cases(False), run, quick=5000),
             Sub('cli', lambda: cases(True), lambda case: run(case, True), quick=1200, isolate=True),
             Sub('sizes', gen.large(lambda: cases(False), ('wide', 'deep')), run, quick=120, thorough=2400)],
            ['frames of block-periodic trajectories are selected by whole blocks, without skipping',
             'requested times at half a step are skipped', 'no filters on the spectral density'])
