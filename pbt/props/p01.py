"""Radial distribution function."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13

EPS = 1e-7


@st.composite
def cases(draw, backends=('gr_fast', 'gr_legacy', 'gr'), variable=True, rmax=True):
    case = draw(gen.trajectories(motion='free', max_n=14, max_frames=5, lo=20, hi=70, variable_n=variable, min_n=1, dims=(2, 2, 2, 3, 3, 3, 1, 4, 5),
                                 kinds=('even', 'irregular', 'blocks')))
    case['quant'] = draw(st.sampled_from([65536, 65536, 65536, 16, 8]))
    par = {'kind': draw(st.sampled_from(list(backends))), 'norigins': draw(gen.norigins)}
    kind = draw(st.sampled_from(['dr', 'dr', 'rgrid', 'rmax'] if rmax else ['dr', 'rgrid']))
    par['dr'] = draw(st.sampled_from([0.04, 0.1, 0.25, 0.5, 0.3, 0.77, 1.0]))
    if kind == 'rgrid':
        m = draw(st.integers(2, 40))
        par['rgrid'] = [par['dr'] / 2 + i * par['dr'] for i in range(m)]
        if draw(st.booleans()):
            del par['dr']
    elif kind == 'rmax' and (case['dim'] in (2, 3) or par['kind'] == 'gr_legacy'):     # linked cells are for 2 and 3 dimensions
        par['rmax'] = round(draw(st.integers(1, 30)) / 30. * max(case['side']), 4)
        if draw(st.booleans()):
            # the centre of a bin, exactly
            par['dr'] = draw(st.sampled_from([0.25, 0.5, 1.0]))
            par['rmax'] = (int(par['rmax'] / par['dr']) + 0.5) * par['dr']
    case['par'] = par
    case['later'] = 'rgrid' in par and draw(st.booleans())
    case['frame_order'] = draw(gen.shuffles)
    names = sorted(set(case['species']))
    case['groups'] = draw(st.sampled_from([[]] + [[a] for a in names] + [[a, b] for a in names for b in names if a != b]))
    if case['dim'] > 1 and draw(st.integers(0, 4)) == 0:
        case['shape'] = [shape(draw, case['dim']) for _ in case['steps']]
        if 'rmax' in par:
            # (distances are tabulated up to a multiple of the first cell)
            par['rmax'] = round(min(par['rmax'], max(x * y for x, y in zip(case['side'], case['shape'][0]))), 4)
    return case


def shape(draw, dim):
    """Ratios of the sides of one frame to the nominal ones; the volume may change, too."""
    out = [draw(st.sampled_from([1.0, 1.0, 1.25, 0.8, 1.6, 0.5])) for _ in range(dim - 1)]
    scale = draw(st.sampled_from([1.0, 1.0, 1.2, 0.75]))
    return [x * scale for x in out + [float(1.0 / numpy.prod(out))]]


def reshape(d, case):
    """Change the cell from frame to frame."""
    if 'shape' in case:
        ratio = numpy.array(case['shape'])
        d.sides = [d.side * r for r in ratio]
        d.pos = d.pos * ratio[:, None, :]


def expected_centres(d, par):
    dr = par.get('dr')
    if 'rgrid' in par:
        full = list(par['rgrid'])
        dr = full[1] - full[0]
    else:
        full = [(i + 0.5) * dr for i in range(int(max(d.sides[0]) * d.dim**0.5 / dr) + 3)]
    return dr, full


def limits(d, par, frames):
    """Half the smallest side, in the last of these frames (the last one that is used), or the given distance."""
    return [par['rmax']] if par.get('rmax', -1) > 0 else sorted(set(min(d.sides[i]) / 2 for i in frames))


def check_grid(grid, dr, full, allowed, user, edge=numpy.inf):
    """Bin centres up to the limit (the last bin of a user's grid may be dropped, and those next to the diagonal of the cell)."""
    grid = numpy.asarray(grid, dtype=float)
    ok = False
    for limit in allowed:
        # (no rounding when these are multiples of powers of two)
        eps = 0.0 if limit * 64 == int(limit * 64) and dr * 64 == int(dr * 64) else 1e-9
        sure = [c for c in full if c <= min(limit - eps, edge - 1.01 * dr)]
        maybe = [c for c in full if c <= limit + eps]
        if user and len(sure) == len(full):
            sure = sure[:-1]
        ok = ok or len(sure) <= len(grid) <= len(maybe)
    check(ok, 'g(r) reports %d distances, expected the %d bin centres below %r', len(grid), len(maybe), allowed)
    ref.same(grid, full[:len(grid)], 'distances', rtol=1e-9, atol=1e-9)


def groups_of(d, groups):
    a = groups[0] if groups else None
    b = groups[1] if len(groups) > 1 else a
    pick = [(None if g is None else gen.by_species(g)) for g in (a, b)]
    fa = [d.frame(i, 'pos', pick[0]) for i in range(d.frames)]
    fb = fa if len(groups) < 2 else [d.frame(i, 'pos', pick[1]) for i in range(d.frames)]
    return fa, fb, len(groups) < 2


def run(case):
    d = gen.Data(case)
    reshape(d, case)
    par = dict(case['par'])
    if 'rgrid' in par and par['rgrid'][-1] > max(d.sides[0]) * d.dim**0.5:
        par['rgrid'] = [x for x in par['rgrid'] if x < max(d.sides[0]) * d.dim**0.5]
        if len(par['rgrid']) < 2:
            raise Reject('short grid')
    th = gen.ram(d)
    fa, fb, same_group = groups_of(d, case['groups'])
    skip = ref.skip(d.steps, par['norigins'], d.counts[0])
    origins = list(range(0, d.frames, skip))
    used = [i for i in origins if len(fa[i]) and len(fb[i])]
    if not used:
        raise Reject('no particles at the time origins')
    if 'rgrid' in par and case.get('later'):
        # set after construction, as the user may do
        obj = lib.make({k: v for k, v in par.items() if k != 'rgrid'}, th)
        obj.grid = list(par['rgrid'])
        lib.add_filters(obj, case['groups'], par)
        lib.compute(obj)
    else:
        obj = lib.run(par, th, case['groups'])
    dr, full = expected_centres(d, par)
    check_grid(obj.grid, dr, full, limits(d, par, [origins[-1], used[-1], d.frames - 1]), 'rgrid' in par, max(d.sides[0]) * d.dim**0.5)
    m = len(obj.grid)
    check(len(obj.value) == m, 'g(r) has %d values for %d distances', len(obj.value), m)
    edges = numpy.arange(m + 1) * dr
    lo, hi = numpy.zeros(m), numpy.zeros(m)
    for i in used:
        r = ref.pair_distances(fa[i], fb[i], d.sides[i], 'half' if same_group else 'all')
        l, h = ref.hist_bounds(r, edges, EPS)
        lo += l
        hi += h
    lo /= len(used)
    hi /= len(used)
    # the number of particles and the density are averaged over the same frames as the pairs
    shell = ref.shell_volume(edges, d.dim)
    na = numpy.mean([len(fa[i]) for i in used])
    rho = numpy.mean([len(fb[i]) / numpy.prod(d.sides[i]) for i in used])
    ideal = na * rho * shell * (0.5 if same_group else 1.0)
    ref.within(numpy.asarray(obj.value) * ideal, lo, hi, 'pairs per bin', 1e-7, 1e-8)
    labels = [par['kind'], 'dim%d' % d.dim, ['all', 'one species', 'two species'][len(case['groups'])],
              'rmax' if 'rmax' in par else 'rgrid' if 'rgrid' in par else 'dr',
              'many origins' if len(used) > 1 else 'one origin', 'counts vary' if len(set(d.counts)) > 1 else 'fixed N', 'cell varies' if 'shape' in case else 'fixed cell']
    return hi.sum() > 0 and m > 1, labels


@st.composite
def pair_cases(draw):
    """Both backends on the same data (differential), many particles."""
    case = draw(gen.trajectories(motion='free', max_n=40, min_n=10, max_frames=2, lo=30, hi=60))
    case['dr'] = draw(st.sampled_from([0.1, 0.25, 0.5]))
    names = sorted(set(case['species']))
    case['groups'] = draw(st.sampled_from([[]] + [[a] for a in names] + [[a, b] for a in names for b in names if a != b]))
    return case


def run_pair(case):
    d = gen.Data(case)
    out = []
    for kind in ('gr_fast', 'gr_legacy'):
        out.append(lib.run({'kind': kind, 'norigins': -1, 'dr': case['dr']}, gen.ram(d), case['groups']))
    m = min(len(out[0].grid), len(out[1].grid))
    check(abs(len(out[0].grid) - len(out[1].grid)) <= 1, 'backends report %d and %d distances', len(out[0].grid), len(out[1].grid))
    ref.same(out[0].grid[:m], out[1].grid[:m], 'distances of the two backends')
    fa, fb, same_group = groups_of(d, case['groups'])
    edges = numpy.arange(m + 1) * case['dr']
    for i in range(d.frames):
        r = ref.pair_distances(fa[i], fb[i], d.side, 'half' if same_group else 'all')
        l, h = ref.hist_bounds(r, edges, EPS)
        if (l != h).any():
            raise Reject('distances on the edge of a bin')
    ref.same(out[0].value[:m], out[1].value[:m], 'compiled and Python g(r)', rtol=1e-9)
    return len(fa[0]) > 1 and len(fb[0]) > 1, ['dim%d' % d.dim, ['all', 'one species', 'two species'][len(case['groups'])]]


@st.composite
def large_cases(draw):
    """Hundreds of particles (histograms are filled in batches of pairs)."""
    case = draw(gen.trajectories(motion='free', max_n=640, min_n=draw(st.sampled_from([100, 280, 320, 320])), max_frames=2, lo=60, hi=140, kinds=('even',)))
    case['quant'] = 65536
    par = {'kind': draw(st.sampled_from(['gr_legacy', 'gr_legacy', 'gr_fast', 'gr'])), 'norigins': -1, 'dr': draw(st.sampled_from([0.1, 0.25, 0.5]))}
    if draw(st.booleans()):
        par['rmax'] = round(draw(st.integers(3, 15)) / 30. * max(case['side']), 4)
    case['par'] = par
    case['groups'] = draw(lib.group_choices(case))
    if draw(st.integers(0, 2)) == 0:
        case['shape'] = [shape(draw, case['dim']) for _ in case['steps']]
        if 'rmax' in par:
            # (distances are tabulated up to a multiple of the first cell)
            par['rmax'] = round(min(par['rmax'], max(x * y for x, y in zip(case['side'], case['shape'][0]))), 4)
    return case


PROP = Prop('P01',
            'at least two bins reported and at least one pair inside the reported range',
            [p13.units('gr', 'gr_legacy'),
             Sub('gr', cases, run, quick=6000),
             Sub('backends', pair_cases, run_pair, quick=900),
             Sub('large', large_cases, run, quick=120, thorough=2400),
             Sub('sizes', gen.large(cases), run, quick=240, thorough=4800)],
            ['pairs within 1e-7 of a bin edge may be counted in either bin',
             'with a fluctuating number of particles pairs and ideal count are averaged over the origins at which both groups have particles',
             'up to 14 particles and 5 frames against the definition, up to 40 particles between backends, up to 640 in a smaller number of cases'])
