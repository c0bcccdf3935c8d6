"""Bond-angle distribution."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..angles import histogram, species_ids
from ..core import Prop, Sub, Reject, check, target
from . import p13

@st.composite
def cases(draw):
    dense = draw(st.integers(0, 3)) == 0
    case = draw(gen.trajectories(motion='free', max_n=34 if dense else 12, min_n=22 if dense else 1, max_frames=2 if dense else 4,
                                 lo=20, hi=30 if dense else 60, variable_n=not dense, kinds=('even', 'irregular', 'blocks')))
    case['par'] = draw(lib.corr_pars('ba', case))
    if dense:
        case['par']['rcut'] = [[max(x, 2.0137) for x in row] for row in case['par']['rcut']]
    if draw(st.integers(0, 2)) == 0:
        # cutoffs need not be symmetric
        pass
    else:
        rc = case['par']['rcut']
        case['par']['rcut'] = [[rc[min(i, j)][max(i, j)] for j in range(len(rc))] for i in range(len(rc))]
    case['groups'] = draw(lib.group_choices(case))
    case['frame_order'] = draw(gen.shuffles)
    if draw(st.integers(0, 3)) == 0:
        # the cell changes from frame to frame
        case['ratio'] = [[draw(st.sampled_from([1.0, 1.0, 1.3, 0.8])) for _ in range(case['dim'])] for _ in case['steps']]
    return case


def compare(obj, lo, hi, width, m):
    check(len(obj.grid) == len(obj.value) == m, 'D(theta) has %d angles and %d values for %d bins', len(obj.grid), len(obj.value), m)
    ref.same(obj.grid, (numpy.arange(m) + 0.5) * width, 'angles')
    value = numpy.asarray(obj.value)
    check(abs(value.sum() * width - 1) < 1e-9, 'the distribution integrates to %r', value.sum() * width)
    ref.within(value, lo / (hi.sum() * width), hi / (max(lo.sum(), 1) * width), 'D(theta)', 1e-9, 1e-12)


def run(case):
    d = gen.Data(case)
    if 'ratio' in case:
        ratio = numpy.array(case['ratio'])
        d.sides = [d.side * x for x in ratio]
        d.pos = d.pos * ratio[:, None, :]
    par, groups = case['par'], case['groups']
    names = sorted(set(d.species[:d.counts[0]]))
    if any(sp not in names for i in range(d.frames) for sp in d.species[:d.counts[i]]):
        raise Reject('a species appears later')
    fa, fb, same_group = lib.group_frames(d, groups)
    ia, ib = species_ids(d, groups, names)
    origins = list(range(0, d.frames, ref.skip(d.steps, par['norigins'], d.counts[0])))
    width = par['dtheta']
    m = int(180.0 / width)
    edges = numpy.arange(m + 1) * width
    lo, hi, most = histogram(d, fa, fb, ia, ib, same_group, par['rcut'], edges, origins)
    if lo.sum() == 0:
        raise Reject('no angles')
    obj = lib.run(par, gen.ram(d), groups)
    compare(obj, lo, hi, width, m)
    return lo.sum() > 2, ['dim%d' % d.dim, lib.GROUP_LABELS[len(groups)], 'more than 20 neighbours' if most > 20 else 'few neighbours',
                          'exact' if (lo == hi).all() else 'bounds', 'cell varies' if 'ratio' in case else 'fixed cell']


@st.composite
def partial_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=16, min_n=6, max_frames=3, lo=20, hi=40, min_species=2, kinds=('even',)))
    case['par'] = draw(lib.corr_pars('ba', case))
    case['par']['norigins'] = -1
    case['frame_order'] = draw(gen.shuffles)
    return case


def run_partial(case):
    """Partial computes the distribution of every ordered pair of species."""
    d = gen.Data(case)
    par, names = case['par'], lib.species(d)
    if any(d.species.count(sp) < 2 for sp in names):
        raise Reject('one particle of a species')
    width = par['dtheta']
    m = int(180.0 / width)
    edges = numpy.arange(m + 1) * width
    want = {}
    for a in names:
        for b in names:
            groups = [a] if a == b else [a, b]
            fa, fb, same_group = lib.group_frames(d, groups)
            ia, ib = species_ids(d, groups, names)
            want[(a, b)] = histogram(d, fa, fb, ia, ib, same_group, par['rcut'], edges, range(d.frames))
    cls, kw = lib.cls_args(par)
    with target('Partial(BondAngleDistribution)'):
        obj = lib.pp().Partial(cls, names, gen.ram(d), **kw)
        obj.compute()
    some = 0
    check(sorted(obj.partial) == sorted(want), 'partial distributions %s for the species %s', sorted(obj.partial), names)
    for key, (lo, hi, most) in want.items():
        if lo.sum() == 0:
            continue
        compare(obj.partial[key], lo, hi, width, m)
        some += key[0] != key[1]
    return some > 0, ['dim%d' % d.dim, '%d species' % len(names)]


@st.composite
def default_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=30, min_n=5, max_frames=2, lo=20, hi=50, kinds=('even',)))
    case['dtheta'] = draw(st.sampled_from([4.0, 10.0]))
    return case


def run_default(case):
    """Without cutoffs, the first minimum of each partial g(r) is used."""
    d = gen.Data(case)
    names = lib.species(d)
    par = {'kind': 'ba', 'norigins': -1, 'dtheta': case['dtheta']}
    obj = lib.run(par, gen.ram(d))
    rcut = numpy.array(obj.rcut)
    check(rcut.shape == (len(names), len(names)), 'cutoffs %s for %d species', rcut, len(names))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            g = lib.run({'kind': 'gr', 'norigins': None, 'dr': 0.1}, gen.ram(d), [a] if a == b else [a, b])
            grid, value = numpy.asarray(g.grid), numpy.asarray(g.value)
            if not numpy.isfinite(value).all():
                raise Reject('g(r) undefined')
            eps = 1e-9 * value.max()
            # the maximum (equal peaks: any of them)
            tops = [int(t) for t in numpy.nonzero(value >= value.max() * (1 - 1e-9))[0]]
            here = numpy.argmin(numpy.abs(grid - rcut[i, j]))
            check(abs(grid[here] - rcut[i, j]) < 1e-9, 'the cutoff %r for %s-%s is not on the grid of g(r)', rcut[i, j], a, b)
            # the peak of the parabola through the maximum may be one bin away
            check(here >= tops[0] - 1, 'the cutoff %r for %s-%s lies before the maximum of g(r) at %r', rcut[i, j], a, b, grid[tops[0]])
            check(here == len(grid) - 1 or value[here + 1] >= value[here] - eps, 'g(r) still decreases at the cutoff %r for %s-%s', rcut[i, j], a, b)
            # (equal values other than zero may differ by rounding)
            down = (numpy.diff(value) < -eps) | ((abs(numpy.diff(value)) <= eps) & (value[1:] > eps))
            check(any(down[t:here].all() for t in tops if here >= t - 1), 'the cutoff %r for %s-%s is not the first minimum after the maximum', rcut[i, j], a, b)
            check(abs(obj.analysis['cutoff distance %d-%d' % (i, j)] - rcut[i, j]) < 1e-12, 'reported cutoff')
    again = lib.run(dict(par, rcut=[list(map(float, row)) for row in rcut]), gen.ram(d))
    lib.same_result(obj, again, 'D(theta) with default cutoffs and with those it reports')
    return lib.finite(obj), ['dim%d' % d.dim, '%d species' % len(names)]


PROP = Prop('P16', 'at least three ordered pairs of neighbours; a finite distribution for the default cutoffs',
            [p13.units('ba'),
             Sub('ba', cases, run, quick=4500),
             Sub('partial', partial_cases, run_partial, quick=900),
             Sub('default', default_cases, run_default, quick=900),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['angles within 1e-5 degrees of a bin edge may be counted in either bin; the incomplete bin below 180 degrees is not reported',
             'cases with a neighbour at the cutoff or at half a side within 1e-9 are skipped'])
