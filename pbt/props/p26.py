"""g(r) without periodic boundaries: open cells, no cell, partly periodic cells."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

EPS = 1e-7


@st.composite
def cases(draw):
    many = draw(st.integers(0, 3)) == 0
    case = draw(gen.trajectories(motion='free', max_n=160 if many else 24, min_n=61 if many else 2, max_frames=1 if many else 4,
                                 lo=40 if many else 20, hi=90 if many else 60, variable_n=not many, kinds=('even', 'blocks'), corner=False))
    case['mode'] = draw(st.sampled_from(['rmax', 'rmax', 'rmax', 'open', 'none']))
    case['dr'] = draw(st.sampled_from([0.1, 0.1, 0.25, 0.3, 0.05]))
    case['norigins'] = draw(gen.norigins)
    small = min(case['side'])
    case['rmax'] = round(small * draw(st.sampled_from([0.12, 0.15, 0.2, 0.3, 0.4])), 3) if case['mode'] != 'none' else \
        round(max(case['side']) * draw(st.sampled_from([0.2, 0.5, 1.0, 2.0])), 3)
    case['groups'] = draw(lib.group_choices(case))
    return case


def run(case):
    d = gen.Data(case)
    mode, dr, rmax, groups = case['mode'], case['dr'], case['rmax'], case['groups']
    if rmax < 2 * dr:
        raise Reject('short range')
    fa, fb, same_group = lib.group_frames(d, groups)
    origins = range(0, d.frames, ref.skip(d.steps, case['norigins'], d.counts[0]))
    used = [i for i in origins if len(fa[i]) and len(fb[i])]
    if not used:
        raise Reject('no particles at the time origins')
    th = open_boundaries(d, None if mode == 'none' else [False] * d.dim)
    par = {'kind': 'gr_fast', 'norigins': case['norigins'], 'dr': dr}
    if mode != 'open':
        par['rmax'] = rmax
    # pairs of a centre and another particle, without periodic images
    pairs, centres = [], []
    for i in used:
        keep = numpy.ones(len(fa[i]), dtype=bool)
        if mode == 'rmax':
            gap = d.side / 2 - numpy.abs(fa[i]) - rmax
            if (numpy.abs(gap) < 1e-9).any():
                raise Reject('a particle at rmax from the surface')
            keep = (gap > 0).all(axis=1)
        centres.append(int(keep.sum()))
        r = numpy.sqrt(((fa[i][:, None, :] - fb[i][None, :, :])**2).sum(axis=2))
        ok = numpy.ones(r.shape, dtype=bool)
        if same_group:
            ok = ~numpy.eye(len(r), dtype=bool) if mode == 'rmax' else numpy.triu(ok, 1)
        pairs.append(r[ok & keep[:, None]])
    if sum(centres) == 0:
        raise Reject('no particles away from the surface')
    obj = lib.run(par, th, groups)
    grid, value = numpy.asarray(obj.grid, dtype=float), numpy.asarray(obj.value, dtype=float)
    m = len(grid)
    limit = min(d.side) / 2 if mode == 'open' else rmax
    full = [(k + 0.5) * dr for k in range(int(limit / dr) + 3)]
    most, least = sum(c <= limit + 1e-9 for c in full), sum(c <= limit - 1e-9 for c in full) - (mode == 'none')
    check(len(value) == m and least <= m <= most, 'g(r) reports %d distances and %d values, expected the %d centres below %r', m, len(value), most, limit)
    ref.same(grid, full[:m], 'distances', 1e-9)
    edges = numpy.arange(m + 1) * dr
    lo, hi = numpy.zeros(m), numpy.zeros(m)
    for r in pairs:
        l, h = ref.hist_bounds(r, edges, EPS)
        lo += l / len(used)
        hi += h / len(used)
    shell = ref.shell_volume(edges, d.dim)
    volumes = [numpy.prod(d.side)]
    if mode == 'none':
        # an estimate: the box that bounds the particles (of one of the frames)
        volumes = [numpy.prod(d.pos[i][:d.counts[i]].max(axis=0) - d.pos[i][:d.counts[i]].min(axis=0)) for i in range(d.frames)]
    first = 0
    if mode == 'rmax':
        # the first bin, which would hold the particles themselves, repeats the second one
        first = 1
        if m > 1 and not abs(value[0] - value[1]) <= 1e-9 * abs(value[1]):
            check(not same_group, 'the first bin is %r, the second one %r', value[0], value[1])
            first = 0
    if min(volumes) < 1e-6:
        raise Reject('particles on a line')
    problem = None
    for v in volumes:
        ideal = numpy.mean(centres) * numpy.mean([len(fb[i]) for i in used]) / v * shell
        if same_group and mode != 'rmax':
            ideal = ideal / 2
        try:
            ref.within((value * ideal)[first:], lo[first:], hi[first:], 'pairs per bin', 1e-7, 1e-8)
            problem = None
            break
        except Exception as exc:
            problem = problem or exc
    if problem is not None:
        raise problem
    linked = mode == 'rmax' and int(min(d.side / (rmax + dr))) > 3
    return m > 1 and hi[first:].sum() > 0, [mode, 'dim%d' % d.dim, lib.GROUP_LABELS[len(groups)], 'linked cells' if linked else 'all pairs',
                                            'some at the surface' if sum(centres) < sum(len(fa[i]) for i in used) else 'all centres']


def open_boundaries(d, periodic):
    """In-memory trajectory with the given boundaries (None: no cell)."""
    from atooms.trajectory.ram import TrajectoryRam
    th = TrajectoryRam()
    for s, step in zip(gen.systems(d), d.steps):
        if periodic is None:
            s.cell = None
        else:
            s.cell.periodic = numpy.array(periodic, dtype=bool)
        th.write(s, step)
    th.timestep = d.dt
    return th


@st.composite
def bulk_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=40, min_n=12, max_frames=3, lo=40, hi=60, kinds=('even',), corner=False))
    case['dr'] = draw(st.sampled_from([0.25, 0.5]))
    case['rmax'] = round(min(case['side']) * draw(st.sampled_from([0.15, 0.2, 0.25])), 3)
    case['periodic'] = [draw(st.booleans()) for _ in range(case['dim'])]
    case['groups'] = draw(lib.group_choices(case))
    return case


def run_bulk(case):
    """Partly periodic cells are refused; fully periodic ones are the standard calculation."""
    d = gen.Data(case)
    fa, fb, _ = lib.group_frames(d, case['groups'])
    if any(len(x) == 0 or len(y) == 0 for x, y in zip(fa, fb)):
        raise Reject('empty group')
    par = {'kind': 'gr_fast', 'norigins': -1, 'dr': case['dr'], 'rmax': case['rmax']}
    kind = 'periodic' if all(case['periodic']) else 'open' if not any(case['periodic']) else 'partly periodic'
    if kind == 'partly periodic':
        try:
            obj = lib.run(par, open_boundaries(d, case['periodic']), case['groups'])
        except Exception:
            return True, [kind]
        check(False, 'g(r) in a cell periodic along %s only gives %s', case['periodic'], list(obj.value)[:3])
    if kind == 'periodic':
        lib.same_result(lib.run(par, open_boundaries(d, case['periodic']), case['groups']), lib.run(par, gen.ram(d), case['groups']), 'g(r) in a periodic cell')
        return True, [kind]
    return False, [kind]


PROP = Prop('P26', 'two bins or more and a pair inside the reported range; cells that are not open for the comparison of boundaries',
            [Sub('open', cases, run, quick=4500),
             Sub('boundaries', bulk_cases, run_bulk, quick=900),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['pairs within 1e-7 of a bin edge may be counted in either bin', 'compiled version only (the Python one assumes periodic cells)',
             'without a cell the volume is that of the box bounding the particles of one of the frames'])
