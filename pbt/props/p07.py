"""MSD."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', dims=(2, 2, 3, 3, 1, 4), max_n=8, max_frames=14, min_frames=1))
    # other units of length, and moves that are tiny compared to the cell
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e5]))
    case['side'] = [x * unit for x in case['side']]
    if draw(st.integers(0, 5)) == 0:
        case['amp'] = 1e-7
    case['par'] = {'kind': 'msd', 'norigins': draw(gen.norigins), 'tgrid': draw(gen.time_grids(case)), 'form': draw(lib.forms)}
    case['storage'] = draw(st.sampled_from(['fold', 'fold', 'true', 'unfolded', 'unfolded_only']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    return case


def trajectory(d, storage):
    """Folded positions, true positions, or folded ones plus stored unwrapped ones."""
    if storage == 'true':
        return gen.ram(d, 'unf')
    if storage == 'unfolded':
        d.store_unfolded = True
        return gen.ram(d, 'pos')
    return gen.ram(d, 'pos')


def run(case):
    d = gen.Data(case)
    unf = d.unf
    if case['storage'] == 'unfolded_only':
        # the stored unwrapped positions are used as they are, whatever the moves and the folded positions
        d.store_unfolded = True
        d.unf = numpy.cumsum(d.unf, axis=0) * 1.7
        unf = d.unf
        th = gen.ram(d, 'pos')
    else:
        th = trajectory(d, case['storage'])
    sp = case['sp']
    idx = lib.sel_indices(d, sp)
    par = case['par']
    obj = lib.run(par, th, [sp] if sp is not None else [])
    x = unf[:, idx]
    lags, table = lib.check_lags(d, obj.grid, par['tgrid'], par['norigins'], 'msd')
    want = lib.origin_average(table, lags, lambda i, j: ((x[j] - x[i])**2).sum() / len(idx))
    # rounding errors of the positions, summed up by the unfolding
    err = 1e-15 * (numpy.abs(unf).max() + d.side.max()) * (d.frames + 2) * d.dim
    want = numpy.array(want)
    check(len(obj.value) == len(want), 'msd: %d values for %d lags', len(obj.value), len(want))
    for s, got, exp in zip(lags, obj.value, want):
        check(abs(got - exp) <= 1e-7 * exp + 4 * exp**0.5 * err + 4 * err**2, 'msd at lag %d is %r, expected %r', s, float(got), float(exp))
    if 0 in lags:
        check(abs(obj.value[lags.index(0)]) <= err**2, 'msd at zero lag is %r', obj.value[lags.index(0)])
    crossed = bool(numpy.abs(d.unf - d.pos).max() > 1e-6)
    labels = [case['storage'], 'crossed' if crossed else 'inside', 'blocks' if ref.block_size(d.steps) > 1 else 'even',
              'dim%d' % d.dim, 'species' if sp else 'all', 'tiny moves' if case['amp'] < 1e-3 else 'moves',
              'units' if not 0.5 < max(case['side']) < 1e3 else 'reduced units']
    return len(lags) > 1 and d.frames > 2, labels


PROP = Prop('P07',
            'at least three frames and two reported lags',
            [p13.units('msd'),
             Sub('msd', cases, run, quick=3000),
             Sub('sizes', gen.large(cases), run, quick=360, thorough=7200)],
            ['moves below half a cell side', 'at most 14 frames and 8 particles (260 particles or 130 frames in a smaller number of cases)'])
