"""Velocity autocorrelation, non-Gaussian parameter, overlaps."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', dims=(2, 2, 3, 3, 1, 4), max_n=9, max_frames=14, velocities=True))
    kind = draw(st.sampled_from(['vacf', 'alpha2', 'qst', 'qt']))
    case['par'] = {'kind': kind, 'norigins': draw(gen.norigins), 'tgrid': draw(gen.time_grids(case)), 'form': draw(lib.forms)}
    if kind in ('qst', 'qt'):
        case['par']['a'] = draw(lib.cutoffs(case))
        if case['par']['tgrid'] is None and (case['steps'][-1] - case['steps'][0]) * case['dt'] * 0.75 <= 1.0:
            case['par']['tgrid'] = [0.0]
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf', 'stored']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    case['still'] = draw(gen.stills(case))
    return case


def run(case):
    d = gen.Data(case)
    par, sp, kind = case['par'], case['sp'], case['par']['kind']
    idx = lib.sel_indices(d, sp)
    storage = case['storage']
    if storage == 'stored':
        d.store_unfolded = True
        if kind in ('alpha2', 'qst'):
            d.unf = numpy.cumsum(d.unf, axis=0) * 0.7
        storage = 'pos'
    obj = lib.run(par, gen.ram(d, storage), [sp] if sp is not None else [])
    lags, table = lib.check_lags(d, obj.grid, par['tgrid'], par['norigins'], kind)
    check(len(obj.value) == len(lags), '%s: %d values for %d times', kind, len(obj.value), len(lags))
    x, v, raw = d.unf[:, idx], d.vel[:, idx], getattr(d, storage)[:, idx]
    n = len(idx)
    if kind == 'vacf':
        ref.same(obj.value, lib.origin_average(table, lags, lambda i, j: (v[i] * v[j]).sum() / n), 'Z(t)', 1e-8, 1e-10)
        informative = bool(numpy.abs(v).max() > 0)
    elif kind == 'alpha2':
        def alpha2(i, j):
            if i == j:
                return 0.0
            dr2 = ((x[j] - x[i])**2).sum(axis=1)
            if dr2.mean() < 1e-9:
                return numpy.nan
            return d.dim * (dr2**2).mean() / ((d.dim + 2) * dr2.mean()**2) - 1
        want = numpy.array(lib.origin_average(table, lags, alpha2))
        ok = ~numpy.isnan(want)         # nobody moved: the ratio is undefined
        ref.same(numpy.asarray(obj.value, dtype=float)[ok], want[ok], 'alpha_2(t)', 1e-6, 1e-8)
        informative = bool(ok.sum() > 1)
    else:
        def overlap(i, j, a):
            if kind == 'qst':
                dist = numpy.sqrt(((x[j] - x[i])**2).sum(axis=1))
            else:
                dist = numpy.sqrt(((raw[j][:, None] - raw[i][None])**2).sum(axis=2))
            return (dist < a).sum() / n
        lo = lib.origin_average(table, lags, lambda i, j: overlap(i, j, par['a'] - 1e-9))
        hi = lib.origin_average(table, lags, lambda i, j: overlap(i, j, par['a'] + 1e-9))
        ref.within(obj.value, lo, hi, kind, 1e-9, 1e-9)
        informative = len(set(numpy.round(lo, 9))) > 1 or 0 < lo[0] < 1
    return informative and d.frames > 2 and len(lags) > 1, [
        kind, case['storage'], 'dim%d' % d.dim, 'species' if sp else 'all', 'default grid' if par['tgrid'] is None else 'given grid',
        'blocks' if ref.block_size(d.steps) > 1 else 'even', 'string origins' if isinstance(par['norigins'], str) else 'number']


PROP = Prop('P08',
            'three frames or more, two lags reported and a value that is not constant (overlaps), zero (velocities) or undefined (non-Gaussian parameter)',
            [p13.units('vacf', 'alpha2', 'qst', 'qt'),
             Sub('onebody', cases, run, quick=6000),
             Sub('sizes', gen.large(cases), run, quick=480, thorough=9600)],
            ['evenly spaced or block-periodic steps', 'moves below half a side unless unwrapped positions are stored',
             'the collective overlap compares stored positions without minimum image'])
