"""Helpers that summarise curves, and the analysis of the correlation functions."""
import math
import os
from fractions import Fraction

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target


def helpers():
    from atooms.postprocessing import helpers as module
    return module


# ---------------------------------------------------------------------- references, in exact arithmetic

def crossing(x, f, level):
    """(earliest, latest) abscissa and index of the first passage to the other side of the level."""
    x, f, level = [Fraction(y) for y in x], [Fraction(y) for y in f], Fraction(level)
    sign = f[0] - level
    for i in range(len(f)):
        if (f[i] - level) * sign < 0:
            j = i - 1
            while f[j] == level and f[j - 1] == level:
                j -= 1
            if f[i - 1] == level:
                return float(x[j]), float(x[i - 1]), i
            at = x[i - 1] + (level - f[i - 1]) * (x[i] - x[i - 1]) / (f[i] - f[i - 1])
            return float(at), float(at), i
    return None


def vertex(x, f, i):
    """Extremum of the parabola through three points around the i-th, or the point itself at the ends."""
    if i == 0 or i == len(f) - 1:
        return x[i], f[i]
    (x1, x2, x3), (y1, y2, y3) = [Fraction(y) for y in x[i - 1:i + 2]], [Fraction(y) for y in f[i - 1:i + 2]]
    # divided differences
    d1 = (y2 - y1) / (x2 - x1)
    d2 = ((y3 - y2) / (x3 - x2) - d1) / (x3 - x1)
    at = (x1 + x2) / 2 - d1 / (2 * d2)
    value = y1 + d1 * (at - x1) + d2 * (at - x1) * (at - x2)
    return float(at), float(value)


def line(x, y):
    """Least squares line and standard errors."""
    x, y = [Fraction(float(v)) for v in x], [Fraction(float(v)) for v in y]
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    vxx = sum((v - mx)**2 for v in x)
    a = sum((v - mx) * (w - my) for v, w in zip(x, y)) / vxx
    b = my - a * mx
    rest = sum((w - a * v - b)**2 for v, w in zip(x, y))
    s = rest / (n - 2) if n > 2 else Fraction(0)
    return float(a), float(b), math.sqrt(s / vxx), math.sqrt(s / vxx * sum(v * v for v in x) / n)


# ---------------------------------------------------------------------- helpers

@st.composite
def helper_cases(draw):
    what = draw(st.sampled_from(['feqc', 'feqc', 'ifabsmm', 'ifabsmm', 'fit', 'fit', 'linear', 'logx', 'tau']))
    case = {'what': what}
    if what in ('linear', 'logx'):
        case['x1'] = draw(st.integers(-40 if what == 'linear' else 0, 400)) / 8.
        case['x2'] = case['x1'] + draw(st.integers(1, 4000)) / 8.
        case['n'] = draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(41, 400)))
        case['delta'] = draw(st.one_of(st.none(), st.integers(1, 400).map(lambda k: k / 16.), st.integers(1, 1000).map(lambda k: k / 100.)))
        case['strict'] = False
        return case
    n = draw(st.integers(2 if what == 'fit' else 1, 20))
    start = draw(st.integers(-20, 200))
    gaps = draw(st.lists(st.integers(1, 12), min_size=n - 1, max_size=n - 1))
    case['x'] = [float(start) / 4]
    for g in gaps:
        case['x'].append(case['x'][-1] + g / 4.)
    shape = draw(st.sampled_from(['any', 'coarse', 'constant', 'line', 'decay', 'peak']))
    if shape == 'any':
        f = draw(st.lists(st.integers(-800, 800), min_size=n, max_size=n))
        f = [v / 64. for v in f]
    elif shape == 'coarse':
        f = [float(v) for v in draw(st.lists(st.integers(-2, 2), min_size=n, max_size=n))]
    elif shape == 'constant':
        f = [draw(st.integers(-8, 8)) / 4.] * n
    elif shape == 'line':
        a, b = draw(st.integers(-16, 16)) / 8., draw(st.integers(-80, 80)) / 8.
        if draw(st.booleans()):
            a = a / 3.
        f = [a * v + b for v in case['x']]
    elif shape == 'decay':
        f, v = [], 1.0
        for _ in range(n):
            f.append(v)
            v *= draw(st.sampled_from([1.0, 0.75, 0.5, -0.25, 0.0]))
    else:
        at = draw(st.integers(0, n - 1))
        f = [1.0 / (1 + abs(k - at)) for k in range(n)]
    case['f'], case['shape'] = f, shape
    case['level'] = draw(st.one_of(st.sampled_from(f), st.integers(-80, 80).map(lambda v: v / 8.), st.sampled_from([0.5, 1 / math.e])))
    case['array'] = draw(st.booleans())
    return case


def run_helper(case):
    h = helpers()
    what = case['what']
    if what == 'linear':
        x1, x2, n, delta = case['x1'], case['x2'], case['n'], case['delta']
        if delta is None:
            with target('linear_grid()'):
                grid = h.linear_grid(x1, x2, n)
            check(len(grid) == n, 'linear_grid(%r, %r, %d) has %d entries', x1, x2, n, len(grid))
            ref.same(grid, [x1 + k * (x2 - x1) / (n - 1) for k in range(n)] if n > 1 else [x1], 'linear_grid', 1e-12, 1e-10)
        else:
            with target('linear_grid()'):
                grid = h.linear_grid(x1, x2, float(delta))
            ref.same(grid, [x1 + k * delta for k in range(len(grid))], 'linear_grid', 1e-12, 1e-10)
            check(grid[-1] <= x2 + 1e-9 and grid[-1] + delta >= x2 - 1e-9, 'linear_grid(%r, %r, %r) ends at %r', x1, x2, delta, grid[-1])
        return len(grid) > 2, [what]
    if what == 'logx':
        x1, x2, n = case['x1'], case['x2'], case['n']
        with target('logx_grid()'):
            grid = h.logx_grid(x1, x2, n)
        check(len(grid) == n, 'logx_grid(%r, %r, %d) has %d entries', x1, x2, n, len(grid))
        check(grid[0] == x1, 'logx_grid(%r, %r, %d) starts at %r', x1, x2, n, grid[0])
        # constant ratio after the first entry (of the values plus one, when starting from zero)
        shifted = numpy.array(grid) + (0 if x1 > 0 else 1)
        if n > 2:
            ratio = shifted[2:] / shifted[1:-1]
            ref.same(ratio, [ratio[0]] * len(ratio), 'ratio of successive entries', 1e-9)
        if (x1 > 0 or case['strict']) and n > 1:
            check(abs(grid[-1] - x2) < 1e-9 * abs(x2), 'logx_grid(%r, %r, %d) ends at %r instead of %r', x1, x2, n, grid[-1], x2)
            check(all(b > a for a, b in zip(grid[:-1], grid[1:])), 'logx_grid(%r, %r, %d) does not increase', x1, x2, n)
        return n > 2, [what]
    x, f = list(case['x']), list(case['f'])
    ax, af = (numpy.array(x), numpy.array(f)) if case['array'] else (x, f)
    labels = [what, case['shape']]
    if what == 'feqc':
        level = case['level']
        with target('feqc()'):
            got = h.feqc(ax, af, level)
        want = crossing(x, f, level)
        if f[0] == level:
            # the curve starts at the level: that is not a crossing
            check(got[0] is None or got[0] == x[0], 'feqc finds %r for a curve that starts at the level %r: %s', got, level, f)
            return False, labels
        if want is None:
            check(got[0] is None, 'feqc(%s, %s, %r) finds %r where there is no crossing', x, f, level, got)
        else:
            check(got[0] is not None, 'feqc(%s, %s, %r) misses the crossing at %r', x, f, level, want[0])
            check(want[0] - 1e-9 <= got[0] <= want[1] + 1e-9, 'feqc(%s, %s, %r) finds %r instead of %r', x, f, level, got[0], want[0])
            check(got[1] == want[2], 'feqc(%s, %s, %r): index %r instead of %d', x, f, level, got[1], want[2])
        return want is not None, labels + ['crossing' if want else 'none']
    if what == 'ifabsmm':
        with target('ifabsmm()'):
            low, high = h.ifabsmm(ax, af)
        for name, got, i in (('minimum', low, f.index(min(f))), ('maximum', high, f.index(max(f)))):
            want = vertex(x, f, i)
            scale = max(1.0, max(abs(v) for v in x))
            ref.same(list(got), list(want), 'ifabsmm(%s, %s): %s' % (x, f, name), 1e-9, 1e-10 * scale**2)
        inside = 0 < f.index(max(f)) < len(f) - 1 or 0 < f.index(min(f)) < len(f) - 1
        return inside, labels + ['inside' if inside else 'ends']
    if what == 'tau':
        # relaxation times: crossing of 1/e of the initial value
        # (an internal function: the relaxation times in files are checked below in any case)
        try:
            from atooms.postprocessing.fkt import _extract_tau
        except ImportError:
            raise Reject('no such function')
        t = [v - x[0] for v in x]
        with target('_extract_tau()'):
            got = _extract_tau([1.5], t, [f])
        level = f[0] * (1 / numpy.exp(1.0))
        want = crossing(t, f, level) if f[0] != level else None
        if want is None or f[0] == 0:
            check(got[1.5] is None, 'tau is %r without a crossing: %s', got[1.5], f)
        else:
            check(got[1.5] is not None and want[0] - 1e-9 <= got[1.5] <= want[1] + 1e-9, 'tau is %r instead of %r for %s', got[1.5], want[0], f)
        return want is not None, labels
    # fit
    with target('linear_fit()'):
        got = h.linear_fit(numpy.array(x), numpy.array(f))
    want = line(x, f)
    scale = max(1.0, max(abs(v) for v in x), max(abs(v) for v in f))
    ref.same(got[:2], want[:2], 'linear_fit(%s, %s)' % (x, f), 1e-8, 1e-10 * scale)
    # the variance is a difference of large numbers
    spread = max(x) - min(x)
    ref.same(got[2:], want[2:], 'errors of linear_fit(%s, %s)' % (x, f), 1e-5, 3e-6 * scale**2 / spread)
    return len(x) > 2 and case['shape'] != 'constant', labels


# ---------------------------------------------------------------------- analysis of the correlations

ANALYSED = ['msd', 'qst', 'alpha2', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy', 'fkt']


@st.composite
def analysis_cases(draw):
    kind = draw(st.sampled_from(ANALYSED + ['msd', 'qst']))
    dims = (2, 3) if kind in ('fskt', 'fskt_legacy', 'fkt') else (2, 3, 2, 3, 1, 4)
    case = draw(gen.trajectories(motion='walk', dims=dims, max_n=10, min_n=1, min_frames=3, max_frames=14, lo=20, hi=50, kinds=('even', 'even', 'blocks')))
    par = draw(lib.corr_pars(kind, case))
    total = (case['steps'][-1] - case['steps'][0]) * case['dt']
    m = draw(st.integers(3, 12))
    par['tgrid'] = [total * k / (m - 1) for k in range(m)]
    if kind == 'msd':
        case['sigma'] = round(case['amp'] * min(case['side']) * draw(st.integers(1, 30)) / 20., 5)
    case['par'] = par
    return case


def run_analysis(case):
    d = gen.Data(case)
    par, kind = case['par'], case['par']['kind']
    extra = {'sigma': case['sigma']} if kind == 'msd' else {}
    some = False
    with lib.scratch() as folder:
        # (atooms does not read files of one-dimensional systems)
        path = gen.xyz(d, os.path.join(folder, 'data.xyz')) if d.dim > 1 else None
        obj = lib.make(par, path if d.dim > 1 else gen.ram(d), **extra)
        with target('do()'):
            obj.do()
        result = dict(obj.analysis)
        if kind == 'msd':
            t, f = list(obj.grid), [float(v) for v in obj.value]
            level = case['sigma']**2
            want = crossing(t, f, level)
            got = result.get('diffusive time tau_D')
            check((got is None) == (want is None), 'diffusive time %r, crossing of sigma^2=%r at %s in %s', got, level, want, f)
            if want is not None:
                some = True
                check(want[0] * (1 - 1e-9) - 1e-9 <= got <= want[1] * (1 + 1e-9) + 1e-9, 'diffusive time %r instead of %r', got, want[0])
            pick = [k for k in range(len(f)) if f[k] > level]
            got = result.get('diffusion coefficient D')
            if len(pick) < 2:
                check(got is None, 'a diffusion coefficient from %d points', len(pick))
            else:
                want = line([t[k] for k in pick], [f[k] for k in pick])[0] / (2 * d.dim)
                scale = max(f) / (t[pick[-1]] - t[pick[0]])
                check(abs(got - want) < 1e-7 * (abs(want) + scale), 'diffusion coefficient %r instead of %r', got, want)
                some = True
        elif kind == 'qst':
            want = crossing(obj.grid, [float(v) for v in obj.value], 1 / math.e)
            got = result.get('tau')
            check((got is None) == (want is None), 'tau %r, crossing at %s', got, want)
            if want is not None:
                some = True
                check(want[0] - 1e-9 <= got <= want[1] + 1e-9, 'tau %r instead of %r', got, want[0])
        elif kind in ('alpha2', 'chi4', 'chi4_opt'):
            f = [float(v) for v in obj.value]
            if not all(math.isfinite(v) for v in f):
                raise Reject('not finite')
            i = f.index(max(f))
            want = vertex(list(obj.grid), f, i)
            names = ('t_star', 'a2_star') if kind == 'alpha2' else ('peak time tau_star', 'peak height chi4_star')
            got = [float(result[k]) for k in names]
            scale = max(1.0, max(obj.grid))
            bend = 1.0 if i in (0, len(f) - 1) else max(1.0, abs(f[i]) / max(1e-300, 2 * f[i] - f[i - 1] - f[i + 1]))
            if bend > 1e4:
                raise Reject('flat maximum')
            ref.same(got, want, 'maximum of %s' % kind, 1e-8 * bend, 1e-8 * scale * bend)
            some = 0 < i < len(f) - 1
        else:
            taus = result['relaxation times tau']
            ks, ts = obj.grid
            check(len(taus) == len(set(float(k) for k in ks)), '%d relaxation times for %d wave-numbers', len(taus), len(ks))
            rows = []
            with open(lib.output_name(obj, None, path) + '.tau') as fh:
                rows = [[float(y) for y in l.split()] for l in fh if not l.startswith('#')]
            check(len(rows) == len(taus), 'file of relaxation times has %d rows for %d', len(rows), len(taus))
            for (k, got), row in zip(taus.items(), rows):
                i = [float(q) for q in ks].index(float(k))
                if [float(q) for q in ks].count(float(k)) > 1:
                    raise Reject('equal wave-numbers')
                f = [float(v) for v in obj.value[i]]
                if not all(math.isfinite(v) for v in f):
                    raise Reject('not finite')
                want = crossing(ts, f, f[0] * (1 / math.e)) if f[0] else None
                check((got is None) == (want is None), 'tau(%r) is %r, crossing of 1/e at %s', k, got, want)
                check(abs(row[0] - k) < 1e-5 * abs(k) + 1e-12 and len(row) == (1 if got is None else 2), 'row %s of the relaxation times for k=%r', row, k)
                if want is not None:
                    some = True
                    check(want[0] - 1e-8 * (1 + want[0]) <= got <= want[1] + 1e-8 * (1 + want[1]), 'tau(%r) is %r instead of %r', k, got, want[0])
                    check(abs(row[1] - got) < 1e-5 * abs(got) + 1e-12, 'tau(%r) written as %r, is %r', k, row[1], got)
    return some, [kind, 'dim%d' % d.dim]


# ---------------------------------------------------------------------- grid of the MSD from a target displacement

@st.composite
def target_cases(draw):
    case = draw(gen.trajectories(motion='walk', dims=(2, 3, 2, 3, 1, 4), max_n=6, min_frames=3, max_frames=14, lo=20, hi=50, kinds=('even', 'even', 'blocks')))
    case['rmax'] = round(case['amp'] * min(case['side']) * draw(st.integers(1, 60)) / 20., 5) if draw(st.integers(0, 4)) else -1.0
    case['tsamples'] = draw(st.integers(2, 12))
    case['norigins'] = draw(gen.norigins)
    return case


def run_target(case):
    """Without a time grid: entries between 0 and the time at which the root of the MSD should reach rmax."""
    d = gen.Data(case)
    moved = ((d.unf[-1] - d.unf[0])**2).sum() / d.n
    if moved < 1e-9:
        raise Reject('no motion')
    obj = lib.pp().MeanSquareDisplacement(gen.ram(d), rmax=case['rmax'], tsamples=case['tsamples'], norigins=case['norigins'])
    lib.compute(obj)
    total = d.total_time
    top = min(total, case['rmax']**2 / moved * total) if case['rmax'] > 0 else total
    request = [top * k / (case['tsamples'] - 1) for k in range(case['tsamples'])]
    lags, table = lib.check_lags(d, list(obj.grid), request, case['norigins'], 'MSD with rmax=%r' % case['rmax'])
    ref.same(obj.value, lib.origin_average(table, lags, lambda i, j: ((d.unf[i] - d.unf[j])**2).sum() / d.n), 'MSD with a target displacement', 1e-8, 1e-10)
    return len(lags) > 1, ['rmax' if case['rmax'] > 0 else 'default']


PROP = Prop('P18', 'a crossing, an interior extremum, a fit of three or more points, a grid of three or more entries, an analysis that gives a value',
            [Sub('helpers', helper_cases, run_helper, quick=12000),
             Sub('analysis', analysis_cases, run_analysis, quick=2500),
             Sub('target', target_cases, run_target, quick=1000),
             Sub('sizes', gen.large(analysis_cases), run_analysis, quick=180, thorough=3600)],
            ['a curve that starts exactly at the level has no defined crossing',
             'the end point of logx_grid from zero is a known finding'])
