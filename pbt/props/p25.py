"""Generic time-correlation helpers."""
import os
import subprocess
import sys

import numpy
from hypothesis import strategies as st

from .. import env, gen, ref
from ..core import Prop, Sub, check, child_env, target


@st.composite
def cases(draw):
    n = draw(st.integers(1, 20))
    which = draw(st.sampled_from(['acf', 'gcf', 'gcf_offset']))
    time = draw(st.sampled_from(['even', 'even', 'uneven', 'blocks']))
    if time == 'even':
        gap = draw(st.sampled_from([1, 2, 5, 0.5]))
        t = [i * gap for i in range(n)]
    elif time == 'blocks':
        t, cur = [], 0
        for i in range(n):
            t.append(cur)
            cur += [1, 2, 4][i % 3]
    else:
        t = [0]
        for _ in range(n - 1):
            t.append(t[-1] + draw(st.integers(1, 5)))
    shape = [] if which == 'acf' else draw(st.sampled_from([[], [1], [3], [4, 3], [2, 2]]))
    case = {'which': which, 't': t, 'shape': shape, 'skip': draw(st.integers(1, n + 1)),
            'x': gen.hexdata(draw, n * max(1, int(numpy.prod(shape)))), 'array': draw(st.booleans()),
            'offset': draw(st.sampled_from([0.0, 0.0, 1.0, -3.0]))}
    lags = st.lists(st.integers(0, n + 2), min_size=1, max_size=8, unique=draw(st.integers(0, 3)) > 0)
    if which == 'gcf_offset':
        case['grid'] = [[draw(st.integers(0, n - 1)), i] for i in draw(lags)]
    else:
        case['grid'] = draw(lags)
    # times and values in any units (powers of two: equal time differences stay equal)
    case['unit'] = draw(st.sampled_from([0, 0, 0, -40, -30, -13, -3, 17, 30]))
    case['scale'] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-3, 1e6]))
    case['f'] = draw(st.sampled_from(['msd', 'product', 'asymmetric']))
    return case


FUNCS = {
    'msd': lambda x, y: float(numpy.sum((x - y)**2)),
    'product': lambda x, y: float(numpy.sum(x * y)),
    'asymmetric': lambda x, y: float(numpy.sum(x * x * y) + numpy.sum(x)),
}


def series(case):
    n, shape = len(case['t']), case['shape']
    size = max(1, int(numpy.prod(shape)))
    return 4 * (gen.decode(case['x'], (n, size)).reshape([n] + shape) - 0.5) + case['offset']


def reference(grid, skip, t, x, f):
    """{lag: values of all pairs}"""
    out = {}
    for off, i in grid:
        for i0 in range(off, len(x) - i, skip):
            out.setdefault(t[i0 + i] - t[i0], []).append(f(x[i0 + i], x[i0]))
    return out


def run(case):
    from atooms.postprocessing import correlation
    which, t, skip = case['which'], [s * 2.0**case['unit'] if case['unit'] else s for s in case['t']], case['skip']
    x = series(case) * case['scale']
    keep = x.copy()
    arg = x if case['array'] or which == 'acf' else list(x)
    f = FUNCS[case['f']]
    with target(which):
        if which == 'acf':
            res = correlation.acf(list(case['grid']), skip, list(t), arg)
        else:
            grid = [tuple(g) for g in case['grid']] if which == 'gcf_offset' else list(case['grid'])
            res = getattr(correlation, which)(f, grid, skip, list(t), arg)
    check(numpy.array_equal(keep, x), '%s changed its input', which)
    grid = [tuple(g) for g in case['grid']] if which == 'gcf_offset' else [(0, i) for i in case['grid']]
    if which == 'acf':
        want = acf_reference(grid, skip, t, x)
    else:
        want = reference(grid, skip, t, x, f)
    times = sorted(want)
    check(len(res[0]) == len(res[1]) == len(times), '%s: %d times, %d values, expected times %s', which, len(res[0]), len(res[1]), times)
    ref.same(res[0], times, which + ' (times)', 1e-12, 0)
    size = max([float(numpy.mean(numpy.abs(v))) for v in want.values()] or [0.0])
    ref.same(res[1], [numpy.mean(want[s]) for s in times], which, 1e-8, 1e-8 * min(1.0, max(size, numpy.abs(x).max()**2)))
    if len(res) > 2:
        cnt = res[2]
        cnt = [cnt[s] for s in res[0]] if isinstance(cnt, dict) else list(cnt)
        check([int(c) for c in cnt] == [len(want[s]) for s in times], '%s: counts %s, expected %s', which, cnt, [len(want[s]) for s in times])
    many = max([len(v) for v in want.values()] or [0])
    return many > 1 and len(times) > 1, [which, 'array' if case['array'] else 'list', 'rank %d' % len(case['shape']),
                                         'uneven' if len(set(numpy.round(numpy.diff(t), 9))) > 1 else 'even', case['f'], 'unit 2^%d' % case['unit']]


def acf_reference(grid, skip, t, x):
    """Products of the fluctuations around the average over the series."""
    y = numpy.array(x, dtype=float)
    y = y - y.mean(axis=0)
    return reference(grid, skip, t, y, lambda a, b: float(numpy.sum(a * b)))


# ---------------------------------------------------------------------- the script

@st.composite
def script_cases(draw):
    n = draw(st.integers(2, 60))
    return {'x': gen.hexdata(draw, n), 'n': n, 'style': draw(st.sampled_from(['plain', 'comments', 'exponent']))}


def run_script(case):
    x = 4 * (gen.decode(case['x'], (case['n'],)) - 0.5)
    fmt = '%.12e' if case['style'] == 'exponent' else '%.12f'
    text = '\n'.join(fmt % v for v in x) + '\n'
    if case['style'] == 'comments':
        text = '# a comment\n' + text
    x = numpy.array([float(fmt % v) for v in x])
    code = '''
import sys
sys.path.insert(0, %r)
from pbt import env
env.setup()
import runpy
runpy.run_path(%r, run_name="__main__")
''' % (env.VERIF, env.REPO + '/bin/acf.py')
    res = subprocess.run([sys.executable, '-c', code], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env())
    check(res.returncode == 0, 'acf.py fails: %s', res.stderr.decode(errors='replace')[-500:])
    rows = [[float(v) for v in line.split()] for line in res.stdout.decode().splitlines() if line.strip()]
    want = acf_reference([(0, i) for i in range(0, len(x), 10)], 1, list(range(len(x))), x)
    times = sorted(want)
    check(len(rows) == len(times), 'acf.py prints %d rows instead of %d', len(rows), len(times))
    ref.same([r[0] for r in rows], times, 'times of acf.py')
    ref.same([r[1] for r in rows], [numpy.mean(want[s]) for s in times], 'values of acf.py', 1e-7, 1e-7)
    return len(times) > 1, [case['style']]


PROP = Prop('P25', 'two lags or more and a lag with several pairs; two rows or more printed',
            [Sub('helpers', cases, run, quick=12000),
             Sub('script', script_cases, run_script, quick=36, thorough=300)],
            ['series of at most 20 entries (helpers) and 60 (script)',
             'times are such that equal differences are equal numbers (as the steps of a trajectory)'])
