"""Selection of wave-vectors."""
import math

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

KINDS = ['sk', 'sk_fast', 'fskt', 'fskt_legacy', 'fkt']


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=5, max_frames=3, lo=20, hi=60, kinds=('even',)))
    k0 = 2 * math.pi / max(case['side'])
    par = {'kind': draw(st.sampled_from(KINDS)), 'norigins': draw(st.sampled_from([-1, 1, 2])),
           'nk': draw(st.sampled_from([1, 2, 3, 5, 8, 20, 100])),
           'dk': round(k0 * draw(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.6, 1.0])), 6)}
    mode = draw(st.sampled_from(['grid', 'grid', 'negative', 'default', 'default_kmin']))
    if mode in ('grid', 'negative'):
        ks = draw(st.lists(st.integers(2, 45), min_size=1, max_size=5, unique=True))
        par['kgrid'] = [round(k0 * k / 10., 6) for k in ks]
        if mode == 'negative':
            par['kgrid'][draw(st.integers(0, len(ks) - 1))] = draw(st.sampled_from([-1, -1.0, -0.5]))
    else:
        par['kgrid'] = None
        par['ksamples'] = draw(st.integers(1, 5))
        par['kmax'] = round(k0 * draw(st.integers(20, 45)) / 10., 6)
        par['kmin'] = -1.0 if mode == 'default' else round(k0 * draw(st.integers(5, 19)) / 10., 6)
    if par['kind'] in ('fskt', 'fskt_legacy', 'fkt'):
        par['tgrid'] = [0.0]
    case['par'] = par
    case['mode'] = mode
    case['sp'] = draw(st.sampled_from(case['species']))
    case['kind2'] = draw(st.sampled_from(KINDS))
    case['later'] = draw(st.sampled_from(['', '', 'kgrid', 'grid']))
    return case


def requested(par, side):
    k0 = 2 * math.pi / numpy.asarray(side)
    if par['kgrid'] is None:
        lo = par['kmin'] if par['kmin'] > 0 else min(k0)
        m = par['ksamples']
        return [lo + i * (par['kmax'] - lo) / (m - 1) if m > 1 else lo for i in range(m)]
    ks = sorted(par['kgrid'])
    if ks[0] < 0:
        ks[0] = min(k0)
    return ks


def kvar(obj):
    """Reported wave-numbers of the object."""
    names = obj.grid_name
    return list(obj.grid) if len(names) == 1 else list(obj.grid[names.index('k')])


def run(case):
    d = gen.Data(case)
    par = dict(case['par'])
    want = requested(par, d.side)
    shells, dks = lib.available_shells(want, par['dk'], d.side)
    cls, kw = lib.cls_args(par)
    for key in ('ksamples', 'kmin', 'kmax'):
        if key in par:
            kw[key] = par[key]
    given = kw['kgrid']
    later = given is not None and case['later']
    if later:
        kw.pop('kgrid')
    with target('%s()' % cls.__name__):
        obj = cls(gen.ram(d), **kw)
        if later and case['later'] == 'grid' and len(obj.grid_name) == 1:
            obj.grid = given
        elif later:
            obj.kgrid = given
    lib.compute(obj)
    check((given is None and par['kgrid'] is None) or list(given) == par['kgrid'], 'the list of wave-numbers given by the caller was changed to %s', given)
    got = lib.integer_kvectors(obj, d.side)
    grid = kvar(obj)
    check(len(got) == len(want) == len(grid), '%d shells and %d grid points for %d requested wave-numbers', len(got), len(grid), len(want))
    k0 = 2 * math.pi / d.side
    for i, vecs in enumerate(got):
        avail = set(shells[i])
        check(len(set(vecs)) == len(vecs), 'shell %d (k=%r) repeats a wave-vector', i, want[i])
        for v in vecs:
            check(v in avail, 'shell %d (k=%r, width %r): wave-vector %s with norm %r does not belong to it', i, want[i], dks[i], v,
                  float(numpy.linalg.norm(k0 * v)))
        check(len(vecs) == min(par['nk'], len(avail)), 'shell %d (k=%r) has %d wave-vectors, expected %d of the %d available', i,
              want[i], len(vecs), min(par['nk'], len(avail)), len(avail))
        mean = numpy.mean([numpy.linalg.norm(k0 * v) for v in vecs])
        check(abs(grid[i] - mean) < 1e-9, 'grid point %d is %r, the mean norm of its wave-vectors is %r', i, grid[i], mean)
    # the same selection for other classes, for a species, for another object and for a second call
    par2 = {k: v for k, v in par.items() if k not in ('kind', 'tgrid')}
    par2['kind'] = case['kind2']
    if case['kind2'] in ('fskt', 'fskt_legacy', 'fkt'):
        par2['tgrid'] = [0.0]
    other = lib.run(par2, gen.ram(d), [case['sp']])
    check(lib.integer_kvectors(other, d.side) == got, 'the wave-vectors depend on the class (%s, %s) or on the species', par['kind'], par2['kind'])
    with target('second compute()'):
        obj.compute()
    check(lib.integer_kvectors(obj, d.side) == got, 'the wave-vectors change when computing again')
    # report
    with target('report()'):
        lines = [ln for ln in obj.report().split('\n') if ln and not ln.startswith('#')]
        text = obj.report(verbose=True)
    check([int(float(ln.split()[-1])) for ln in lines] == [len(v) for v in got], 'report() gives %s vectors per shell, expected %s',
          [ln.split()[-1] for ln in lines], [len(v) for v in got])
    for i, (ln, vecs) in enumerate(zip(lines, got)):
        norms = [numpy.linalg.norm(k0 * v) for v in vecs]
        x = [float(y) for y in ln.split()]
        check(abs(x[0] - grid[i]) < 1e-9 and abs(x[1] - numpy.mean(norms)) < 1e-5 and abs(x[2] - numpy.std(norms)) < 1e-5,
              'report() gives %s for shell %d with norms %s', ln, i, norms)
    if case['kind2'] in ('sk', 'fkt'):
        # the detailed report lists all wave-vectors, after the summary
        rows = [[float(y) for y in ln.split()] for ln in text.split('\n') if ln and not ln.startswith('#')][len(lines):]
        want = [[grid[i]] + list(k0 * v) for i, vecs in enumerate(got) for v in vecs]
        check(len(rows) == len(want), 'report(verbose=True) lists %d wave-vectors of %d', len(rows), len(want))
        ref.same(rows, want, 'wave-vectors of report(verbose=True)', 1e-6, 1e-6)
        # what was reported can be given back
        again = lib.make(par, gen.ram(d))
        with target('setting kvectors'):
            again.kvectors = obj.kvectors
        lib.compute(again)
        lib.same_result(again, obj, 'with the reported wave-vectors')
    enlarged = any(abs(w - par['dk']) > 1e-12 for w in dks)
    cut = any(len(s) > par['nk'] for s in shells)
    return len(set(d.side)) > 1 or enlarged or cut or len(want) > 1, [
        case['mode'], 'grid set later' if later else 'grid as argument', 'dim%d' % d.dim, 'enlarged' if enlarged else 'as requested', 'decimated' if cut else 'complete',
        'cubic' if len(set(d.side)) == 1 else 'anisotropic']


@st.composite
def setter_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=6, max_frames=3, lo=20, hi=60, kinds=('even',), dims=(2, 3, 2, 3, 1, 4)))
    top = draw(st.sampled_from([4, 4, 4, 40, 200])) if case['dim'] < 4 else 4
    vec = st.lists(st.integers(-top, top), min_size=case['dim'], max_size=case['dim'])
    case['vecs'] = draw(st.lists(st.lists(vec, min_size=1, max_size=4), min_size=1, max_size=3))
    case['kind'] = draw(st.sampled_from(['sk', 'sk_fast', 'fskt', 'fkt']))
    case['as_array'] = draw(st.booleans())
    case['jitter'] = draw(st.sampled_from([0.0, 1e-9]))
    return case


def run_setter(case):
    d = gen.Data(case)
    k0 = 2 * math.pi / d.side
    vecs = [[tuple(v) for v in shell] for shell in case['vecs']]
    par = {'kind': case['kind'], 'norigins': -1, 'kgrid': [k0[0]], 'nk': 1, 'dk': 0.1}
    if case['kind'] in ('fskt', 'fkt'):
        par.update(tgrid=[0.0, d.total_time], normalize=False)
    obj = lib.make(par, gen.ram(d))
    given = [[numpy.array(v) * k0 * (1 + case['jitter']) for v in shell] for shell in vecs]
    if not case['as_array']:
        given = [[list(v) for v in shell] for shell in given]
    with target('setting kvectors'):
        obj.kvectors = given
    lib.compute(obj)
    check(lib.integer_kvectors(obj, d.side) == vecs, 'reported wave-vectors %s differ from those given %s', obj.kvectors, given)
    grid = kvar(obj)
    ref.same(grid, [numpy.mean([numpy.linalg.norm(k0 * v) for v in shell]) for shell in vecs], 'grid of given wave-vectors')
    if case['kind'] in ('sk', 'sk_fast'):
        want = [numpy.mean([[abs(ref.rho_k(d.pos[i], k0 * v))**2 for v in shell] for i in range(d.frames)]) / d.n for shell in vecs]
        ref.same(obj.value, want, 'S(k) at given wave-vectors', 1e-8)
    elif case['kind'] == 'fkt':
        want = [numpy.mean([[abs(ref.rho_k(d.pos[i], k0 * v))**2 for v in shell] for i in range(d.frames)]) for shell in vecs]
        ref.same([row[0] for row in obj.value], want, 'F(k,0) at given wave-vectors', 1e-8)
    else:
        pair = d.pos[-1] - d.pos[0]
        want = [numpy.mean([numpy.cos(pair @ (k0 * v)) for v in shell]) for shell in vecs]
        ref.same([row[-1] for row in obj.value], want, 'F_s(k,t) at given wave-vectors', 1e-8, 1e-8)
    return any(any(any(v) for v in s) for s in vecs), [case['kind'], 'dim%d' % d.dim, 'array' if case['as_array'] else 'list']


PROP = Prop('P04',
            'anisotropic cell, enlarged or decimated shell, or several wave-numbers; for given wave-vectors: at least one is not zero',
            [Sub('selection', cases, run, quick=2400),
             Sub('given', setter_cases, run_setter, quick=1500),
             Sub('sizes', gen.large(cases), run, quick=150, thorough=3000)],
            ['which vectors of a larger shell are drawn is free, as long as it is the same for every calculation',
             'cases with a wave-vector within rounding of a shell boundary are skipped'])
