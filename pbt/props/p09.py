"""Four-point dynamic susceptibility."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', dims=(2, 2, 3, 3, 1, 4), max_n=9, max_frames=14, min_frames=3))
    case['par'] = {'kind': draw(st.sampled_from(['chi4', 'chi4_opt'])), 'norigins': draw(st.one_of(st.just(-1), gen.norigins)),
                   'tgrid': draw(gen.time_grids(case)), 'form': draw(lib.forms), 'a': draw(lib.cutoffs(case))}
    if case['par']['tgrid'] is None and (case['steps'][-1] - case['steps'][0]) * case['dt'] * 0.75 <= 1.0:
        case['par']['tgrid'] = [0.0]
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf', 'stored']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    case['still'] = draw(gen.stills(case))
    return case


def counts(x, a):
    def f(i, j):
        dist = numpy.sqrt(((x[j] - x[i])**2).sum(axis=1))
        if (numpy.abs(dist - a) < 1e-9).any():
            raise Reject('a displacement equal to the cutoff')
        return float((dist < a).sum())
    return f


def run(case):
    d = gen.Data(case)
    par, sp = case['par'], case['sp']
    idx = lib.sel_indices(d, sp)
    storage = case['storage']
    if storage == 'stored':
        d.store_unfolded = True
        d.unf = numpy.cumsum(d.unf, axis=0) * 0.7
        storage = 'pos'
    obj = lib.run(par, gen.ram(d, storage), [sp] if sp is not None else [])
    lags, table = lib.check_lags(d, obj.grid, par['tgrid'], par['norigins'], 'chi_4')
    w = counts(d.unf[:, idx], par['a'])
    first = [numpy.mean([w(i, j) for i, j in table[s]]) for s in lags]
    second = [numpy.mean([w(i, j)**2 for i, j in table[s]]) for s in lags]
    want = [(b - a**2) / len(idx) for a, b in zip(first, second)]
    ref.same(obj.value, want, 'chi_4(t)', 1e-7, 1e-9)
    ref.same(obj.average.value, first, 'average overlap', 1e-9)
    ref.same(obj.variance.value, second, 'second moment of the overlap', 1e-9)
    for other in (obj.average, obj.variance):
        ref.same(other.grid, obj.grid, 'grid of %s' % other.short_name)
    check(min(obj.value) > -1e-9, 'chi_4 is negative: %r', min(obj.value))
    if lags[0] == 0:
        check(abs(obj.value[0]) < 1e-9, 'chi_4 at zero lag is %r', obj.value[0])
    return max(want) > 1e-9, [par['kind'], case['storage'], 'dim%d' % d.dim, 'species' if sp else 'all',
                              'blocks' if ref.block_size(d.steps) > 1 else 'even']


@st.composite
def generic_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=7, max_frames=20, min_frames=7, kinds=('even',)))
    case['pars'] = {'which': draw(st.sampled_from(['SelfOverlap', 'MeanSquareDisplacement'])), 'a': draw(lib.cutoffs(case)),
                    'norigins': draw(st.sampled_from([-1, -1, None, 4, 6, 8, 12, 0.5, 0.3])),
                    'last': draw(st.integers(2, max(1, (len(case['steps']) - 1) // 2))), 'every': draw(st.integers(1, 3))}
    return case


def run_generic(case):
    """The generic susceptibility is the variance over single-origin estimates times the number of particles."""
    d, par = gen.Data(case), case['pars']
    gap = d.steps[1] - d.steps[0]
    frames = sorted(set(list(range(0, par['last'] + 1, par['every'])) + [par['last']]))
    tgrid = [m * gap * d.dt for m in frames]
    cls = getattr(lib.pp(), par['which'])
    kw = {'tgrid': tgrid}
    if par['which'] == 'SelfOverlap':
        kw['a'] = par['a']
        one = lambda i, j: counts(d.unf, par['a'])(i, j) / d.n
    else:
        one = lambda i, j: float(((d.unf[j] - d.unf[i])**2).sum() / d.n)
    with target('Susceptibility'):
        obj = lib.pp().Susceptibility(cls, gen.ram(d), norigins=par['norigins'], **kw)
        obj.compute()
    skip = ref.skip(d.steps, par['norigins'])
    if len(obj.grid) == 0:
        # with few frames no origin is left
        check(int(d.frames * frames[-1] / (d.frames - 1.)) - skip <= 1, 'no value although there are enough frames')
        raise Reject('too few frames for the generic susceptibility')
    ref.same(obj.grid, tgrid, 'grid of the generic susceptibility')
    for most in range(1, d.frames + 1):
        want = [d.n * numpy.var([one(i, i + m) for i in range(0, most, skip) if i + m < d.frames]) for m in frames]
        if numpy.allclose(obj.value, want, rtol=1e-6, atol=1e-9):
            break
    else:
        ref.same(obj.value, want, 'generic susceptibility of %s for any number of origins (largest shown)' % par['which'], 1e-6, 1e-9)
    return max(want) > 1e-9, [par['which'], 'skip%d' % min(skip, 3)]


PROP = Prop('P09', 'the variance is positive at some lag',
            [p13.units('chi4', 'chi4_opt'),
             Sub('chi4', cases, run, quick=6000), Sub('generic', generic_cases, run_generic, quick=2400),
             Sub('sizes', gen.large(cases), run, quick=480, thorough=9600)],
            ['evenly spaced or block-periodic steps', 'cases with a displacement equal to the cutoff within 1e-9 are skipped'])
