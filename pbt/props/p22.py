"""Four-point dynamic structure factor."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=8, max_frames=12, min_frames=2, lo=20, hi=50))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind='s4kt', norigins=draw(st.one_of(st.just(-1), gen.norigins)),
                       tgrid=draw(gen.time_grids(case, allow_none=False)), a=draw(lib.cutoffs(case)))
    if draw(st.integers(0, 3)) == 0:
        k0 = 2 * numpy.pi / max(case['side'])
        case['par'].update(kgrid=None, kmin=draw(st.sampled_from([-1.0, round(k0 * 1.2, 6)])), kmax=round(k0 * 3.1, 6), ksamples=draw(st.integers(1, 4)))
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf', 'stored']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    return case


@st.composite
def explicit_cases(draw):
    """Wave-vectors given by the user, in any dimension."""
    case = draw(gen.trajectories(motion='walk', max_n=6, max_frames=8, min_frames=2, lo=20, hi=50, dims=(1, 2, 3, 4)))
    case['kvectors'] = draw(lib.vector_lists(case['dim']))
    case['par'] = dict(kind='s4kt', norigins=draw(st.one_of(st.just(-1), gen.norigins)), tgrid=draw(gen.time_grids(case, allow_none=False)),
                       a=draw(lib.cutoffs(case)))
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf', 'stored']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    return case


def run(case):
    d = gen.Data(case)
    par, sp, storage = case['par'], case['sp'], case['storage']
    idx = lib.sel_indices(d, sp)
    if storage == 'stored':
        d.store_unfolded = True
        storage = 'pos'
    if case.get('kvectors'):
        obj, shells = lib.explicit(par, gen.ram(d, storage), [sp] if sp is not None else [], case['kvectors'], d.side)
        lib.compute(obj)
        shells = [numpy.array(kl) for kl in shells]
    else:
        obj = lib.run(par, gen.ram(d, storage), [sp] if sp is not None else [])
        shells = lib.shared_kvectors(obj)
        lib.integer_kvectors(obj, d.side)
    times, grid_k = obj.grid
    check(len(grid_k) == len(shells), 'S_4: %d wave-numbers for %d shells', len(grid_k), len(shells))
    if par.get('kgrid') is not None:
        check(len(grid_k) == len(par['kgrid']), 'S_4: %d wave-numbers for %d requested', len(grid_k), len(par['kgrid']))
    for k, kl in zip(grid_k, shells):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of its vectors', k)
    lags, table = lib.check_lags(d, times, par['tgrid'], par['norigins'], 'S_4')
    x = d.unf[:, idx]
    check(len(obj.value) == len(lags), 'S_4: %d rows for %d times', len(obj.value), len(lags))
    top = 0.0
    for s, row in zip(lags, obj.value):
        w = []
        for i, j in table[s]:
            dist = numpy.sqrt(((x[j] - x[i])**2).sum(axis=1))
            if (numpy.abs(dist - par['a']) < 1e-9).any():
                raise Reject('a displacement equal to the cutoff')
            w.append([[ref.rho_k(x[i], kv, (dist < par['a']).astype(float)) for kv in kl] for kl in shells])
        want = []
        for m in range(len(shells)):
            z = numpy.array([v[m] for v in w])      # origins x wave-vectors
            var = (numpy.abs(z)**2).mean(axis=0) - numpy.abs(z.mean(axis=0))**2
            want.append(var.mean() / len(idx))
        ref.same(row, want, 'S_4(t,k) at lag %d' % s, 1e-7, 1e-8)
        top = max([top] + want)
    origins = max(len(table[s]) for s in lags)
    return top > 1e-9, [case['storage'], 'dim%d' % d.dim, 'species' if sp else 'all', 'origins' if origins > 1 else 'one origin',
                        'blocks' if ref.block_size(d.steps) > 1 else 'even', 'explicit' if case.get('kvectors') else 'range' if par['kgrid'] is None else 'grid']


PROP = Prop('P22', 'the variance over origins is positive at some wave-number and time',
            [p13.units('s4kt'),
             Sub('s4kt', cases, run, quick=4500),
             Sub('explicit', explicit_cases, run, quick=500),
             Sub('sizes', gen.large(cases), run, quick=360, thorough=7200)],
            ['wave-vectors are those the object reports (their selection is P04)', 'evenly spaced or block-periodic steps',
             'moves below half a side', 'cases with a displacement equal to the cutoff within 1e-9 are skipped'])
