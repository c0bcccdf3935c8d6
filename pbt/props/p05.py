"""Self intermediate scattering function."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13

CLASSES = ['fskt', 'fskt_legacy', 'fskt_fast']


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=8, max_frames=12, lo=20, hi=50))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind=draw(st.sampled_from(CLASSES)),
                       norigins=draw(gen.norigins), tgrid=draw(gen.time_grids(case)), normalize=draw(st.sampled_from([True, True, False])))
    if case['par']['tgrid'] is None and (case['steps'][-1] - case['steps'][0]) * case['dt'] * 0.75 <= 1.0:
        case['par']['tgrid'] = [0.0]
    if case['par']['kind'] != 'fskt_legacy':
        case['par']['lookup_mb'] = draw(st.sampled_from([64.0, 64.0, 1e-6, 0.002, 0.01]))
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf']))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    return case


def expected(d, x, kvecs, table, lags):
    """<cos k.(r(t0+t)-r(t0))> over particles, wave-vectors and origins."""
    kv = numpy.asarray(kvecs, dtype=float)
    out = []
    for s in lags:
        out.append(numpy.mean([numpy.cos((x[j] - x[i]) @ kv.T).mean() for i, j in table[s]]))
    return numpy.array(out)


def run(case):
    d = gen.Data(case)
    par, sp = case['par'], case['sp']
    idx = lib.sel_indices(d, sp)
    obj = lib.run(par, gen.ram(d, case['storage']), [sp] if sp is not None else [])
    shells = lib.shared_kvectors(obj)
    grid_k, times = obj.grid
    check(len(grid_k) == len(shells) == len(obj.value) == len(par['kgrid']), 'F_s: %d wave-numbers, %d shells, %d rows for %d requested',
          len(grid_k), len(shells), len(obj.value), len(par['kgrid']))
    for k, kl in zip(grid_k, shells):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of its vectors', k)
    requested = par['tgrid']
    if requested is not None and par['normalize'] and requested[0] > 0:
        requested = [0.0] + list(requested)
    lags, table = lib.check_lags(d, times, requested, par['norigins'], 'F_s')
    x = d.unf[:, idx]
    for kl, row in zip(shells, obj.value):
        want = expected(d, x, kl, table, lags)
        ref.same(row, want, 'F_s(k,t)', 1e-8, 1e-8)
        if lags and lags[0] == 0:
            check(abs(row[0] - 1) < 1e-12, 'F_s(k,0) is %r', row[0])
    return d.frames > 2 and len(lags) > 1, [par['kind'], 'dim%d' % d.dim, 'species' if sp else 'all', case['storage'],
                                            'blocks' if ref.block_size(d.steps) > 1 else 'even',
                                            'normalized' if par['normalize'] else 'plain']


@st.composite
def many_cases(draw):
    """More particles than fit in one block of the tabulation."""
    case = draw(gen.trajectories(motion='walk', max_n=50, min_n=15, max_frames=4, min_frames=2, lo=20, hi=40))
    case['par'] = dict(draw(lib.fourier_pars(case, max_k=2, max_nk=4, top=2.5)), norigins=-1,
                       tgrid=[0.0, (case['steps'][-1] - case['steps'][0]) * case['dt'] / 2.])
    case['lookup_mb'] = draw(st.sampled_from([64.0, 1e-6, 0.003, 0.01, 0.03]))
    return case


@st.composite
def large_cases(draw):
    """Hundreds to thousands of particles (tabulated in blocks)."""
    case = draw(gen.trajectories(motion='walk', max_n=draw(st.sampled_from([260, 700, 1100, 2300])), min_n=190, max_frames=3, min_frames=2, lo=40, hi=80,
                                 kinds=('even',)))
    case['par'] = dict(draw(lib.fourier_pars(case, max_k=1, max_nk=2, top=2.0)), norigins=-1,
                       tgrid=[0.0, (case['steps'][-1] - case['steps'][0]) * case['dt']])
    case['lookup_mb'] = draw(st.sampled_from([64.0, 0.003, 0.1, 1.0]))
    return case


def run_many(case):
    d = gen.Data(case)
    out = []
    for kind in CLASSES:
        par = dict(case['par'], kind=kind)
        if kind != 'fskt_legacy':
            par['lookup_mb'] = case['lookup_mb']
        out.append(lib.run(par, gen.ram(d)))
    lags, table = lib.check_lags(d, out[0].grid[1], case['par']['tgrid'], -1, 'F_s')
    for kl, row in zip(lib.shared_kvectors(out[0]), out[0].value):
        ref.same(row, expected(d, d.unf, kl, table, lags), 'F_s(k,t)', 1e-8, 1e-8)
    for o, kind in zip(out[1:], CLASSES[1:]):
        lib.same_result(out[0], o, 'F_s by %s and %s' % (CLASSES[0], kind), 1e-9, 1e-9)
    return d.n > 20 and len(lags) > 1, ['dim%d' % d.dim, 'more than a block' if d.n > 20 else 'one block']


@st.composite
def explicit_cases(draw):
    """Wave-vectors given by the user, up to hundreds of times the smallest one, in any dimension."""
    case = draw(gen.trajectories(motion='walk', max_n=5, max_frames=4, min_frames=2, lo=20, hi=50, dims=(1, 2, 3, 4)))
    case['kvectors'] = draw(lib.vector_lists(case['dim']))
    case['kind'] = draw(st.sampled_from(CLASSES))
    return case


def run_explicit(case):
    d = gen.Data(case)
    times = [d.case['dt'] * (s - d.steps[0]) for s in d.steps]
    obj, kvec = lib.explicit({'kind': case['kind'], 'tgrid': times, 'norigins': -1}, gen.ram(d), [], case['kvectors'], d.side)
    lib.compute(obj)
    lags, table = lib.check_lags(d, obj.grid[1], times, -1, 'F_s')
    for kl, row in zip(kvec, obj.value):
        # (the phases are powers of the one of the smallest wave-vector)
        ref.same(row, expected(d, d.unf, kl, table, lags), 'F_s(k,t) at %s' % (case['kvectors'],), 1e-7, 1e-7)
    return d.frames > 2 and len(lags) > 1, [case['kind'], 'dim%d' % d.dim, 'far' if numpy.abs(numpy.concatenate(case['kvectors'])).max() > 60 else 'near']


PROP = Prop('P05',
            'three frames or more and two lags reported; more than 20 particles for the check of blocks',
            [p13.units('fskt', 'fskt_legacy'),
             Sub('fskt', cases, run, quick=4500),
             Sub('blocks', many_cases, run_many, quick=900),
             Sub('explicit', explicit_cases, run_explicit, quick=500),
             Sub('large', large_cases, run_many, quick=100, thorough=1500),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['wave-vectors are those the object reports (their selection is P04)', 'evenly spaced or block-periodic steps',
             'moves below half a side'])
