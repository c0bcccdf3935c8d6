"""Coherent intermediate scattering function."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=9, max_frames=10, lo=20, hi=50, variable_n=True))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind='fkt',
                       norigins=draw(gen.norigins), tgrid=draw(gen.time_grids(case)), normalize=draw(st.booleans()))
    if case['par']['tgrid'] is None and (case['steps'][-1] - case['steps'][0]) * case['dt'] * 0.75 <= 1.0:
        case['par']['tgrid'] = [0.0]
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf']))
    case['groups'] = draw(lib.group_choices(case))
    return case


@st.composite
def large_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=300, min_n=40, max_frames=5, min_frames=3, lo=40, hi=80))
    case['par'] = dict(draw(lib.fourier_pars(case, max_k=2, max_nk=4, top=6.0)), kind='fkt', norigins=draw(gen.norigins),
                       tgrid=draw(gen.time_grids(case, allow_none=False)), normalize=draw(st.booleans()))
    case['storage'] = draw(st.sampled_from(['pos', 'unf']))
    case['groups'] = draw(lib.group_choices(case))
    return case


def run(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    fa, fb, same_group = lib.group_frames(d, groups, case['storage'])
    obj = lib.run(par, gen.ram(d, case['storage']), groups)
    shells = lib.shared_kvectors(obj)
    grid_k, times = obj.grid
    check(len(grid_k) == len(shells) == len(obj.value) == len(par['kgrid']), 'F: %d wave-numbers, %d shells, %d rows for %d requested',
          len(grid_k), len(shells), len(obj.value), len(par['kgrid']))
    requested = par['tgrid']
    if requested is not None and par['normalize'] and requested[0] > 0:
        requested = [0.0] + list(requested)
    lags, table = lib.check_lags(d, times, requested, par['norigins'], 'F')
    compared = False
    for k, kl, row in zip(grid_k, shells, obj.value):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of its vectors', k)
        ra = [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fa]
        rb = ra if same_group else [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fb]
        want = [numpy.mean([(ra[j] * rb[i].conj()).real.mean() for i, j in table[s]]) for s in lags]
        if par['normalize']:
            if abs(want[0]) < 1e-3:
                continue        # the value at t=0 vanishes: nothing to compare
            want = [w / want[0] for w in want]
        ref.same(row, want, 'F(k,t)', 1e-7, 1e-7)
        compared = True
    return compared and d.frames > 2 and len(lags) > 1, [
        'dim%d' % d.dim, lib.GROUP_LABELS[len(groups)], 'normalized' if par['normalize'] else 'plain',
        'blocks' if ref.block_size(d.steps) > 1 else 'even', 'counts vary' if len(set(d.counts)) > 1 else 'fixed N']


@st.composite
def sum_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=9, min_n=2, max_frames=6, lo=20, hi=50, min_species=2))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind='fkt', norigins=draw(gen.norigins),
                       tgrid=draw(gen.time_grids(case, allow_none=False)), normalize=False)
    return case


def run_sum(case):
    d = gen.Data(case)
    names = lib.species(d)
    total = lib.run(case['par'], gen.ram(d))
    sums = 0
    for a in names:
        for b in names:
            f = lib.run(case['par'], gen.ram(d), [a] if a == b else [a, b])
            ref.same(f.grid[1], total.grid[1], 'times of F_ab')
            ref.same(f.grid[0], total.grid[0], 'wave-numbers of F_ab')
            sums = sums + numpy.array(f.value)
    ref.same(sums, numpy.array(total.value), 'sum of F_ab', 1e-7, 1e-7)
    return len(names) > 1 and d.frames > 1, ['dim%d' % d.dim, '%d species' % len(names)]


@st.composite
def explicit_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=6, max_frames=4, min_frames=2, lo=20, hi=50, variable_n=True, dims=(1, 2, 3, 4)))
    case['kvectors'] = draw(lib.vector_lists(case['dim']))
    case['normalize'] = draw(st.booleans())
    case['groups'] = draw(lib.group_choices(case))
    return case


def run_explicit(case):
    d = gen.Data(case)
    groups = case['groups']
    fa, fb, same_group = lib.group_frames(d, groups)
    times = [d.case['dt'] * (s - d.steps[0]) for s in d.steps]
    obj, kvec = lib.explicit({'kind': 'fkt', 'tgrid': times, 'norigins': -1, 'normalize': case['normalize']}, gen.ram(d), groups, case['kvectors'], d.side)
    lib.compute(obj)
    check(len(obj.value) == len(obj.grid[0]) == len(kvec), 'F: %d rows for %d groups of wave-vectors', len(obj.value), len(kvec))
    lags, table = lib.check_lags(d, obj.grid[1], times, -1, 'F')
    compared = False
    for kl, row in zip(kvec, obj.value):
        ra = [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fa]
        rb = ra if same_group else [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fb]
        want = [numpy.mean([(ra[j] * rb[i].conj()).real.mean() for i, j in table[s]]) for s in lags]
        if case['normalize']:
            if abs(want[0]) < 1e-3:
                continue
            want = [w / want[0] for w in want]
        ref.same(row, want, 'F(k,t) at %s' % (case['kvectors'],), 1e-7, 1e-7)
        compared = True
    return compared and len(lags) > 1, ['dim%d' % d.dim, lib.GROUP_LABELS[len(groups)], 'normalized' if case['normalize'] else 'plain']


PROP = Prop('P06',
            'three frames or more and two lags reported with a value at t=0 that does not vanish; several species for the sum',
            [p13.units('fkt'),
             Sub('fkt', cases, run, quick=4500),
             Sub('explicit', explicit_cases, run_explicit, quick=600),
             Sub('sum', sum_cases, run_sum, quick=900),
             Sub('large', large_cases, run, quick=150, thorough=3000),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['wave-vectors are those the object reports (their selection is P04)', 'evenly spaced or block-periodic steps',
             'normalised functions are compared where the value at t=0 exceeds 1e-3'])
