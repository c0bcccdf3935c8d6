"""Static structure factor."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check
from . import p13


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=12, max_frames=5, lo=20, hi=60, variable_n=True,
                                 kinds=('even', 'irregular', 'blocks')))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind=draw(st.sampled_from(['sk', 'sk_legacy', 'sk_fast'])),
                       norigins=draw(gen.norigins))
    case['groups'] = draw(lib.group_choices(case))
    # positions stored in the cell or anywhere (density modes do not depend on it)
    case['images'] = draw(st.booleans())
    case['frame_order'] = draw(gen.shuffles)
    case['still'] = draw(gen.stills(case))
    return case


def mode_products(fa, fb, kvecs, i):
    a = [ref.rho_k(fa[i], k) for k in kvecs]
    b = a if fb is fa else [ref.rho_k(fb[i], k) for k in kvecs]
    return [(x * numpy.conj(y)).real for x, y in zip(a, b)]


def norms(fa, fb, frames):
    return (numpy.mean([len(fa[i]) for i in frames]) * numpy.mean([len(fb[i]) for i in frames]))**0.5


def compare(value, sums, fa, fb, frames, origins, what):
    """The average numbers of particles may be taken over all frames or over the origins."""
    problem = None
    for pick in (frames, origins):
        n = norms(fa, fb, pick)
        try:
            ref.same(value, numpy.array(sums) / n, what, rtol=1e-8, atol=1e-9)
            return
        except Exception as exc:
            problem = problem or exc
    raise problem


def run(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    if case['images']:
        d.pos = d.pos + d.side * numpy.rint(3 * numpy.sin(7 * numpy.arange(d.pos.size))).reshape(d.pos.shape)
    fa, fb, same_group = lib.group_frames(d, groups)
    frames = list(range(d.frames))
    origins = frames[::ref.skip(d.steps, par['norigins'], d.counts[0])]
    if not (norms(fa, fb, frames) > 0 and norms(fa, fb, origins) > 0):
        raise Reject('empty group')
    obj = lib.run(par, gen.ram(d), groups)
    shells = lib.shared_kvectors(obj)
    check(len(obj.grid) == len(shells) == len(obj.value) == len(par['kgrid']),
          'S(k): %d grid points, %d shells, %d values for %d requested', len(obj.grid), len(shells), len(obj.value), len(par['kgrid']))
    sums = [numpy.mean([mode_products(fa, fb, kl, i) for i in origins]) for kl in shells]
    compare(obj.value, sums, fa, fb, frames, origins, 'S(k)')
    for k, kl in zip(obj.grid, shells):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of its vectors', k)
    labels = [par['kind'], 'dim%d' % d.dim, lib.GROUP_LABELS[len(groups)],
              'counts vary' if len(set(d.counts)) > 1 else 'fixed N', 'many origins' if len(origins) > 1 else 'one origin']
    return bool(numpy.any(numpy.abs(sums) > 1e-9)) and max(len(x) for x in fa) > 1, labels


@st.composite
def large_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=400, min_n=60, max_frames=3, lo=40, hi=120, kinds=('even',)))
    case['par'] = dict(draw(lib.fourier_pars(case, top=8.0)), kind=draw(st.sampled_from(['sk', 'sk_legacy', 'sk_fast'])), norigins=-1)
    case['groups'] = draw(lib.group_choices(case))
    case['images'] = False
    return case


@st.composite
def cell_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=8, min_frames=2, max_frames=5, lo=20, hi=50, kinds=('even', 'irregular')))
    case['par'] = dict(draw(lib.fourier_pars(case, max_k=2, top=3.0)), kind=draw(st.sampled_from(['sk', 'sk_fast'])),
                       norigins=draw(gen.norigins))
    case['groups'] = draw(lib.group_choices(case))
    kind = draw(st.sampled_from(['all', 'one', 'axis', 'middle', 'slight']))
    frames = len(case['steps'])
    ratio = [[1.0] * case['dim'] for _ in range(frames)]
    for i in range(frames):
        if kind == 'all':
            ratio[i] = [draw(st.sampled_from([0.8, 0.95, 1.0, 1.1, 1.3]))] * case['dim']
        elif kind == 'axis':
            ratio[i][draw(st.integers(0, case['dim'] - 1))] = draw(st.sampled_from([0.9, 1.0, 1.2]))
    if kind == 'one':
        ratio[draw(st.integers(0, frames - 1))] = [draw(st.sampled_from([0.9, 1.2]))] * case['dim']
    elif kind == 'slight':
        # the cell breathes by a small fraction
        size = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6]))
        ratio = [[1 + size * draw(st.integers(-9, 9)) / 10.] * case['dim'] for _ in range(frames)]
    elif kind == 'middle':
        ratio[draw(st.integers(0, max(0, frames - 2)))][0] = draw(st.sampled_from([0.9, 1.2]))
    case['ratio'] = ratio
    return case


def one_frame(d, i):
    """Trajectory with only frame i."""
    e = gen.Data(d.case)
    e.frames, e.steps, e.counts = 1, [0], [d.counts[i]]
    e.pos, e.unf, e.vel, e.sides = d.pos[i:i + 1], d.unf[i:i + 1], d.vel[i:i + 1], [d.sides[i]]
    return e


def run_cell(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    d.sides = [d.side * numpy.array(r) for r in case['ratio']]
    d.pos = d.pos * numpy.array(case['ratio'])[:, None, :]
    frames = list(range(d.frames))
    origins = frames[::ref.skip(d.steps, par['norigins'], d.counts[0])]
    fa, fb, _ = lib.group_frames(d, groups)
    obj = lib.run(par, gen.ram(d), groups)
    total, count = numpy.zeros(len(par['kgrid'])), numpy.zeros(len(par['kgrid']))
    for i in origins:
        # the wave-vectors of this frame, as reported by the same class for a trajectory in this cell
        single = lib.run(dict(par, norigins=-1), gen.ram(one_frame(d, i)), groups)
        lib.integer_kvectors(single, d.sides[i])
        for j, kl in enumerate(lib.shared_kvectors(single)):
            total[j] += numpy.sum(mode_products(fa, fb, kl, i))
            count[j] += len(kl)
    compare(obj.value, total / count, fa, fb, frames, origins, 'S(k) in a changing cell')
    shells = lib.shared_kvectors(obj)
    check(len(shells) == len(obj.grid), 'S(k): %d grid points for %d shells', len(obj.grid), len(shells))
    for k, kl in zip(obj.grid, shells):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of the reported wave-vectors %s', k, kl)
    before = lib.result(obj)
    again = lib.result(lib.compute(obj))
    ref.same(again[0], before[0], 'grid of S(k) in a changing cell, computed again', 1e-12)
    ref.same(again[1], before[1], 'S(k) in a changing cell, computed again', 1e-9)
    changed = len(set(tuple(s) for s in (tuple(x) for x in d.sides))) > 1
    used = len(set(tuple(d.sides[i]) for i in origins)) > 1
    return used, ['cell varies' if changed else 'fixed cell', 'origins see it' if used else 'not seen', par['kind'],
                  'dim%d' % d.dim]


def ratios(draw, frames, dim):
    kind = draw(st.sampled_from(['fixed', 'fixed', 'all', 'axis']))
    ratio = [[1.0] * dim for _ in range(frames)]
    for i in range(1, frames):
        if kind == 'all':
            ratio[i] = [draw(st.sampled_from([0.8, 0.95, 1.0, 1.1, 1.3]))] * dim
        elif kind == 'axis':
            ratio[i][draw(st.integers(0, dim - 1))] = draw(st.sampled_from([0.9, 1.0, 1.2]))
    return ratio


@st.composite
def explicit_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=8, max_frames=4, lo=20, hi=60, variable_n=True, kinds=('even', 'irregular'), dims=(3, 1, 2, 3, 4)))
    case['kvectors'] = draw(lib.vector_lists(case['dim']))
    case['par'] = {'kind': draw(st.sampled_from(['sk', 'sk_fast'])), 'norigins': draw(gen.norigins)}
    case['groups'] = draw(lib.group_choices(case))
    case['ratio'] = ratios(draw, len(case['steps']), case['dim'])
    return case


def run_explicit(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    ratio = numpy.array(case['ratio'])
    d.sides = [d.side * r for r in ratio]
    d.pos = d.pos * ratio[:, None, :]
    fa, fb, same_group = lib.group_frames(d, groups)
    frames = list(range(d.frames))
    origins = frames[::ref.skip(d.steps, par['norigins'], d.counts[0])]
    if not (norms(fa, fb, frames) > 0 and norms(fa, fb, origins) > 0):
        raise Reject('empty group')
    obj, kvec = lib.explicit(par, gen.ram(d), groups, case['kvectors'], d.side)
    lib.compute(obj)
    check(len(obj.grid) == len(obj.value) == len(kvec), 'S(k): %d values for %d groups of wave-vectors', len(obj.value), len(kvec))
    for k, kl in zip(obj.grid, kvec):
        ref.same(k, numpy.mean([numpy.linalg.norm(x) for x in kl]), 'norm of the wave-vectors given by the user', 1e-9)
    # the same multiples of the smallest wave-vectors of each frame
    sums = [numpy.mean([mode_products(fa, fb, [k / ratio[i] for k in kl], i) for i in origins]) for kl in kvec]
    for kl, got in zip(kvec, obj.kvectors):
        ref.same(got, kl, 'wave-vectors given by the user', 1e-9, 1e-9)
    compare(obj.value, sums, fa, fb, frames, origins, 'S(k) at %s' % (case['kvectors'],))
    return bool(numpy.any(numpy.abs(sums) > 1e-9)) and max(len(x) for x in fa) > 1, [
        par['kind'], 'dim%d' % d.dim, lib.GROUP_LABELS[len(groups)], 'fixed cell' if numpy.all(ratio == 1) else 'cell varies']


PROP = Prop('P03',
            'two particles or more and at least one non-zero mode product (fixed cell); cells that differ among the origins used (variable cell)',
            [p13.units('sk', 'sk_fast'),
             Sub('sk', cases, run, quick=4500),
             Sub('variable_cell', cell_cases, run_cell, quick=1200),
             Sub('explicit', explicit_cases, run_explicit, quick=600),
             Sub('large', large_cases, run, quick=150, thorough=3000),
             Sub('sizes', gen.large(cases), run, quick=240, thorough=4800)],
            ['wave-vectors are those the object reports (their selection is P04)',
             'with a fluctuating number of particles its average may run over all frames or over the origins',
             'at most 12 particles, 5 frames, 3 grid points (400 particles in a smaller number of cases)'])
