"""Time grids and time origins."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

KINDS = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'fskt', 'fskt_legacy', 'fkt']


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=4, max_frames=24, min_frames=1, velocities=True,
                                 kinds=('even', 'blocks', 'blocks', 'irregular')))
    kind = draw(st.sampled_from(KINDS))
    par = {'kind': kind, 'norigins': draw(gen.norigins), 'tgrid': draw(gen.time_grids(case)), 'form': draw(lib.forms)}
    if kind in ('fskt', 'fskt_legacy', 'fkt'):
        par.update(draw(lib.fourier_pars(case, max_k=1, max_nk=1, top=1.2)))
    if kind in ('qst', 'qt', 'chi4'):
        par['a'] = draw(lib.cutoffs(case))
    if par['tgrid'] is None and kind in ('qst', 'qt', 'chi4', 'fskt', 'fskt_legacy', 'fkt') and \
       (case['steps'][-1] - case['steps'][0]) * case['dt'] * 0.75 <= 1.0:
        par['tgrid'] = [0.0]
    case['par'] = par
    return case


def equivalents(x):
    """Other ways to ask for the same number of origins."""
    if x is None:
        return [None]
    v = float(x)
    if v < 0:
        return [-1, '-1', -1.0, '-1.0']
    if v == 1:
        return [1, '1']
    if v > 1:
        return [int(v), str(int(v)), float(v)]
    return [v, str(v)]


def times_of(obj):
    names = obj.grid_name
    return list(obj.grid) if len(names) == 1 else list(obj.grid[names.index('t')])


def run(case):
    d = gen.Data(case)
    par = case['par']
    kind, norigins = par['kind'], par['norigins']
    obj = lib.run(par, gen.ram(d))
    times = times_of(obj)
    requested = par['tgrid']
    if requested is not None and kind in ('fskt', 'fskt_legacy', 'fkt') and requested[0] > 0:
        requested = [0.0] + list(requested)
    regular = ref.is_regular(d.steps)
    differences = set(b - a for i, a in enumerate(d.steps) for b in d.steps[i:])
    for t in times:
        s = int(round(t / d.dt))
        check(abs(s * d.dt - t) < 1e-9 + 1e-9 * abs(t) and s in differences,
              '%s reports the time %r, which is not a difference between frames (steps %s, time step %r)', kind, t, d.steps, d.dt)
    check(times == sorted(times) and len(set(times)) == len(times), '%s reports times %s out of order', kind, times)
    if regular:
        lags, table = lib.check_lags(d, times, requested, norigins, kind)
    else:
        lags = [int(round(t / d.dt)) for t in times]
    if requested is not None and (norigins is None or float(norigins) != 1):
        # the closest among all differences between frames; rounding of the request to steps aside
        avail = numpy.array(sorted(differences if regular else
                                   [b - a for i, a in enumerate(d.steps[:ref.block_size(d.steps)]) for b in d.steps[i:]]), dtype=float)
        for t in requested:
            tau = t / d.dt
            best = numpy.abs(avail - tau).min()
            mine = min(abs(s - tau) for s in lags)
            check(mine <= best + 1.0 + 1e-4, '%s: requested time %r (%r steps): the closest reported is off by %r steps, %r is possible',
                  kind, t, tau, mine, best)
    # number of origins: interval between origins in frames
    want = ref.skip(d.steps, norigins, d.n)
    check(obj.skip == want, '%s uses one origin every %d frames for a request of %r; expected %d (%d frames, blocks of %d)', kind, obj.skip,
          norigins, want, d.frames, ref.block_size(d.steps))
    if kind == 'vacf' and regular:
        # the value reveals the origins that were really used
        ref.same(obj.value, lib.origin_average(table, lags, lambda i, j: (d.vel[i] * d.vel[j]).sum() / d.n), 'Z(t)', 1e-8, 1e-10)
    if kind == 'msd' and regular:
        ref.same(obj.value, lib.origin_average(table, lags, lambda i, j: ((d.unf[i] - d.unf[j])**2).sum() / d.n), 'dr^2(t)', 1e-7, 1e-9)
    for other in equivalents(norigins):
        if type(other) is type(norigins) and other == norigins:
            continue
        lib.same_result(lib.run(dict(par, norigins=other), gen.ram(d)), obj, '%s with norigins=%r instead of %r' % (kind, other, norigins))
    return d.frames > 2 and (requested is None or len(requested) > 1), [
        kind, 'irregular' if not regular else 'blocks' if ref.block_size(d.steps) > 1 else 'even',
        'fraction' if norigins is not None and 0 < float(norigins) < 1 else 'heuristic' if norigins is None else
        'all' if float(norigins) < 0 else 'one' if float(norigins) == 1 else 'number',
        'default grid' if requested is None else 'given grid']


@st.composite
def static_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=5, min_n=1, max_frames=24, kinds=('even', 'blocks', 'irregular'), lo=20, hi=40))
    case['par'] = draw(lib.corr_pars(draw(st.sampled_from(['gr', 'gr_legacy', 'sk', 'sk_fast', 'ba'])), case))
    return case


def run_static(case):
    """Static functions use the frames spaced by the origin interval and no others."""
    d = gen.Data(case)
    par = case['par']
    obj = lib.make(par, gen.ram(d))
    want = ref.skip(d.steps, par['norigins'], d.n)
    check(obj.skip == want, '%s uses one origin every %d frames for a request of %r; expected %d', par['kind'], obj.skip, par['norigins'], want)
    lib.compute(obj)
    # the same from a trajectory that holds only these frames
    pick = list(range(0, d.frames, want))
    if len(pick) > 1:
        single = [lib.run(dict(par, norigins=1), gen.ram(one(d, i))) for i in pick]
        finite = [lib.finite(s) for s in single]
        if all(finite) and par['kind'] != 'ba':
            ref.same(obj.value, numpy.mean([s.value for s in single], axis=0), '%s as the average over its origins' % par['kind'], 1e-7, 1e-8)
    for other in equivalents(par['norigins']):
        lib.same_result(lib.run(dict(par, norigins=other), gen.ram(d)), obj, '%s with norigins=%r' % (par['kind'], other))
    return len(pick) > 1 and lib.finite(obj), [par['kind'], 'blocks' if ref.block_size(d.steps) > 1 else 'even']


@st.composite
def rms_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=6, max_frames=24, min_frames=2, kinds=('even', 'even', 'blocks')))
    case['spread'] = draw(st.lists(st.sampled_from([0.2, 1.0, 1.0, 1.7]), min_size=8, max_size=8))
    case['frac'] = draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 0.95, 1.2, 3.0]))
    case['sp'] = draw(st.sampled_from([None, None] + sorted(set(case['species']))))
    case['par'] = {'kind': 'msd', 'norigins': draw(gen.norigins), 'tgrid': None, 'tsamples': draw(st.sampled_from([1, 2, 3, 5, 10, 30]))}
    return case


def run_rms(case):
    """The times extend up to a target displacement, taken to grow as the square root of the time."""
    d = gen.Data(case)
    scale = numpy.array([case['spread'][k % 8] for k in range(d.n)])[None, :, None]
    d.store_unfolded = True
    d.unf = d.unf[:1] + (d.unf - d.unf[:1]) * scale
    idx = lib.sel_indices(d, case['sp'])
    final = ((d.unf[-1, idx] - d.unf[0, idx])**2).sum() / len(idx)
    if final < 1e-8:
        raise Reject('no displacement')
    par = dict(case['par'], rmax=float((case['frac'] * final)**0.5))
    obj = lib.run(par, gen.ram(d), [case['sp']] if case['sp'] is not None else [])
    total = (d.steps[-1] - d.steps[0]) * d.dt
    # the square root and the square of the target leave a rounding error
    last, m = total * min(1.0, case['frac']), par['tsamples']
    requested = [last * k / (m - 1) for k in range(m)] if m > 1 else [0.0]
    lib.check_lags(d, list(obj.grid), requested, par['norigins'], 'msd with rmax=%r and tsamples=%r' % (par['rmax'], m))
    return d.frames > 2 and m > 1 and len(obj.grid) > 1, ['reached' if case['frac'] < 1 else 'not reached', 'species' if case['sp'] else 'all',
                                                           'blocks' if ref.block_size(d.steps) > 1 else 'even']


def one(d, i):
    e = gen.Data(d.case)
    e.frames, e.steps, e.counts, e.sides = 1, [0], [d.counts[i]], [d.sides[i]]
    e.pos, e.unf, e.vel = d.pos[i:i + 1], d.unf[i:i + 1], d.vel[i:i + 1]
    return e


@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([150, 400, 700, 1000]))
    product = draw(st.integers(10, 190)) * 1000
    return {'n': n, 'frames': max(3, product // n), 'dim': draw(st.sampled_from([2, 3])), 'seed': draw(st.integers(0, 2**31 - 1)),
            'gap': draw(st.sampled_from([1, 5])), 'dt': draw(st.sampled_from([1.0, 0.5, 0.002])), 'kind': draw(st.sampled_from(['vacf', 'sk_fast', 'msd'])),
            'norigins': draw(st.sampled_from([None, None, None, None, 3, 0.2, 20]))}


def long_trajectory(case, pos, vel, side):
    from atooms.system import Cell, Particle, System
    from atooms.trajectory.base import TrajectoryBase

    class Long(TrajectoryBase):
        def __init__(self):
            TrajectoryBase.__init__(self, None)
            self._timestep = case['dt']

        def read_steps(self):
            return [case['gap'] * i for i in range(case['frames'])]

        def read_system(self, frame):
            particle = [Particle(position=x.copy(), velocity=v.copy(), species='A') for x, v in zip(pos[frame], vel[frame])]
            for p, x in zip(particle, pos[frame]):
                p.position_unfolded = x.copy()
            return System(particle=particle, cell=Cell(side=side.copy()))

    return Long()


def run_long(case):
    """Without a number of origins, it is reduced for long trajectories of many particles."""
    rng = numpy.random.RandomState(case['seed'])
    shape = (case['frames'], case['n'], case['dim'] if case['kind'] != 'sk_fast' else 3)
    pos, vel = (rng.rand(*shape) - 0.5) * 6, rng.rand(*shape) - 0.5
    side = numpy.full(shape[2], 6.0)
    par = {'kind': case['kind'], 'norigins': case['norigins']}
    steps = [case['gap'] * i for i in range(case['frames'])]
    if case['kind'] == 'sk_fast':
        par.update(kgrid=[1.5], nk=2, dk=0.6)
    else:
        par['tgrid'] = [0.0, steps[2] * case['dt'], steps[len(steps) // 2] * case['dt'], steps[-1] * case['dt']]
    obj = lib.make(par, long_trajectory(case, pos, vel, side))
    want = ref.skip(steps, case['norigins'], case['n'])
    check(obj.skip == want, '%s uses one origin every %d frames; expected %d for %d frames of %d particles and norigins=%r', case['kind'], obj.skip,
          want, case['frames'], case['n'], case['norigins'])
    lib.compute(obj)
    if case['kind'] == 'sk_fast':
        kl = lib.shared_kvectors(obj)[0]
        s = numpy.mean([[abs(ref.rho_k(pos[i], k))**2 / case['n'] for k in kl] for i in range(0, case['frames'], want)])
        ref.same(obj.value, [s], 'S(k) over the time origins', 1e-8)
    else:
        x = vel if case['kind'] == 'vacf' else pos
        f = (lambda i, j: (x[i] * x[j]).sum() / case['n']) if case['kind'] == 'vacf' else (lambda i, j: ((x[i] - x[j])**2).sum() / case['n'])
        times = [int(round(t / case['dt'])) for t in obj.grid]
        ref.same(times, sorted(set([0, steps[2], steps[len(steps) // 2], steps[-1]])), 'times of %s' % case['kind'])
        ref.same(obj.value, [numpy.mean([f(i, i + m // case['gap']) for i in range(0, case['frames'] - m // case['gap'], want)]) for m in times],
                 '%s over the time origins' % case['kind'], 1e-8, 1e-10)
    return want > 1, ['skip %d' % min(want, 4), case['kind'], 'heuristic' if case['norigins'] is None else 'number']


PROP = Prop('P10',
            'three frames or more and, when a grid is requested, two times or more; several origins for static functions',
            [Sub('dynamic', cases, run, quick=4500),
             Sub('target', rms_cases, run_rms, quick=500),
             Sub('static', static_cases, run_static, quick=1200),
             Sub('long', long_cases, run_long, quick=48, thorough=900),
             Sub('sizes', gen.large(cases), run, quick=240, thorough=4800)],
            ['requests are rounded to whole steps before looking for the closest difference (tolerance of one step)',
             'the float or string 1.0 is not used (it may mean one origin or all of them)'])
