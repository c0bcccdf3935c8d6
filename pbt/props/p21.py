"""Spectral density."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='free', dims=(3,), max_n=10, max_frames=6, lo=20, hi=60, radii=True, variable_n=True,
                                 kinds=('even', 'irregular', 'blocks')))
    par = draw(lib.fourier_pars(case))
    if draw(st.integers(0, 2)) == 0:
        k0 = 2 * numpy.pi / max(case['side'])
        par = {'kmin': draw(st.sampled_from([-1.0, round(k0 * 1.2, 6)])), 'kmax': round(k0 * 3.1, 6), 'ksamples': draw(st.integers(1, 5)),
               'nk': par['nk'], 'dk': par['dk']}
    par['norigins'] = draw(gen.norigins)
    case['par'] = par
    case['source'] = draw(st.sampled_from(['same', 'other', 'path', 'all paths']))
    # the trajectory may be a part of the one with the radii
    case['slice'] = None
    if case['source'] in ('other', 'path') and len(case['steps']) > 2:
        case['slice'] = draw(st.sampled_from([None, [1, None, 1], [0, -1, 1], [None, None, 2], [1, None, 2]]))
    # radii may change in time
    case['breathe'] = draw(st.booleans())
    case['volume'] = [draw(st.sampled_from([1.0, 1.0, 0.9, 1.2])) for _ in case['steps']] if 'kgrid' in par and draw(st.integers(0, 2)) == 0 else None
    case['small'] = draw(st.integers(0, 3)) == 0
    return case


def form_factor(k, radius):
    if k == 0:
        return 4 * numpy.pi / 3 * radius**3
    return 4 * numpy.pi * (numpy.sin(k * radius) - k * radius * numpy.cos(k * radius)) / k**3


def radii(d, case):
    scale = 1e-3 if case['small'] else 1.0
    base = numpy.array([0.37] * d.n) if case['small'] else d.radius
    return [scale * base * (1 + 0.15 * i * (1 + numpy.arange(d.n) % 3) * case['breathe']) for i in range(d.frames)]


def frame_only(d, i):
    e = gen.Data(d.case)
    e.frames, e.steps, e.counts = 1, [0], [d.counts[i]]
    e.pos, e.sides = d.pos[i:i + 1], [d.sides[i]]
    return e


def run(case):
    from atooms.trajectory import Sliced, Trajectory
    pp = lib.pp()
    d = gen.Data(case)
    if case['volume']:
        d.sides = [d.side * v for v in case['volume']]
        d.pos = d.pos * numpy.array(case['volume'])[:, None, None]
    rad = radii(d, case)
    pick = list(range(d.frames))
    par = {key: val for key, val in case['par'].items() if key != 'form'}
    if case['slice']:
        pick = pick[slice(*case['slice'])]
        if not pick:
            raise Reject('no frames')
        if ref.block_size([d.steps[i] for i in pick]) != ref.block_size(d.steps):
            raise Reject('blocks of a slice')

    def extra(d, i, k, p):
        p.radius = float(rad[i][k])
    def no_radius(d, i, k, p):
        p.radius = 0.123
    with lib.scratch() as folder:
        variables = ['species', 'position', 'radius']
        path = gen.xyz(d, os.path.join(folder, 'radius.xyz'), extra=extra, variables=variables)
        source = case['source']
        if source == 'same':
            th = other = gen.ram(d, extra=extra)
        elif source == 'other':
            th, other = gen.ram(d, extra=no_radius), gen.ram(d, extra=extra)
        elif source == 'path':
            th, other = gen.ram(d, extra=no_radius), path
        else:
            th = other = path
        if case['slice']:
            th = Sliced(th, slice(*case['slice']))
        with target('SpectralDensity'):
            obj = pp.SpectralDensity(th, other, **par)
            obj.compute()
    n = len(pick)
    steps = [d.steps[i] for i in pick]
    origins = [pick[i] for i in range(0, n, ref.skip(steps, par['norigins'], d.counts[pick[0]]))]
    shells = lib.shared_kvectors(obj)
    check(len(shells) == len(obj.grid) == len(obj.value), 'I(k): %d shells, %d grid points, %d values', len(shells), len(obj.grid), len(obj.value))
    volume = numpy.mean([numpy.prod(d.sides[i]) for i in pick])
    total, count = numpy.zeros(len(shells)), numpy.zeros(len(shells))
    counts_vary = len(set(tuple(d.sides[i]) for i in pick)) > 1
    sums_sk = numpy.zeros(len(shells))
    for i in origins:
        kvs = shells
        if counts_vary:
            single = pp.SpectralDensity(gen.ram(frame_only(d, i), extra=no_radius), gen.ram(frame_only(d, i), extra=no_radius),
                                        **dict(par, norigins=-1))
            with target('SpectralDensity of a frame'):
                single.compute()
            lib.integer_kvectors(single, d.sides[i])
            kvs = lib.shared_kvectors(single)
        x, r = d.pos[i][:d.counts[i]], rad[i][:d.counts[i]]
        for j, kl in enumerate(kvs):
            for kv in kl:
                kn = numpy.sqrt((kv**2).sum())
                total[j] += abs(ref.rho_k(x, kv, form_factor(kn, r)))**2
                sums_sk[j] += abs(ref.rho_k(x, kv))**2
                count[j] += 1
    want = total / count / volume
    # rounding of sin(x) - x cos(x) at small x
    kmax = max(numpy.sqrt((kl**2).sum(axis=1)).max() for kl in shells)
    kmin = min([kn for kl in shells for kn in numpy.sqrt((kl**2).sum(axis=1)) if kn > 0] or [1.0])
    n_max = max(d.counts)
    delta = 4 * numpy.pi / kmin**3 * 4e-16 * n_max
    amp = 4 * numpy.pi / 3 * max(r.max() for r in rad)**3 * n_max
    tol = 1e-8 * abs(want).max() + (2 * amp * delta + delta**2) / volume * 4
    ref.same(obj.value, want, 'I(k)', 1e-7, tol)
    for k, kl in zip(obj.grid, shells):
        check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of the reported wave-vectors %s', k, kl)
    if not counts_vary:
        for k, kl in zip(obj.grid, shells):
            check(abs(k - numpy.mean(numpy.sqrt((kl**2).sum(axis=1)))) < 1e-9, 'grid value %r is not the mean norm of its vectors', k)
    if case['small'] and not case['breathe']:
        # (4 pi R^3 / 3)^2 sum |rho|^2 / V
        limit = (4 * numpy.pi * 0.37e-3**3 / 3)**2 * sums_sk / count / volume
        ref.same(obj.value, limit, 'I(k) of small particles', 1e-3 * (1 + kmax**2), tol)
    return bool(want.max() > 0 and n_max > 1), [source, 'sliced' if case['slice'] else 'whole', 'radii change' if case['breathe'] else 'fixed radii',
                                              'small' if case['small'] else 'finite', 'cell varies' if counts_vary else 'fixed cell',
                                              'grid' if 'kgrid' in par else 'range', 'counts vary' if len(set(d.counts)) > 1 else 'fixed N']


PROP = Prop('P21', 'two particles or more and a value that is not zero',
            [Sub('ik', cases, run, quick=3600),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['three dimensions', 'wave-vectors are those the object reports (their selection is P04)',
             'tolerance for rounding of the form factor at small arguments'])
