"""Correlation classes as data: how to build them from JSON parameters, how to run them, what they should give."""
import copy
import math
import os
import shutil
import tempfile
import zlib
from contextlib import contextmanager

import numpy
from hypothesis import strategies as st

from . import gen, ref
from .core import Reject, Violation, check, target


def pp():
    import atooms.postprocessing as module
    return module


@contextmanager
def scratch():
    """A directory that the check creates and removes."""
    path = tempfile.mkdtemp(prefix='pbt-case-')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------------- parameters

# how grids and numbers are given (whole: numbers without fractional part as integers)
forms = st.sampled_from(['list', 'list', 'list', 'tuple', 'array', 'whole'])


def whole(x):
    return int(x) if isinstance(x, float) and x == int(x) and abs(x) < 2**31 else x


@st.composite
def fourier_pars(draw, case, max_k=3, max_nk=8, top=4.0):
    """kgrid, nk, dk suited to the cell (the whole grid stays within a few smallest wave-vectors)."""
    if gen.SCALE == 'grids':
        max_k, max_nk, top = 3 * max_k, 60, min(2 * top, 7.0) if len(case['side']) < 4 else top
    k0 = 2 * math.pi / max(case['side'])
    ks = draw(st.lists(st.integers(8, int(top * 10)), min_size=1, max_size=max_k, unique=True))
    ks = [round(k0 * k / 10., 6) for k in ks]
    dk = round(k0 * draw(st.sampled_from([0.2, 0.3, 0.6, 1.0])), 6)
    return {'kgrid': ks, 'dk': dk, 'nk': draw(st.integers(1, max_nk)), 'form': draw(forms)}


@st.composite
def vector_lists(draw, dim, tops=(2, 5, 30, 40, 150, 300), max_groups=2):
    """Wave-vectors given by the user, in units of the smallest ones, grouped in shells; any dimension."""
    top = draw(st.sampled_from(tops if dim < 4 else [x for x in tops if x < 20]))
    return draw(st.lists(st.lists(st.lists(st.integers(-top, top), min_size=dim, max_size=dim), min_size=1, max_size=3), min_size=1, max_size=max_groups))


def explicit(par, th, groups, vectors, side):
    """Object with the wave-vectors `vectors`, given by the user; returns them in natural units as well."""
    kvec = [[numpy.array(n) * 2 * math.pi / numpy.asarray(side) for n in kl] for kl in vectors]
    # `nk` is no limit to their number
    nk = [1, 2, 8][sum(abs(x) for kl in vectors for n in kl for x in n) % 3]
    obj = make(dict({'kgrid': None, 'nk': nk, 'dk': 0.1, 'form': 'list'}, **par), th)
    add_filters(obj, groups, vectors)
    obj.kvectors = kvec
    return obj, kvec


@st.composite
def cutoffs(draw, case=None):
    """A cutoff on displacements, comparable to the moves of the particles in most cases."""
    if case is None or case.get('motion') != 'walk' or draw(st.integers(0, 4)) == 0:
        return draw(st.integers(1, 60)) / 20. + 0.0137
    return round(case['amp'] * min(case['side']) / 2 * draw(st.integers(2, 30)) / 10., 5) + 0.0000137


@st.composite
def corr_pars(draw, kind, case):
    """JSON parameters of a correlation of this kind for the trajectory `case`."""
    spec = KINDS[kind]
    par = {'kind': kind, 'form': draw(forms)}
    if 'norigins' in spec['pars']:
        par['norigins'] = draw(gen.norigins)
    if 'tgrid' in spec['pars']:
        par['tgrid'] = draw(gen.time_grids(case, allow_none=False))
    if 'k' in spec['pars']:
        par.update(draw(fourier_pars(case)))
    if 'dr' in spec['pars']:
        par['dr'] = draw(st.sampled_from([0.1, 0.25, 0.5, 0.04, 0.3, 1.0]))
    if 'a' in spec['pars']:
        par['a'] = draw(cutoffs(case))
    if 'dtheta' in spec['pars']:
        par['dtheta'] = draw(st.sampled_from([4.0, 10.0, 20.0, 7.0]))
        ns = len(set(case['species']))
        par['rcut'] = [[draw(st.integers(5, 40)) / 10. + 0.0137 for _ in range(ns)] for _ in range(ns)]
    if 'normalize' in spec['pars']:
        par['normalize'] = draw(st.booleans())
    return par


def cls_args(par):
    """(class, keyword arguments) of the correlation described by `par`."""
    spec = KINDS[par['kind']]
    m = pp()
    kw = {}
    if 'norigins' in par:
        kw['norigins'] = par['norigins']
    if 'tgrid' in par:
        kw['tgrid'] = None if par['tgrid'] is None else list(par['tgrid'])
    if 'kgrid' in par:
        kw['kgrid'] = None if par['kgrid'] is None else list(par['kgrid'])
        kw['nk'] = par['nk']
        kw['dk'] = par['dk']
    for key in ('dr', 'rmax', 'a', 'dtheta', 'normalize', 'fix_cm', 'kmin', 'kmax', 'ksamples', 'tsamples', 'lookup_mb'):
        if key in par:
            kw[key] = par[key]
    if 'rgrid' in par and par['rgrid'] is not None:
        kw['rgrid'] = list(par['rgrid'])
    if 'rcut' in par and par['rcut'] is not None:
        kw['rcut'] = [list(r) for r in par['rcut']]
    convert = {'list': list, 'tuple': tuple, 'array': numpy.array, 'whole': lambda x: [whole(y) for y in x]}[par.get('form', 'list')]
    for key in ('tgrid', 'kgrid', 'rgrid'):
        if kw.get(key) is not None:
            kw[key] = convert(kw[key])
    if par.get('form') == 'whole':
        kw = {key: whole(val) if key not in ('norigins', 'lookup_mb') else val for key, val in kw.items()}
    return getattr(m, spec['cls']), kw


def make(par, th, **extra):
    cls, kw = cls_args(par)
    kw.update(extra)
    with target('%s()' % cls.__name__):
        return cls(th, **kw)


def compute(obj, what=None):
    with target('%s.compute()' % (what or type(obj).__name__)):
        obj.compute()
    return obj


def keep_species(system, species=None, but=None):
    """Condition of the user, with keyword arguments."""
    s = copy.copy(system)
    s.particle = [p for p in system.particle if (species is None or p.species == species) and (but is None or p.species != but)]
    return s


def add_filters(obj, groups, key=None):
    """Restrict the groups of particles to these species, passing the species in one of several ways (depending on `key`)."""
    from atooms.postprocessing.helpers import filter_species
    style = zlib.crc32(repr((key, list(groups))).encode())
    for g in groups:
        with target('add_filter()'):
            if style % 4 < 2:
                obj.add_filter(filter_species, g)
            elif style % 4 == 2:
                obj.add_filter(keep_species, species=g)
            else:
                obj.add_filter(keep_species, g, but='?')
        style //= 4


def run(par, th, filters=(), **extra):
    """Build, filter by species and compute."""
    obj = make(par, th, **extra)
    add_filters(obj, filters, par)
    return compute(obj)


def flat(x):
    """grid or value as a flat list of floats."""
    out = []
    for y in x:
        if numpy.ndim(y) > 0 or isinstance(y, (list, tuple)):
            out += flat(y)
        else:
            out.append(float(y))
    return out


def result(obj):
    return flat(obj.grid), flat(obj.value)


def same_result(a, b, what, rtol=1e-6, atol=1e-9):
    ref.same(flat(a.grid), flat(b.grid), what + ' (grid)', rtol, atol)
    ref.same(flat(a.value), flat(b.value), what + ' (value)', rtol, atol)


def finite(obj):
    return bool(numpy.all(numpy.isfinite(flat(obj.value)))) if len(obj.value) else False


# pars: which parameters; dyn: time-dependent; unf: uses unwrapped positions; vel: needs velocities; dims
KINDS = {
    'gr': dict(cls='RadialDistributionFunction', pars=('norigins', 'dr'), bodies=2, dyn=False),
    'gr_legacy': dict(cls='RadialDistributionFunctionLegacy', pars=('norigins', 'dr'), bodies=2, dyn=False),
    'gr_fast': dict(cls='RadialDistributionFunctionFast', pars=('norigins', 'dr'), bodies=2, dyn=False),
    'sk': dict(cls='StructureFactor', pars=('norigins', 'k'), bodies=2, dyn=False),
    'sk_legacy': dict(cls='StructureFactorLegacy', pars=('norigins', 'k'), bodies=2, dyn=False),
    'sk_fast': dict(cls='StructureFactorFast', pars=('norigins', 'k'), bodies=2, dyn=False),
    'ba': dict(cls='BondAngleDistribution', pars=('norigins', 'dtheta'), bodies=2, dyn=False),
    'msd': dict(cls='MeanSquareDisplacement', pars=('norigins', 'tgrid'), bodies=1, dyn=True),
    'vacf': dict(cls='VelocityAutocorrelation', pars=('norigins', 'tgrid'), bodies=1, dyn=True),
    'alpha2': dict(cls='NonGaussianParameter', pars=('norigins', 'tgrid'), bodies=1, dyn=True),
    'qst': dict(cls='SelfOverlap', pars=('norigins', 'tgrid', 'a'), bodies=1, dyn=True),
    'qt': dict(cls='CollectiveOverlap', pars=('norigins', 'tgrid', 'a'), bodies=1, dyn=True),
    'chi4': dict(cls='Chi4SelfOverlap', pars=('norigins', 'tgrid', 'a'), bodies=1, dyn=True),
    'chi4_opt': dict(cls='Chi4SelfOverlapOptimized', pars=('norigins', 'tgrid', 'a'), bodies=1, dyn=True),
    'fskt': dict(cls='SelfIntermediateScattering', pars=('norigins', 'tgrid', 'k', 'normalize'), bodies=1, dyn=True),
    'fskt_legacy': dict(cls='SelfIntermediateScatteringLegacy', pars=('norigins', 'tgrid', 'k', 'normalize'), bodies=1,
                        dyn=True),
    'fskt_fast': dict(cls='SelfIntermediateScatteringFast', pars=('norigins', 'tgrid', 'k', 'normalize'), bodies=1,
                      dyn=True),
    'fkt': dict(cls='IntermediateScattering', pars=('norigins', 'tgrid', 'k', 'normalize'), bodies=2, dyn=True),
    's4kt': dict(cls='S4ktOverlap', pars=('norigins', 'tgrid', 'k', 'a'), bodies=1, dyn=True),
}
STATIC = ['gr', 'gr_legacy', 'sk', 'sk_fast', 'ba']
STEP_INDEPENDENT = STATIC
DYNAMIC = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'fskt', 'fskt_legacy', 'fkt']
UNFOLDING = ['msd', 'alpha2', 'qst', 'chi4', 'chi4_opt', 's4kt']


# ---------------------------------------------------------------------- reported time grids

def check_lags(d, times, requested, norigins, what, atol=1e-9):
    """The reported times are available lags, the nearest ones to the requests; returns lags in steps."""
    table = ref.lag_origins(d.steps, norigins, d.n)
    lags = []
    for t in times:
        s = int(round(t / d.dt))
        check(abs(s * d.dt - t) <= atol + 1e-9 * abs(t), '%s: reported time %r is not a multiple of the time step %r', what, t, d.dt)
        check(s in table, '%s: reported time %r is not a difference between frames (steps %s)', what, t, d.steps)
        lags.append(s)
    check(lags == sorted(set(lags)), '%s: reported times %s are not sorted or repeat', what, list(times))
    if requested is None:
        return lags, table
    avail = numpy.array(sorted(table), dtype=float)
    for t in requested:
        tau = t / d.dt
        best = numpy.abs(avail - tau).min()
        mine = min(abs(s - tau) for s in lags) if lags else numpy.inf
        tol = 1e-4 if best < 1e-4 else best + 1.0 + 1e-4
        check(mine <= tol, '%s: requested time %r (%r steps) but the nearest reported is off by %r steps while %r is available',
              what, t, tau, mine, best)
    for s in lags:
        near = min((abs(s - t / d.dt) - numpy.abs(avail - t / d.dt).min()) for t in requested)
        check(near <= 1.0 + 1e-4, '%s: reported lag %d is not the closest to any request %s', what, s, list(requested))
    return lags, table


def origin_average(table, lags, f):
    """Average of f(i0, i1) over the frame pairs of each lag."""
    return [numpy.mean([f(i0, i1) for i0, i1 in table[s]], axis=0) for s in lags]


# ---------------------------------------------------------------------- oracle pieces

def sel_indices(d, sp):
    return numpy.array([k for k in range(d.n) if sp is None or d.species[k] == sp], dtype=int)


def species(d):
    return sorted(set(d.species))


def shared_kvectors(obj):
    """Reported wave-vectors as float arrays, one (m, dim) array per shell."""
    return [numpy.array(kl, dtype=float).reshape(len(kl), -1) for kl in obj.kvectors]


@st.composite
def group_choices(draw, case):
    """[] whole system, [a] one species, [a, b] two different species."""
    names = sorted(set(case['species']))
    return draw(st.sampled_from([[]] + [[a] for a in names] + [[a, b] for a in names for b in names if a != b]))


def group_frames(d, groups, what='pos'):
    """Arrays of the first and second group for each frame, and whether they are the same group."""
    a = groups[0] if groups else None
    b = groups[1] if len(groups) > 1 else a
    pick = [(None if g is None else gen.by_species(g)) for g in (a, b)]
    fa = [d.frame(i, what, pick[0]) for i in range(d.frames)]
    fb = fa if len(groups) < 2 else [d.frame(i, what, pick[1]) for i in range(d.frames)]
    return fa, fb, len(groups) < 2


GROUP_LABELS = ['all', 'one species', 'two species']


def available_shells(kgrid, dk, side):
    """Wave-vectors available to each requested wave-number, from the documented rule.

    Each vector compatible with the cell goes to the first wave-number within whose width it lies; the width
    of an empty shell grows by 20% until it holds a vector.  Rejects cases within rounding of a boundary."""
    side = numpy.asarray(side, dtype=float)
    k0 = 2 * math.pi / side
    kgrid = [float(k) for k in kgrid]
    dks = [float(dk)] * len(kgrid)
    for _ in range(60):
        limit = max(k + w for k, w in zip(kgrid, dks))
        ints, norm = ref.integer_vectors(side, limit + 1e-6)
        shells = [[] for _ in kgrid]
        for vec, kn in zip(ints, norm):
            for i in range(len(kgrid)):
                delta = abs(kn - kgrid[i]) - dks[i]
                if abs(delta) < 1e-9 * max(1.0, kn):
                    raise Reject('a wave-vector on the boundary of a shell')
                if delta < 0:
                    if kn > kgrid[-1] + dks[-1] - 1e-9:
                        raise Reject('an enlarged shell reaches beyond the last one')
                    shells[i].append(tuple(int(x) for x in vec))
                    break
        if all(shells):
            return shells, dks
        dks = [w if s else w * 1.2 for w, s in zip(dks, shells)]
    raise Reject('no shells')


def integer_kvectors(obj, side):
    """Reported wave-vectors as integer multiples of 2 pi / L; checks that they are."""
    k0 = 2 * math.pi / numpy.asarray(side, dtype=float)
    out = []
    for kl in obj.kvectors:
        out.append([])
        for kv in kl:
            x = numpy.asarray(kv, dtype=float) / k0
            r = numpy.rint(x)
            check(len(x) == len(k0) and bool(numpy.all(numpy.abs(x - r) < 1e-6)),
                  'wave-vector %s is not compatible with the cell %s', kv, list(side))
            out[-1].append(tuple(int(y) for y in r))
    return out


# ---------------------------------------------------------------------- output files

def output_name(obj, template, path, folder=''):
    """Output file of a correlation, from the documented template."""
    name = template or '{trajectory.filename}.pp.{symbol}.{tag}'
    name = name.replace('{trajectory.filename}', path).replace('{dir}', folder)
    for key in ('symbol', 'short_name', 'tag'):
        name = name.replace('{%s}' % key, getattr(obj, key))
    for key in ('long_name', 'tag_description'):
        name = name.replace('{%s}' % key, getattr(obj, key).replace(' ', '_'))
    head, tail = os.path.split(name)
    # without a tag there is no dangling or double punctuation
    for c in '._-':
        tail = tail.replace(c + c, c).strip(c)
    return os.path.join(head, tail)


def tree(folder):
    return sorted(os.path.relpath(os.path.join(a, f), folder) for a, _, c in os.walk(folder) for f in c)
