"""Symmetries: relabelling, translations, images, axes, mirror, units."""
import copy

import numpy
from hypothesis import strategies as st

from .. import angles, gen, lib, ref
from ..core import Prop, Sub, Reject, check

STATIC = ['gr', 'gr_legacy', 'sk', 'sk_fast', 'ba']
DYN = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy', 'fkt', 's4kt']
FOURIER = ['sk', 'sk_fast', 'fskt', 'fskt_legacy', 'fkt', 's4kt']
# compiled real-space kernels want positions in the cell, the collective overlap uses them as they are
IMAGES = ['gr_legacy', 'sk', 'sk_fast', 'msd', 'alpha2', 'qst', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy', 'fkt', 's4kt']
MOVES = ['permute', 'shift', 'images', 'mirror', 'axes', 'length', 'time', 'galilei']


UNITS = [2.0**-33, 2.0**33, 2.0**-50, 2.0**50]


@st.composite
def cases(draw, only=None):
    """Any quantity and transformation, or other units for the quantities in `only`."""
    if only:
        kind = draw(st.sampled_from(only))
        move = draw(st.sampled_from(['length', 'time'] if kind in DYN else ['length']))
    else:
        move = draw(st.sampled_from(MOVES))
        kinds = IMAGES if move == 'images' else DYN if move == 'time' else STATIC + DYN
        kind = draw(st.sampled_from(kinds))
    big = kind in ('gr', 'sk', 'fskt') and draw(st.integers(0, 5)) == 0
    case = draw(gen.trajectories(motion='walk', max_n=40 if big else 10, min_n=22 if big else 2, max_frames=6, lo=20, hi=50 if kind in FOURIER else 80,
                                 velocities=True, masses=False, dims=(3,) if kind == 'sk_fast' else (2, 3)))
    case['par'] = draw(lib.corr_pars(kind, case))
    if kind == 'gr' and draw(st.integers(0, 2)) == 0:
        case['par']['rmax'] = round(min(case['side']) * draw(st.sampled_from([0.15, 0.2, 0.3])), 3)
    if kind == 'ba':
        rc = case['par']['rcut']
        if draw(st.booleans()):
            case['par']['rcut'] = [[rc[min(i, j)][max(i, j)] for j in range(len(rc))] for i in range(len(rc))]
    if kind in FOURIER and move in ('mirror', 'axes'):
        case['par']['nk'] = 10**6
        case['par']['kgrid'] = [k for k in case['par']['kgrid'] if k < 2.6 * 2 * numpy.pi / max(case['side'])] or [round(2 * numpy.pi / max(case['side']), 6)]
    case['move'] = move
    if move == 'permute':
        case['order'] = list(draw(st.permutations(range(case['n']))))
    elif move in ('shift', 'galilei'):
        case['vector'] = [draw(st.integers(-4000, 4000)) / 1000. for _ in range(case['dim'])]
    elif move == 'images':
        case['seed'] = draw(st.integers(0, 10**6))
    elif move == 'mirror':
        case['axis'] = draw(st.integers(0, case['dim'] - 1))
    elif move == 'axes':
        case['order'] = list(draw(st.permutations(range(case['dim']))))
    else:
        case['scale'] = draw(st.sampled_from([2.0, 4.0, 0.5, 0.25, 1024.0, 2.0**-10, 2.0**-20, 2.0**20] + UNITS + ([3.0, 0.7, 10.0] if move == 'length' and kind not in FOURIER else [])))
    kind_groups = draw(lib.group_choices(case))
    case['groups'] = kind_groups if lib.KINDS[kind]['bodies'] == 2 else kind_groups[:1]
    return case


def ambiguous(d, par, groups):
    """Distances, displacements or angles so close to a threshold that rounding decides."""
    kind = par['kind']
    if kind in ('gr', 'gr_legacy'):
        fa, fb, same = lib.group_frames(d, groups)
        edges = numpy.arange(int(2 * max(d.side) * d.dim / par['dr']) + 2) * par['dr']
        for top in (min(d.side) / 2, par.get('rmax', 0.0)):
            # the last distance is as large as the limit
            x = top / par['dr'] - 0.5
            if abs(x - round(x)) < 1e-7:
                return True
        for i in range(d.frames):
            r = ref.pair_distances(fa[i], fb[i], d.side, 'half' if same else 'all')
            lo, hi = ref.hist_bounds(r, edges, 1e-7)
            if (lo != hi).any() or (numpy.abs(r - par.get('rmax', -1)) < 1e-7).any():
                return True
    if kind == 'ba':
        fa, fb, same = lib.group_frames(d, groups)
        names = sorted(set(d.species))
        ia, ib = angles.species_ids(d, groups, names)
        edges = numpy.arange(int(180. / par['dtheta']) + 1) * par['dtheta']
        lo, hi, _ = angles.histogram(d, fa, fb, ia, ib, same, par['rcut'], edges, range(d.frames))
        return bool((lo != hi).any())
    if kind in ('qst', 'chi4', 'chi4_opt', 's4kt', 'qt'):
        a = par['a']
        arr = d.pos if kind == 'qt' else d.unf
        for i in range(d.frames):
            for j in range(i, d.frames):
                x = arr[j][:, None] - arr[i][None] if kind == 'qt' else arr[j] - arr[i]
                if (numpy.abs(numpy.sqrt((x**2).sum(axis=-1)) - a) < 1e-8).any():
                    return True
    if kind == 'alpha2':
        sel = lib.sel_indices(d, groups[0] if groups else None)
        for i in range(d.frames):
            for j in range(i + 1, d.frames):
                if ((d.unf[j][sel] - d.unf[i][sel])**2).sum() < 1e-10:
                    return True
    return False


def moved(d, case):
    """The transformed trajectory and the parameters to use with it."""
    e = copy.copy(d)
    par = copy.deepcopy(case['par'])
    move = case['move']
    if move == 'permute':
        o = case['order']
        e.pos, e.unf, e.vel = d.pos[:, o], d.unf[:, o], d.vel[:, o]
        e.species = [d.species[k] for k in o]
        e.mass, e.radius = d.mass[o], d.radius[o]
    elif move == 'shift':
        e.unf = d.unf + numpy.array(case['vector'])
        e.pos = e.unf if par['kind'] == 'qt' else d.wrap(e.unf)
        if par['kind'] == 'qt':
            # (nothing is folded in this case)
            d.pos = d.unf
    elif move == 'galilei':
        # each frame of a static function may be shifted on its own
        v = numpy.array(case['vector'])
        if par['kind'] in STATIC:
            e.unf = d.unf + v * (1 + numpy.arange(d.frames))[:, None, None]
        else:
            e.unf = d.unf + v
        e.pos = d.wrap(e.unf)
        if par['kind'] == 'qt':
            raise Reject('images matter for the collective overlap')
    elif move == 'images':
        rng = numpy.random.RandomState(case['seed'])
        e.pos = d.pos + d.side * rng.randint(-2, 3, size=d.pos.shape)
    elif move == 'mirror':
        k = case['axis']
        e.pos, e.unf, e.vel = d.pos.copy(), d.unf.copy(), d.vel.copy()
        for arr in (e.pos, e.unf, e.vel):
            arr[..., k] *= -1
    elif move == 'axes':
        o = case['order']
        e.pos, e.unf, e.vel = d.pos[..., o], d.unf[..., o], d.vel[..., o]
        e.side = d.side[o]
        e.sides = [e.side] * d.frames
    elif move == 'length':
        s = case['scale']
        e.pos, e.unf, e.vel = d.pos * s, d.unf * s, d.vel * s
        e.side = d.side * s
        e.sides = [e.side] * d.frames
        for key in ('dr', 'rmax', 'a'):
            if key in par:
                par[key] *= s
        if 'rcut' in par:
            par['rcut'] = [[x * s for x in row] for row in par['rcut']]
        if 'kgrid' in par:
            par['kgrid'] = [k / s for k in par['kgrid']]
            par['dk'] /= s
    elif move == 'time':
        e.dt = d.dt * case['scale']
        par['tgrid'] = [t * case['scale'] for t in par['tgrid']]
    return e, par


def factors(case, names):
    """By how much each grid and the value change."""
    if case['move'] == 'time':
        return [case['scale'] if x == 't' else 1.0 for x in names], 1.0
    if case['move'] == 'length':
        s = case['scale']
        grid = [1 / s if x == 'k' else s if x == 'r' else 1.0 for x in names]
        return grid, s**2 if case['par']['kind'] in ('msd', 'vacf') else 1.0
    return [1.0] * len(names), 1.0


def run(case):
    d = gen.Data(case)
    par, groups, kind = case['par'], case['groups'], case['par']['kind']
    if kind in ('gr', 'gr_legacy') or lib.KINDS[kind]['bodies'] == 2:
        for g in groups or [None]:
            if len(lib.sel_indices(d, g)) < (2 if len(groups) < 2 and kind != 'fkt' else 1):
                raise Reject('no pairs')
    e, epar = moved(d, case)
    if ambiguous(d, par, groups):
        raise Reject('on a threshold')
    if kind in FOURIER and case['move'] in ('length', 'axes', 'mirror'):
        lib.available_shells(par['kgrid'], par['dk'], d.side)
    a = lib.run(par, gen.ram(d), groups)
    b = lib.run(epar, gen.ram(e), groups)
    what = '%s after %s' % (kind, case['move'])
    names = a.grid_name
    fg, fv = factors(case, names)
    ga, gb = (a.grid, b.grid) if len(names) > 1 else ([a.grid], [b.grid])
    for x, y, f in zip(ga, gb, fg):
        ref.same(numpy.asarray(y, dtype=float), numpy.asarray(x, dtype=float) * f, what + ' (grid)', 1e-9, 1e-12)
    va, vb = (a.value_nonorm, b.value_nonorm) if kind == 'fkt' else (a.value, b.value)
    va, vb = numpy.array(lib.flat(va)) * fv, numpy.array(lib.flat(vb))
    scale = numpy.nanmax(numpy.abs(va)) if len(va) and numpy.isfinite(va).any() else 0.0
    ref.same(vb, va, what, 1e-7, 1e-8 * scale + 1e-10 * fv if kind != 'alpha2' else 1e-6)
    changed = not (numpy.array_equal(d.pos, e.pos) and numpy.array_equal(d.vel, e.vel) and d.dt == e.dt)
    return changed and len(va) > 1 and scale > 0, [kind, case['move'], 'dim%d' % d.dim]


def units(*kinds, quick=300):
    """The same results in other units of length and time."""
    return Sub('units', lambda: cases(kinds), run, quick=quick)


PROP = Prop('P13', 'the transformation changes the stored data, the result has more than one entry and is not zero everywhere',
            [Sub('moves', cases, run, quick=6000),
             Sub('sizes', gen.large(cases), run, quick=420, thorough=8400)],
            ['cases with a pair distance, displacement or angle within rounding of a threshold are skipped',
             'Fourier quantities are compared under mirror and axis exchange with complete shells only, and under change of units by powers of two',
             'images: not for the compiled real-space kernels, which take positions inside the cell'])
