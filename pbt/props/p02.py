"""Linked cells."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target


@st.composite
def positions(draw, n, dim, box):
    """Fractions, some of them exactly on the boundaries of the cell or of the subcells."""
    hexs = gen.hexdata(draw, n * dim) if n < 60 else 'rnd:%d' % draw(st.integers(0, 2**31 - 1))
    return {'hex': hexs, 'n': n, 'quant': draw(st.sampled_from([65536, 65536, 24, 12, 8, 6])), 'top': draw(st.booleans())}


def place(p, dim, box):
    frac = gen.decode(p['hex'], (p['n'], dim), p['quant'])
    pos = (frac - 0.5) * box
    if p['top']:
        # the upper boundary belongs to the cell as well
        pos = numpy.where(frac == 0, box / 2, pos)
    return pos


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    rcut = draw(st.integers(5, 30)) / 10.
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        periodic = draw(st.sampled_from([None, None, [True] * dim] + ([[True] * (dim - 1) + [False], [False] * dim, [False] + [True] * (dim - 1)])))
        per = [True] * dim if periodic is None else periodic
        few = draw(st.integers(0, 3)) == 0      # less than three subcells along a side, or a cutoff beyond the side
        ratio = [draw(st.integers(2 if few or not p else 30, 65 if dim == 2 else 52)) / 10. for p in per]
        box = [r * rcut for r in ratio]
        n = draw(st.integers(0, 40))
        call = {'box': box, 'pos': draw(positions(n, dim, box)), 'as_array': draw(st.booleans()), 'periodic': periodic,
                'newton': draw(st.sampled_from([True, True, False]))}
        if draw(st.integers(0, 2)) == 0:
            m = draw(st.integers(0, 30))
            call['other'] = draw(positions(m, dim, box))
        calls.append(call)
        if draw(st.booleans()):
            calls.append(dict(call, newton=not call['newton'], as_array=not call['as_array']))
    return {'dim': dim, 'rcut': rcut, 'calls': calls}


def distances(x, y, box, periodic):
    d = x[:, None, :] - y[None, :, :]
    per = numpy.array(periodic)
    d = numpy.where(per, d - box * numpy.rint(d / box), d)
    return numpy.sqrt((d**2).sum(axis=2))


def check_border(lc, pos, box, rcut):
    """on_border() tells whether the subcell of a particle touches the surface of the cell."""
    if (abs(box / rcut - numpy.rint(box / rcut)) < 1e-6).any():
        return
    width = box / numpy.maximum(1, numpy.floor(box / rcut))
    for x in pos[:10]:
        depth = numpy.min([box / 2 + x, box / 2 - x], axis=0)
        if (depth < width - 1e-9).any() or (depth > width + 1e-9).all():
            with target('on_border()'):
                said = bool(lc.on_border(x))
            check(said == bool((depth < width).any()), 'on_border() is %s for the position %s in the box %s, cutoff %r', said, list(x), list(box), rcut)


def run(case):
    from atooms.postprocessing.linkedcells import LinkedCells
    dim, rcut = case['dim'], case['rcut']
    with target('LinkedCells()'):
        lc = LinkedCells(rcut)
    pairs, labels = 0, set()
    for c in case['calls']:
        box = numpy.array(c['box'])
        pos = place(c['pos'], dim, box)
        other = place(c['other'], dim, box) if 'other' in c else None
        with target('LinkedCells.compute()'):
            res = lc.compute(box.copy(), pos.copy(), None if other is None else other.copy(), as_array=c['as_array'],
                             newton=c['newton'], periodic=c['periodic'])
        if c['as_array']:
            arr, number = res
            check(len(number) == len(pos), '%d counts for %d particles', len(number), len(pos))
            neigh = [[int(j) for j in arr[i, :number[i]]] for i in range(len(pos))]
        else:
            neigh = [[int(j) for j in row] for row in res]
        check(len(neigh) == len(pos), '%d lists for %d particles', len(neigh), len(pos))
        target_n = len(pos) if other is None else len(other)
        r = distances(pos, pos if other is None else other, box, c['periodic'] or [True] * dim)
        listed = {}
        for i, row in enumerate(neigh):
            for j in row:
                check(0 <= j < target_n, 'particle %d lists the index %d of %d', i, j, target_n)
                check(other is not None or i != j, 'particle %d is its own neighbour', i)
                key = (i, j) if other is not None or not c['newton'] else (min(i, j), max(i, j))
                check(key not in listed, 'the pair %s is listed twice', key)
                listed[key] = True
        for i in range(len(pos)):
            for j in (int(k) for k in numpy.nonzero(r[i] < rcut - 1e-9)[0]):
                if other is None and (i == j or (c['newton'] and i > j)):
                    continue
                pairs += 1
                check((i, j) in listed, 'particles %d at %s and %d at %s, closer (%r) than the cutoff %r, are not listed (box %s)',
                      i, list(pos[i]), j, list((pos if other is None else other)[j]), float(r[i, j]), rcut, list(box))
        check_border(lc, pos, box, rcut)
        labels.add('dim%d' % dim)
        labels.add('distinct' if other is not None else 'half' if c['newton'] else 'full')
        labels.add('array' if c['as_array'] else 'list')
        labels.add('periodic' if all(c['periodic'] or [True]) else 'partly periodic' if any(c['periodic']) else 'open')
        labels.add('few subcells' if (box / rcut < 3).any() else 'many subcells')
        labels.add('many calls' if len(case['calls']) > 1 else 'one call')
    return pairs > 0, sorted(labels)


@st.composite
def large_cases(draw):
    """Many subcells and hundreds of particles."""
    dim = draw(st.sampled_from([2, 3]))
    rcut = draw(st.integers(5, 30)) / 10.
    per = draw(st.sampled_from([[True] * dim, [True] * dim, [False] * dim]))
    box = [draw(st.integers(30, 300 if dim == 2 else 120)) / 10. * rcut for _ in range(dim)]
    call = {'box': box, 'pos': draw(positions(draw(st.integers(60, 500)), dim, box)), 'as_array': draw(st.booleans()), 'periodic': per,
            'newton': draw(st.sampled_from([True, True, False]))}
    if draw(st.integers(0, 2)) == 0:
        call['other'] = draw(positions(draw(st.integers(60, 400)), dim, box))
    return {'dim': dim, 'rcut': rcut, 'calls': [call]}


@st.composite
def gr_cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=45, min_n=8, max_frames=2, lo=60, hi=120))
    case['quant'] = draw(st.sampled_from([65536, 65536, 24, 16]))
    case['dr'] = draw(st.sampled_from([0.1, 0.25, 0.3, 0.5]))
    # linked cells are used when the sides exceed four times the cutoff (including one bin)
    case['frac'] = draw(st.sampled_from([0.15, 0.2, 0.22, 0.24, 0.3]))
    case['groups'] = draw(lib.group_choices(case))
    if draw(st.integers(0, 2)) == 0:
        # a cell that changes (the choice is made for the first one)
        one = [draw(st.sampled_from([1.0, 1.0, 1.3, 0.7, 0.45])) for _ in range(case['dim'] - 1)]
        case['shape'] = [[1.0] * case['dim']] + [one + [float(1.0 / numpy.prod(one))] for _ in case['steps'][1:]]
    return case


def run_gr(case):
    d = gen.Data(case)
    if 'shape' in case:
        ratio = numpy.array(case['shape'])
        d.sides = [d.side * r for r in ratio]
        d.pos = d.pos * ratio[:, None, :]
    rmax = round(case['frac'] * min(case['side']) - case['dr'], 4)
    if rmax < 1.5 * case['dr']:
        raise Reject('rmax too small')
    fa, fb, same_group = lib.group_frames(d, case['groups'])
    par = {'kind': 'gr_fast', 'norigins': -1, 'dr': case['dr']}
    full = lib.run(par, gen.ram(d), case['groups'])
    part = lib.run(dict(par, rmax=rmax), gen.ram(d), case['groups'])
    m = len(part.grid)
    check(m > 0 and numpy.all(numpy.asarray(part.grid) <= rmax + 1e-9), 'g(r) with rmax=%r reports %s', rmax, list(part.grid))
    m = min(m, len(full.grid))
    ref.same(part.grid[:m], full.grid[:m], 'distances')
    edges = numpy.arange(len(full.grid) + 1) * case['dr']
    for i in range(d.frames):
        r = ref.pair_distances(fa[i], fb[i], d.sides[i], 'half' if same_group else 'all')
        lo, hi = ref.hist_bounds(r, edges, 1e-7)
        if (lo != hi).any():
            raise Reject('distances on the edge of a bin')
    ref.same(part.value[:m], full.value[:m], 'g(r) with and without rmax=%r' % rmax, 1e-9)
    linked = int(min(d.sides[0] / (rmax + case['dr']))) > 3
    return linked and numpy.max(part.value) > 0, ['linked cells' if linked else 'brute force', 'dim%d' % d.dim,
                                                  'cell varies' if 'shape' in case else 'fixed cell', lib.GROUP_LABELS[len(case['groups'])]]


PROP = Prop('P02',
            'at least one pair closer than the cutoff; for g(r): linked cells in use and at least one pair below rmax',
            [Sub('cells', cases, run, quick=4500),
             Sub('gr', gr_cases, run_gr, quick=1500),
             Sub('large', large_cases, run, quick=240, thorough=4000)],
            ['pairs within 1e-9 of the cutoff may be listed or not', 'at most 500 particles, 1 to 30 (2d) or 12 (3d) subcells per side'])
