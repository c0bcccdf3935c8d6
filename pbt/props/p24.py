"""Compiled kernels: bounds (bounds-checked build, guard values) and values against the defining formula."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

REAL = ['self_overlap', 'pbc', 'pbch', 'bin_in_cell', 'on_surface', 'on_surface_c', 'bond_angle', 'neighbors', 'neighbors_list', 'neighbors_full',
        'neighbors_subset', 'gr_self', 'gr_self_c', 'gr_distinct', 'gr_distinct_c', 'gr_neighbors_self', 'gr_neighbors_self_c',
        'gr_neighbors_distinct', 'gr_neighbors_distinct_c', 'distances_self', 'distances_distinct', 'distances_single']
FOURIER = ['sk_bare', 'fskt_kernel_2d', 'fskt_kernel_3d', 'fskt_kernel_nd']
GUARD = 7
EPS = 1e-9


@st.composite
def cases(draw):
    kernel = draw(st.sampled_from(REAL + FOURIER))
    n, m = draw(st.integers(0, 12)), draw(st.integers(0, 12))
    dim = draw(st.sampled_from([2, 3, 3]))
    case = {'kernel': kernel, 'n': n, 'm': m, 'dim': dim, 'side': draw(gen.sides(dim, 10, 60)),
            'quant': draw(st.sampled_from([65536, 65536, 65536, 8])), 'data': gen.hexdata(draw, (n + m + 1) * dim)}
    if kernel.startswith('gr_'):
        case['bins'] = draw(st.integers(1, 30))
        case['dr'] = draw(st.sampled_from([0.05, 0.1, 0.3, 1.0]))
    if kernel.startswith('neighbors') or kernel.startswith('gr_neighbors'):
        case['offset'] = draw(st.sampled_from(['C', 'F']))
        case['rcut'] = [draw(st.integers(1, 30)) / 10. + 0.00137 for _ in range(3)]
        case['ids'] = [draw(st.integers(0, 1)) for _ in range(n + m)]
        case['pick'] = draw(st.integers(0, 2**30))
    if kernel == 'bond_angle':
        case['dtheta'] = draw(st.sampled_from([4.0, 10.0, 7.0, 180.0, 0.5]))
        case['shape'] = draw(st.sampled_from(['exact', 'exact', 'short', 'one']))
        case['pick'] = draw(st.integers(0, 2**30))
    if kernel in ('self_overlap', 'on_surface', 'on_surface_c'):
        case['x'] = draw(st.integers(1, 60)) / 20. + 0.00137
    if kernel in FOURIER:
        case['offset_k'] = draw(st.integers(1, 3))
        case['pick'] = draw(st.integers(0, 2**30))
        case['frames'] = draw(st.integers(1, 4))
        case['nvec'] = draw(st.integers(1, 6))
        case['nd'] = draw(st.integers(1, 4))
    return case


class Guarded:
    """An array inside a larger buffer with guard values around it."""

    def __init__(self, shape, dtype, order='C', fill=0):
        size = int(numpy.prod(shape))
        self.buffer = numpy.full(size + 2 * GUARD, 77, dtype=dtype)
        self.size = size
        self.array = self.buffer[GUARD:GUARD + size].reshape(shape, order=order)
        self.array[...] = fill

    def check(self, what):
        ok = (self.buffer[:GUARD] == 77).all() and (self.buffer[GUARD + self.size:] == 77).all()
        check(ok, '%s writes outside the array', what)


def frac(case):
    n, m, dim = case['n'], case['m'], case['dim']
    x = (gen.decode(case['data'], (n + m + 1, dim), case['quant']) - 0.5) * numpy.array(case['side'])
    return x[:n], x[n:n + m], x[n + m]


def dist_matrix(a, b, side):
    if len(a) == 0 or len(b) == 0:
        return numpy.zeros((len(a), len(b)))
    d = ref.min_image(a[:, None, :] - b[None, :, :], side)
    return numpy.sqrt((d**2).sum(axis=2))


def f(x):
    """(dim, n) Fortran-ordered view of the positions."""
    return x.transpose()


def call(func, *args):
    with target(func.__name__ if hasattr(func, '__name__') else 'kernel'):
        try:
            return func(*args)
        except TypeError as exc:
            # kernels are internal: other arguments are no defect (the classes below depend on them)
            if 'argument' in str(exc):
                raise Reject('arguments of the kernel: %s' % exc)
            raise


def get(module, name):
    func = getattr(module, name, None)
    if func is None:
        raise Reject('there is no kernel %s' % name)
    return func


def histogram(values, dr, bins):
    values = numpy.asarray(values, dtype=float)
    edges = numpy.arange(bins + 1) * dr
    if len(values) and (numpy.abs(values[:, None] - edges[None, :]) < EPS).any():
        # on an edge: either of the adjacent bins
        lo, hi = ref.hist_bounds(values, edges)
        return lo, hi
    h = numpy.histogram(values, edges)[0].astype(float)
    return h, h


def run(case):
    from atooms.postprocessing.realspace_wrap import compute
    from atooms.postprocessing.fourierspace_wrap import fourierspace_module
    kernel = case['kernel']
    func = get(fourierspace_module if kernel in FOURIER else compute, kernel)
    if kernel in FOURIER:
        return run_fourier(case, func)
    x, y, c = frac(case)
    n, m, dim = case['n'], case['m'], case['dim']
    side = numpy.array(case['side'])
    labels = [kernel, 'dim%d' % dim, 'empty' if n == 0 or m == 0 else 'some']
    if kernel in ('pbc', 'pbch'):
        d = (x[0] - c) if n else c * 1.5
        out = Guarded((dim,), float)
        out.array[:] = d
        call(func, out.array, side, *([side / 2] if kernel == 'pbch' else []))
        out.check(kernel)
        k = (out.array - d) / side
        ref.same(k, numpy.rint(k), kernel + ': whole cells', 1e-9)
        check((numpy.abs(out.array) <= side / 2 + EPS).all(), '%s of %s gives %s in a cell %s', kernel, list(d), list(out.array), list(side))
        return bool((numpy.abs(d) > side / 2).any()), labels
    if kernel == 'self_overlap':
        if n != m:
            y = x[:, :] * 0.7 if n else x
        r = numpy.sqrt(((x - y)**2).sum(axis=1))
        if (numpy.abs(r - case['x']) < EPS).any():
            raise Reject('on a threshold')
        # (both layouts)
        for order in ('C', 'F'):
            got = call(func, numpy.array(x, order=order), numpy.array(y, order=order), case['x']**2)
            check(got == (r < case['x']).sum(), 'self_overlap is %r, expected %d', got, (r < case['x']).sum())
        return n > 1, labels
    if kernel == 'bin_in_cell':
        ncell = numpy.maximum(1, (side / 0.9).astype(int))
        cell = side / ncell
        z = (x + side / 2) / cell
        if n and (numpy.abs(z - numpy.rint(z)) < EPS).any():
            raise Reject('on a threshold')
        out = Guarded((dim, n), numpy.int64, 'F')
        call(func, f(x), side / 2, cell, out.array)
        out.check(kernel)
        check(numpy.array_equal(out.array.T, numpy.floor(z).astype(int)), 'bin_in_cell: %s', out.array.T.tolist())
        return n > 1, labels
    if kernel in ('on_surface', 'on_surface_c'):
        z = numpy.abs(x) - (side / 2 - case['x'])
        if n and (numpy.abs(z) < EPS).any():
            raise Reject('on a threshold')
        want = (z > 0).any(axis=1) if n else numpy.zeros(0, dtype=bool)
        got = call(func, x if kernel.endswith('_c') else f(x), side, case['x'])
        check(len(got) == n and [bool(g) for g in got] == [bool(w) for w in want], '%s: %s, expected %s', kernel, list(got), list(want))
        return n > 1, labels + ['mixed' if 0 < sum(want) < n else 'uniform']
    if kernel == 'bond_angle':
        rng = numpy.random.RandomState(case['pick'])
        pick = rng.permutation(m)[:rng.randint(0, m + 1)].astype(numpy.int32)
        bins = {'exact': int(180. / case['dtheta']) + 1, 'short': max(1, int(90. / case['dtheta'])), 'one': 1}[case['shape']]
        d = ref.min_image(c - y, side) if m else numpy.zeros((0, dim))
        if m and (numpy.abs(numpy.abs(d) - side / 2) < EPS).any():
            raise Reject('a vector at half a side')
        theta = []
        for j in pick:
            for k in pick:
                nj, nk = numpy.sqrt((d[j]**2).sum()), numpy.sqrt((d[k]**2).sum())
                if j != k and nj * nk > 0:
                    theta.append(numpy.degrees(numpy.arccos(numpy.clip(numpy.dot(d[j], d[k]) / (nj * nk), -1, 1))))
        theta = numpy.array(theta)
        edges = numpy.arange(bins + 1) * case['dtheta']
        lo, hi = ref.hist_bounds(theta, edges, 1e-5) if len(theta) else (numpy.zeros(bins), numpy.zeros(bins))
        out = Guarded((bins,), numpy.int32, fill=5)
        call(func, c, f(y), pick, side, case['dtheta'], out.array)
        out.check(kernel)
        ref.within(out.array, lo, hi, kernel)
        return len(theta) > 2, labels
    if kernel.startswith('neighbors'):
        return run_neighbors(case, func, x, y, c, side, labels)
    if kernel.startswith('gr_'):
        return run_gr(case, func, x, y, side, labels)
    # distances
    h = side / 2
    if kernel == 'distances_self':
        first = case['n'] // 3 + 1
        want = [v for i in range(first - 1, n) for v in dist_matrix(x, x, side)[i, i + 1:]]
        out = Guarded((max(1, len(want)),), float)
        k = call(func, first, n, f(x), side, h, out.array)
    elif kernel == 'distances_distinct':
        first = case['n'] // 3 + 1
        want = dist_matrix(x, y, side)[first - 1:].ravel()
        out = Guarded((max(1, len(want)),), float)
        k = call(func, first, n, f(x), f(y), side, h, out.array)
    else:
        want = dist_matrix(c[None, :], y, side).ravel()
        out = Guarded((max(1, len(want)),), float)
        k = call(func, c, f(y), side, h, out.array)
    out.check(kernel)
    check(k == len(want), '%s: %d distances instead of %d', kernel, k, len(want))
    ref.same(out.array[:k], want, kernel, 1e-9, 1e-9)
    return len(want) > 1, labels


def run_neighbors(case, func, x, y, c, side, labels):
    kernel, n, m = case['kernel'], case['n'], case['m']
    shift = 0 if case['offset'] == 'C' else 1
    r0, r1, r2 = case['rcut']
    rc = numpy.array([[r0, r1], [r1, r2]])
    if kernel == 'neighbors':
        ids = numpy.array(case['ids'][n:n + m], dtype=numpy.int32)
        r = dist_matrix(c[None, :], y, side).ravel()
        if (numpy.abs(r - rc[0][ids]) < EPS).any():
            raise Reject('on a threshold')
        want = [int(j) + shift for j in range(m) if r[j] < rc[0][ids[j]]]
        nn = numpy.array(3, dtype=numpy.int32)
        out = Guarded((len(want),), numpy.int32)
        call(func, case['offset'], side, c, f(y), ids + shift, rc[0], nn, out.array)
        out.check(kernel)
        check(int(nn) == len(want) and sorted(out.array[:int(nn)].tolist()) == want, 'neighbors: %s, expected %s', out.array[:int(nn)].tolist(), want)
        return len(want) > 0, labels + [case['offset']]
    ids = numpy.array(case['ids'][:n], dtype=numpy.int32)
    r = dist_matrix(x, x, side)
    cut = rc[ids][:, ids] if n else numpy.zeros((0, 0))
    if n and (numpy.abs(r - cut) < EPS).any():
        raise Reject('on a threshold')
    near = (r < cut) & ~numpy.eye(n, dtype=bool)
    args = []
    if kernel == 'neighbors_subset':
        # a list of pairs, each given once; the result lists both particles of each
        rng = numpy.random.RandomState(case['pick'])
        use = numpy.triu(rng.rand(n, n) < 0.7, 1)
        flip = rng.rand(n, n) < 0.5
        use = (use & ~flip) | (use & flip).T
        number = use.sum(axis=1).astype(numpy.int32)
        subset = numpy.zeros((n, max(1, int(number.max(initial=0)))), dtype=numpy.int32, order='F')
        for i in range(n):
            subset[i, :number[i]] = numpy.nonzero(use[i])[0] + shift
        near = near & (use | use.T)
        args = [subset, number]
    want = [sorted(int(j) + shift for j in numpy.nonzero(near[i])[0]) for i in range(n)]
    width = max([len(w) for w in want] + [1])
    nn, out = Guarded((n,), numpy.int32, fill=3), Guarded((n, width), numpy.int32, 'F')
    call(func, case['offset'], side, f(x), *(args + [ids + 1, rc, nn.array, out.array]))
    nn.check(kernel)
    out.check(kernel)
    got = [sorted(out.array[i, :nn.array[i]].tolist()) for i in range(n)]
    check(got == want, '%s: %s, expected %s', kernel, got, want)
    return any(want), labels + [case['offset']]


def run_gr(case, func, x, y, side, labels):
    kernel, n, m = case['kernel'], case['n'], case['m']
    c_order = kernel.endswith('_c')
    self_kind = '_self' in kernel
    lay = (lambda a: a) if c_order else f
    other = x if self_kind else y
    r = dist_matrix(x, other, side)
    args = []
    if 'neighbors' in kernel:
        rng = numpy.random.RandomState(case['pick'])
        use = rng.rand(*r.shape) < 0.7
        if self_kind:
            use = numpy.triu(use, 1) if rng.rand() < 0.5 else use & ~numpy.eye(n, dtype=bool)
        shift = 0 if case['offset'] == 'C' else 1
        number = use.sum(axis=1).astype(numpy.int64)
        # (indices beyond the number of neighbours are not valid)
        neigh = numpy.full((n, int(number.max(initial=0)) + 1), 10**9, dtype=numpy.int64)
        for i in range(n):
            neigh[i, :number[i]] = numpy.nonzero(use[i])[0] + shift
        values = r[use]
        args = [neigh, number]
        labels = labels + [case['offset']]
    else:
        values = r[numpy.triu_indices(n, 1)] if self_kind else r.ravel()
    lo, hi = histogram(values, case['dr'], case['bins'])
    hist, bins = Guarded((case['bins'],), numpy.int64, fill=9), Guarded((case['bins'],), float)
    pos = [lay(x)] if self_kind else [lay(x), lay(y)]
    call(func, *(([case['offset']] if 'neighbors' in kernel else []) + pos + args + [side, case['dr'], hist.array, bins.array]))
    hist.check(kernel)
    bins.check(kernel)
    ref.within(hist.array, lo, hi, kernel)
    ref.same(bins.array, (numpy.arange(case['bins']) + 0.5) * case['dr'], kernel + ' bins', 1e-9)
    return bool(hi.sum() > 0), labels


def run_fourier(case, func):
    kernel, n = case['kernel'], case['n']
    dim = {'sk_bare': 3, 'fskt_kernel_2d': 2, 'fskt_kernel_3d': 3, 'fskt_kernel_nd': case['nd']}[kernel]
    rng = numpy.random.RandomState(case['pick'])
    nk = 2 * case['offset_k'] + 1
    vec = rng.randint(0, nk, size=(dim, case['nvec']))
    if rng.rand() < 0.3:
        vec[:] = rng.choice([0, nk - 1], size=vec.shape)     # the ends of the table
    labels = [kernel, 'empty' if n == 0 else 'some']
    if kernel == 'sk_bare':
        expo = numpy.exp(1j * rng.rand(n, 3, nk) * 6.3)
        want = [numpy.prod([expo[:, a, v[a]] for a in range(3)], axis=0).sum() for v in vec.T]
        out = Guarded((case['nvec'],), complex)
        call(func, expo, numpy.array(vec + 1, dtype=numpy.int32, order='F'), out.array)
        out.check(kernel)
        got = out.array
    else:
        t = case['frames']
        expo = numpy.exp(1j * rng.rand(t, n, dim, nk) * 6.3)
        t1, t2 = rng.randint(0, t), rng.randint(0, t)
        got, want = [], []
        for v in vec.T:
            got.append(call(func, numpy.asfortranarray(expo), t1 + 1, t2 + 1, numpy.array(v + 1, dtype=numpy.int32)))
            want.append(numpy.prod([expo[t1, :, a, v[a]] * expo[t2, :, a, v[a]].conj() for a in range(dim)], axis=0).sum())
    ref.same(numpy.real(got), numpy.real(want), kernel + ' (real part)', 1e-9, 1e-9)
    # (the caller takes the real part: either sign of the exponent would do)
    ref.same(numpy.imag(got), numpy.imag(want), kernel + ' (imaginary part)', 1e-9, 1e-9)
    return n > 0, labels


# ---------------------------------------------------------------------- the classes on top, bounds-checked

CLASSES = ['gr', 'gr_rmax', 'ba', 'sk_fast', 'fskt', 'fskt_fast', 'chi4_opt']


@st.composite
def class_cases(draw):
    kind = draw(st.sampled_from(CLASSES))
    static = kind in ('gr', 'gr_rmax', 'ba', 'sk_fast')
    name = 'gr' if kind == 'gr_rmax' else kind
    big = kind in ('ba', 'gr', 'gr_rmax') and draw(st.integers(0, 3)) == 0
    case = draw(gen.trajectories(motion='walk', max_n=45 if big else 14, min_n=30 if big else 1, max_frames=2 if big else 5,
                                 min_frames=1 if static else 2, lo=20, hi=60, velocities=False, variable_n=static and not big,
                                 kinds=('even', 'blocks')))
    case['par'] = draw(lib.corr_pars(name, case))
    if kind == 'gr_rmax':
        case['par']['rmax'] = round(min(case['side']) * draw(st.sampled_from([0.15, 0.2, 0.3, 0.5])), 3)
        case['par']['dr'] = draw(st.sampled_from([0.04, 0.1, 0.02]))
    if kind == 'ba' and draw(st.booleans()):
        big_cut = max(case['side']) * 2
        case['par']['rcut'] = [[big_cut for _ in row] for row in case['par']['rcut']]
    groups = draw(lib.group_choices(case))
    case['groups'] = groups if lib.KINDS[name]['bodies'] == 2 else groups[:1]
    case['tag'] = kind
    return case


def run_class(case):
    d = gen.Data(case)
    kind = case['tag']
    for g in case['groups'] or [None]:
        for i in range(d.frames):
            if len(d.frame(i, 'pos', None if g is None else gen.by_species(g))) == 0:
                raise Reject('empty group')
    if kind == 'ba' and set(d.species[:d.counts[0]]) != set(d.species):
        raise Reject('a species is missing from the first frame')
    if kind == 'ba' and d.n < 2:
        raise Reject('no pairs')
    obj = lib.run(case['par'], gen.ram(d), case['groups'])
    value = lib.flat(obj.value)
    check(len(value) > 0, '%s: no value', kind)
    return d.n > 1, [kind, 'dim%d' % d.dim, lib.GROUP_LABELS[len(case['groups'])], 'large' if d.n > 20 else 'small']


# ---------------------------------------------------------------------- compiled and Python versions on ties

@st.composite
def tie_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    n = draw(st.integers(4, 14).filter(lambda x: x != dim))
    frames = draw(st.integers(2, 4))
    return {'kind': draw(st.sampled_from(['overlap', 'overlap', 'gr'])), 'dim': dim, 'side': [float(draw(st.sampled_from([4, 8, 8, 16]))) for _ in range(dim)],
            'n': n, 'frames': frames, 'grain': draw(st.sampled_from([0.25, 0.5])), 'a': draw(st.integers(1, 8)),
            'moves': gen.hexdata(draw, (frames + 1) * n * dim), 'dr': draw(st.sampled_from([0.25, 0.5, 1.0])), 'two': draw(st.booleans())}


def run_tie(case):
    """Positions, cutoffs and bins with exact binary values: both versions see the same ties."""
    dim, n, frames = case['dim'], case['n'], case['frames']
    side = numpy.array(case['side'])
    raw = numpy.floor(gen.decode(case['moves'], (frames + 1, n, dim)) * 65536).astype(int)
    pos = [(raw[0] % 64) * case['grain']]
    for i in range(1, frames):
        pos.append(pos[-1] + (raw[i] % 5 - 2) * case['grain'])
    pos = [gen.fold(x, side) for x in pos]
    if case['kind'] == 'gr':
        pos = [gen.fold((x % 32) * case['grain'], side) for x in raw[:frames]]
    base = {'dim': dim, 'side': case['side'], 'n': n, 'steps': list(range(frames)), 'dt': 1.0, 'motion': 'free', 'quant': 65536,
            'species': [['A', 'B'][k % 2] if case['two'] else 'A' for k in range(n)], 'pos': 'rnd:1'}
    d = gen.Data(base)
    d.pos = numpy.array(pos)
    out, ties = [], 0
    if case['kind'] == 'overlap':
        a = case['a'] * case['grain']
        for kind in ('chi4', 'chi4_opt'):
            out.append(lib.run({'kind': kind, 'norigins': -1, 'tgrid': [float(t) for t in range(frames)], 'a': a}, gen.ram(d)))
        ref.same(out[0].average.value, out[1].average.value, 'average overlap, Python and compiled', 1e-12, 1e-12)
        lib.same_result(out[0], out[1], 'chi_4, Python and compiled', 1e-9, 1e-9)
        move = gen.fold(d.pos[1:] - d.pos[:-1], side)
        ties = int((numpy.sqrt((move**2).sum(axis=2)) == a).sum())
    else:
        groups = ['A', 'B'] if case['two'] else []
        if case['two'] and n // 2 == dim or (n + 1) // 2 == dim:
            raise Reject('a group of as many particles as dimensions')
        for kind in ('gr_legacy', 'gr_fast'):
            out.append(lib.run({'kind': kind, 'norigins': -1, 'dr': case['dr']}, gen.ram(d), groups))
        m = min(len(o.grid) for o in out)
        ref.same(out[0].value[:m], out[1].value[:m], 'g(r), Python and compiled', 1e-9, 1e-12)
        r = dist_matrix(d.pos[0], d.pos[0], side)[numpy.triu_indices(n, 1)]
        ties = int((numpy.floor(r / case['dr']) * case['dr'] == r).sum())
    return ties > 0, [case['kind'], 'dim%d' % dim]


PROP = Prop('P24', 'kernels: at least two particles, pairs or neighbours to handle; classes: two particles or more',
            [Sub('kernels', cases, run, quick=9000, isolate=True),
             Sub('classes', class_cases, run_class, quick=2000, isolate=True),
             Sub('ties', tie_cases, run_tie, quick=900),
             Sub('sizes', gen.large(class_cases), run_class, quick=180, thorough=3600, isolate=True)],
            ['kernels are built with array bounds checks and called on arrays with guard values around them',
             'positions inside the cell (the kernels fold once)', 'cases with a distance within 1e-9 of a cutoff are skipped'],
            checked=True)
