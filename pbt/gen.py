"""Structured generators.  A case is a JSON-able dict; particle data are hex strings drawn as bytes."""
import os

import numpy
from hypothesis import strategies as st


# ---------------------------------------------------------------------- decoding

def decode(hexs, shape, quant=65536):
    """Fractions in [0,1), quantised to 1/quant (coarse values put particles on edges and faces)."""
    size = int(numpy.prod(shape))
    if hexs.startswith('rnd:'):
        data = numpy.random.RandomState(int(hexs[4:])).bytes(2 * size)
    else:
        data = bytes.fromhex(hexs)
    raw = numpy.frombuffer(data, dtype='<u2').astype(float)
    assert raw.size >= size, (raw.size, shape)
    frac = raw[:size].reshape(shape) / 65536.0
    if quant < 65536:
        frac = numpy.floor(frac * quant) / quant
    return frac


def hexdata(draw, n):
    """2n bytes as hex: drawn directly (structured, shrinkable) or expanded from a drawn seed (generic)."""
    seed = draw(st.integers(0, 2**31 - 1))
    if n > 1500:
        # (large cases keep the seed only)
        return 'rnd:%d' % seed
    if seed % 8 == 0:
        return draw(st.binary(min_size=2 * n, max_size=2 * n)).hex()
    return numpy.random.RandomState(seed).bytes(2 * n).hex()


# ---------------------------------------------------------------------- sizes

SCALE = None


def large(strategy, scales=('wide', 'deep', 'species', 'steps', 'grids')):
    """The same cases at sizes the others do not reach: many particles, frames or species, large steps, long grids."""
    @st.composite
    def cases(draw):
        global SCALE
        SCALE = draw(st.sampled_from(list(scales)))
        try:
            case = draw(strategy())
            case['sized'] = SCALE
        finally:
            SCALE = None
        return case
    return cases


def rescale(min_n, max_n, min_frames, max_frames, max_species):
    if SCALE == 'wide':
        return max(min_n, 40), max(260, max_n), min_frames, max(min_frames, min(max_frames, 4)), max_species
    if SCALE == 'deep':
        return min_n, max(min_n + 1, min(max_n, 4)), max(min_frames, 30), max(130, max_frames), max_species
    if SCALE == 'species':
        return max(min_n, 8), max(20, max_n), min_frames, max_frames, 6
    return min_n, max_n, min_frames, max_frames, max_species


# ---------------------------------------------------------------------- pieces

TIMESTEPS = [1.0, 0.5, 0.1, 0.002, 0.25, 2.0]


@st.composite
def sides(draw, dim, lo=20, hi=120):
    kind = draw(st.sampled_from(['any', 'any', 'cubic', 'long']))
    if kind == 'cubic':
        s = draw(st.integers(lo, hi)) / 10.
        return [s] * dim
    if kind == 'long':
        s = [draw(st.integers(lo, max(lo, hi // 2))) / 10. for _ in range(dim)]
        k = draw(st.integers(0, dim - 1))
        s[k] = s[k] * draw(st.sampled_from([2, 3]))
        return [round(x, 3) for x in s]
    return [draw(st.integers(lo, hi)) / 10. for _ in range(dim)]


@st.composite
def step_lists(draw, max_frames, min_frames=1, kinds=('even', 'blocks', 'even'), start=True):
    """Steps of the frames: evenly spaced, block-periodic (growing gaps in a block) or irregular."""
    if SCALE == 'steps':
        steps = draw(small_step_lists(max_frames, min_frames, kinds, start))
        scale, first = draw(st.sampled_from([1, 50, 1000, 12345, 2000000])), draw(st.sampled_from([0, 0, 1000000, 123456789])) if start else 0
        return [first + scale * (s - steps[0]) for s in steps]
    return draw(small_step_lists(max_frames, min_frames, kinds, start))


@st.composite
def small_step_lists(draw, max_frames, min_frames, kinds, start):
    kind = draw(st.sampled_from(list(kinds)))
    first = draw(st.sampled_from([0, 0, 0, 1, 7, 100])) if start else 0
    if kind == 'blocks' and max_frames >= 6:
        bs = draw(st.integers(2, min(4 if SCALE is None else 12, max_frames // 3)))
        base = draw(st.integers(1, 3))
        deltas = [base]
        double = draw(st.integers(0, 3)) == 0
        for i in range(bs - 1):
            # (a logarithmic block doubles the gaps)
            deltas.append(base * 2**i if double else deltas[-1] + draw(st.integers(0, 3)))
        if deltas[-1] <= base:
            deltas[-1] = base + draw(st.integers(1, 3))
        nbl = draw(st.integers(max(2, -(-min_frames // bs)), max_frames // bs))
        steps, cur = [], 0
        for _ in range(nbl):
            for d in deltas:
                steps.append(cur)
                cur += d
        if draw(st.booleans()) and len(steps) < max_frames:
            steps.append(cur)       # the block may be closed by one more frame
        return steps
    n = draw(st.integers(max(1, min_frames), max_frames))
    if kind == 'irregular' and n > 2:
        gaps = [draw(st.integers(1, 9)) for _ in range(n - 1)]
        steps = [first]
        for g in gaps:
            steps.append(steps[-1] + g)
        return steps
    gap = draw(st.sampled_from([1, 1, 2, 5, 10]))
    return [first + gap * i for i in range(n)]


@st.composite
def species_lists(draw, n, max_species=3, min_species=1, avoid=None):
    ns = draw(st.integers(min_species, min(max_species, max(1, n))))
    if max_species > 3:
        ns = draw(st.integers(max(min_species, min(4, n)), min(max_species, max(1, n))))
        labels = draw(st.sampled_from([list('ABCDEF'), list('FEDCBA'), list('123456'), ['Si', 'O', 'Na', 'S', 'N', 'Al'], ['1', '10', '0', '2', '11', '01']]))[:ns]
    else:
        labels = draw(st.sampled_from([['A', 'B', 'C'], ['A', 'B', 'C'], ['1', '2', '3'], ['Si', 'O', 'Na'], ['B', 'A', 'C'], ['S', 'Si', 'I'], ['1', '10', '0'], ['AB', 'A', 'B']]))[:ns]
    out = list(labels)
    if n > 60:
        rng = numpy.random.RandomState(draw(st.integers(0, 2**31 - 1)))
        out += [labels[int(k)] for k in rng.randint(0, ns, n - ns)]
        return _avoid([out[k] for k in rng.permutation(n)], avoid)
    for _ in range(n - ns):
        out.append(draw(st.sampled_from(labels)))
    order = draw(st.permutations(range(len(out)))) if len(out) > 1 else [0]
    out = [out[i] for i in order][:n]
    return _avoid(out, avoid)


def _avoid(species, dim):
    """atooms (the dependency) cannot dump groups of exactly `dim` particles in `dim` dimensions: avoid them."""
    out = list(species)
    if len(set(out)) > 3:
        # merge one of each bad species into the most frequent one, whose count stays above
        for sp in sorted(set(out)):
            if out.count(sp) == dim:
                most = max(sorted(set(out)), key=lambda x: (out.count(x), x != sp))
                out[out.index(sp)] = most
    for _ in range(4):
        bad = [sp for sp in sorted(set(out)) if out.count(sp) == dim]
        if not bad:
            return out
        rest = [sp for sp in sorted(set(out)) if sp != bad[0]]
        if not rest:
            break
        # move one particle, from or to the other species
        if out.count(rest[0]) > 1:
            out[out.index(rest[0])] = bad[0]
        else:
            out[out.index(bad[0])] = rest[0]
    return [out[0]] * len(out) if any(out.count(sp) == dim for sp in set(out)) else out


def _counts_ok(species, count, dim):
    part = species[:count]
    return count != dim and all(part.count(sp) != dim for sp in set(part))


@st.composite
def many(draw, n, choices):
    """n of the choices, drawn one by one when they are few."""
    if n <= 60:
        return [draw(st.sampled_from(choices)) for _ in range(n)]
    rng = numpy.random.RandomState(draw(st.integers(0, 2**31 - 1)))
    return [choices[k] for k in rng.randint(0, len(choices), n)]


@st.composite
def trajectories(draw, motion='free', dims=(2, 3), max_n=12, min_n=1, max_frames=8, min_frames=1,
                 kinds=('even', 'blocks', 'even'), lo=20, hi=120, max_species=3, min_species=1, velocities=False,
                 masses=False, radii=False, variable_n=False, start=True, field=None, timesteps=TIMESTEPS, corner=True):
    """motion: 'free' (independent frames in the cell), 'walk' (moves below half a side, folded on demand)."""
    min_n, max_n, min_frames, max_frames, max_species = rescale(min_n, max_n, min_frames, max_frames, max_species)
    dim = draw(st.sampled_from(list(dims)))
    n = draw(st.integers(min_n, max_n).filter(lambda x: x != dim))
    steps = draw(step_lists(max_frames, min_frames, kinds, start))
    frames = len(steps)
    case = {'dim': dim, 'side': draw(sides(dim, lo, hi)), 'n': n, 'steps': steps,
            'dt': draw(st.sampled_from(timesteps if SCALE != 'steps' else [1e-5, 0.0004, 0.002, 0.0025, 1.0])), 'motion': motion,
            'quant': draw(st.sampled_from([65536, 65536, 65536, 16])),
            'species': draw(species_lists(n, max_species, min_species, dim))}
    if motion == 'free':
        case['pos'] = hexdata(draw, n * frames * dim)
    else:
        case['pos'] = hexdata(draw, n * dim)
        case['disp'] = hexdata(draw, n * max(0, frames - 1) * dim)
        # amplitude of the moves in half sides; 0.98 keeps below the unfolding limit
        case['amp'] = draw(st.sampled_from([0.98, 0.98, 0.5, 0.1, 0.02]))
    if velocities:
        case['vel'] = hexdata(draw, n * frames * dim)
    if masses:
        case['mass'] = draw(many(n, [1.0, 1.0, 2.0, 0.5, 7.0]))
    if radii:
        case['radius'] = draw(many(n, [k / 100. for k in range(5, 81)]))
    if field:
        case['field'] = hexdata(draw, n * frames)
    if variable_n:
        vn = draw(st.sampled_from([False, False, True]))
        allowed = [c for c in range(min_n, n + 1) if _counts_ok(case['species'], c, dim)] or [n]
        case['counts'] = draw(many(frames, allowed)) if vn else None
    if corner and draw(st.integers(0, 4)) == 0:
        # the origin is a corner of the cell, not its centre
        case['corner'] = True
    return case


# ---------------------------------------------------------------------- trajectories from cases

class Data:
    """Plain arrays of a case: what the oracle sees."""

    def __init__(self, case):
        self.case = case
        self.dim, self.n, self.steps = case['dim'], case['n'], list(case['steps'])
        self.frames = len(self.steps)
        self.dt = case['dt']
        self.side = numpy.array(case['side'], dtype=float)
        self.species = list(case['species'])
        self.frame_order = case.get('frame_order')
        shape = (self.frames, self.n, self.dim)
        quant = case.get('quant', 65536)
        still = list(case.get('still') or [])       # particles that do not move
        if case['motion'] == 'free':
            self.unf = (decode(case['pos'], shape, quant) - 0.5) * self.side
            self.unf[:, still] = self.unf[0, still]
        else:
            start = (decode(case['pos'], shape[1:], quant) - 0.5) * self.side
            unf = [start]
            if self.frames > 1:
                # in (-amp, amp) * side / 2, strictly below half a side
                disp = (decode(case['disp'], (self.frames - 1, self.n, self.dim)) - 0.5) * case['amp'] * self.side
                disp[:, still] = 0.0
                for d in disp:
                    unf.append(unf[-1] + d)
            self.unf = numpy.array(unf)
        self.pos = fold(self.unf, self.side)
        if case.get('corner'):
            self.pos, self.unf = self.pos + self.side / 2, self.unf + self.side / 2
        self.vel = 4 * (decode(case['vel'], shape) - 0.5) if 'vel' in case else numpy.zeros(shape)
        self.vel[:, still] = 0.0
        self.mass = numpy.array(case.get('mass') or [1.0] * self.n)
        self.masses = None                          # masses that change from frame to frame
        self.radius = numpy.array(case.get('radius') or [0.5] * self.n)
        self.field = decode(case['field'], (self.frames, self.n)) * 4 - 2 if 'field' in case else None
        counts = case.get('counts')
        self.counts = list(counts) if counts else [self.n] * self.frames
        self.sides = [self.side] * self.frames      # per-frame cell
        self.total_time = (self.steps[-1] - self.steps[0]) * self.dt
        self.store_unfolded = False                 # particles carry position_unfolded
        self.fold = True
        self.periodic = None

    # Views of one frame restricted to the particles present in it
    def frame(self, i, what='pos', sel=None):
        c = self.counts[i]
        arr = getattr(self, what)[i][:c]
        if sel is not None:
            arr = arr[numpy.array([k for k in range(c) if sel(self, i, k)], dtype=int)]
        return arr

    def wrap(self, pos):
        """Positions in the cell of this case."""
        origin = self.side / 2 if self.case.get('corner') else 0.0
        return fold(pos - origin, self.side) + origin

    def times(self):
        return [s * self.dt for s in self.steps]


def fold(pos, side):
    out = pos - side * numpy.floor(pos / side + 0.5)
    return numpy.where(out >= side / 2, out - side, out)


def stills(case):
    """Some particles may stay where they are, the first or the last ones in particular."""
    n = case['n']
    return st.sampled_from([[], [], [], [0], [n - 1], list(range(n // 2))])


shuffles = st.one_of(st.none(), st.none(), st.integers(0, 1000))


def by_species(sp):
    return lambda d, i, k: d.species[k] == sp


def systems(d, position='pos', extra=None):
    """Yield atooms systems for the frames of Data `d`."""
    from atooms.system import Cell, Particle, System
    src = getattr(d, position)
    for i in range(d.frames):
        particle = []
        for k in range(d.counts[i]):
            p = Particle(position=src[i][k].copy(), velocity=d.vel[i][k].copy(), species=d.species[k],
                         mass=float(d.mass[k] if d.masses is None else d.masses[i][k]), radius=float(d.radius[k]))
            if d.store_unfolded:
                p.position_unfolded = d.unf[i][k].copy()
            if d.field is not None:
                p.field = float(d.field[i][k])
            if extra is not None:
                extra(d, i, k, p)
            particle.append(p)
        if d.frame_order is not None:
            # the particles may be stored in a different order in each frame
            particle = [particle[k] for k in numpy.random.RandomState(d.frame_order + i).permutation(len(particle))]
        cell = Cell(side=numpy.array(d.sides[i], dtype=float).copy())
        yield System(particle=particle, cell=cell)


def ram(d, position='pos', extra=None, cls=None):
    """In-memory trajectory."""
    from atooms.trajectory.ram import TrajectoryRam
    th = (cls or TrajectoryRam)()
    for s, step in zip(systems(d, position, extra), d.steps):
        th.write(s, step)
    th.timestep = d.dt
    return th


def xyz(d, path, position='pos', extra=None, precision=14, variables=None):
    """Trajectory on disk (positions keep `precision` digits)."""
    from atooms.trajectory import TrajectoryXYZ
    with TrajectoryXYZ(path, 'w') as th:
        th.precision = precision
        th.variables = variables or ['species', 'position']
        th.timestep = d.dt
        for s, step in zip(systems(d, position, extra), d.steps):
            th.write(s, step)
    return path


# ---------------------------------------------------------------------- common parameters

norigins = st.one_of(
    st.sampled_from([-1, None, 1, '1', -1, '-1', '-1.0']),
    st.integers(2, 12), st.integers(2, 12).map(str),
    st.sampled_from([0.1, 0.2, 0.25, 0.34, 0.5, 0.75, 0.9]),
    st.sampled_from(['0.1', '0.2', '0.25', '0.5', '0.75']))


@st.composite
def time_grids(draw, case, allow_none=True):
    """A requested time grid for the trajectory `case`: None or a list of increasing times starting at 0."""
    total = (case['steps'][-1] - case['steps'][0]) * case['dt']
    if total <= 0:
        return [0.0]
    if allow_none and draw(st.integers(0, 4)) == 0:
        return None
    kind = draw(st.sampled_from(['exact', 'any', 'linear']))
    if kind == 'exact':
        diffs = sorted(set((b - a) * case['dt'] for i, a in enumerate(case['steps']) for b in case['steps'][i:]))
        pick = draw(st.lists(st.integers(0, len(diffs) - 1), min_size=1, max_size=6 if SCALE != 'grids' else 60, unique=True))
        out = sorted(diffs[k] for k in pick)
    elif kind == 'any':
        pick = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=6 if SCALE != 'grids' else 60, unique=True))
        out = sorted(total * k / 1000. for k in pick)
    else:
        m = draw(st.integers(2, 8 if SCALE != 'grids' else 80))
        out = [total * k / (m - 1) for k in range(m)]
    if out[0] > 0 and draw(st.booleans()):
        out = [0.0] + out
    return out
