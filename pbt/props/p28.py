"""Correlations written by the user: the documented arrays, recipes, partials and files."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target
from .p14 import rows_of

NAMES = ['pos', 'pos-unf', 'vel']
ATTRS = {'ids': '_ids', 'pos': '_pos', 'pos-unf': '_pos_unf', 'vel': '_vel'}
STORES = ['ram', 'ram', 'cached', 'path', 'open', 'stored']


def supply(d, store, folder):
    from atooms.trajectory import TrajectoryXYZ
    if store in ('path', 'open'):
        path = gen.xyz(d, os.path.join(folder, 'data.xyz'), variables=['species', 'position', 'velocity'])
        return path if store == 'path' else TrajectoryXYZ(path)
    d.store_unfolded = store == 'stored'
    th = gen.ram(d)
    th.cache = store == 'cached'
    return th


def arrays(d, store, fix_cm, plain=None):
    """The documented arrays of all particles: {name: (frames, particles, dimensions)}."""
    # without stored positions the first frame is the origin of the unwrapped ones
    unf = d.unf if store == 'stored' else d.pos[0] + d.unf - d.unf[0]
    mass = d.mass if store in ('ram', 'cached', 'stored') else numpy.ones(d.n)
    cm = (unf * mass[None, :, None]).sum(axis=1) / mass.sum()
    pos = d.pos
    if fix_cm:
        unf = unf - cm[:, None, :]
        # (up to a translation)
        plain = d.unf if plain is None else plain
        pos = plain - ((plain * mass[None, :, None]).sum(axis=1) / mass.sum())[:, None, :]
    # species are numbered in sorted order, over the whole system
    ids = numpy.tile([sorted(set(d.species)).index(sp) for sp in d.species], (d.frames, 1))
    return {'pos': pos, 'pos-unf': unf, 'vel': d.vel, 'ids': ids}


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=9, max_frames=7, min_frames=1, lo=20, hi=50, velocities=True, masses=True, kinds=('even', 'blocks', 'irregular')))
    case['nbodies'] = draw(st.sampled_from([1, 2]))
    want = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 3)) == 0:
        # the species numbers, too
        want = want[:2] + ['ids']
    case['ask'] = draw(st.sampled_from(['list', 'tuple', 'default', 'instance'] + ['string'] * (len(want) == 1)))
    case['want'] = NAMES if case['ask'] == 'default' else want
    case['fix_cm'] = draw(st.sampled_from([False, False, True]))
    groups = draw(lib.group_choices(case))
    case['groups'] = groups if case['nbodies'] == 2 else groups[:1]
    case['store'] = draw(st.sampled_from(STORES))
    case['twice'] = draw(st.booleans())
    case['norigins'] = draw(gen.norigins)
    # the unwrapped positions stored in the trajectory may leap over cells between frames
    case['leaps'] = case['store'] == 'stored' and draw(st.booleans())
    return case


def run(case):
    d = gen.Data(case)
    plain = d.unf
    if case['leaps']:
        frames, particles = numpy.indices((d.frames, d.n))
        d.unf = d.unf + ((3 * frames * (frames + particles)) % 5 - 2)[:, :, None] * d.side
    pp = lib.pp()
    nbodies, want, ask, groups = case['nbodies'], case['want'], case['ask'], case['groups']
    got = {}

    class Mine(pp.correlation.Correlation):
        symbol, short_name, long_name = 'mine', 'M(x)', 'my correlation'

        def _compute(self):
            got.clear()
            for name in want:
                for k in [''] if nbodies == 1 else ['_0', '_1']:
                    got[name, k] = [numpy.array(x, dtype=float) for x in getattr(self, ATTRS[name] + k)]
            self.value = [1.0 * len(self._pos)] * len(self.grid)

    Mine.nbodies = nbodies
    if ask in ('list', 'tuple', 'string'):
        Mine.phasespace = list(want) if ask == 'list' else tuple(want) if ask == 'tuple' else want[0]
    expected = arrays(d, case['store'], case['fix_cm'], plain)
    with lib.scratch() as folder:
        th = supply(d, case['store'], folder)
        with target('a correlation of the user'):
            obj = Mine(th, [0.0, 1.0], norigins=case['norigins'], fix_cm=case['fix_cm'])
            if ask == 'instance':
                obj.phasespace = list(want)
            lib.add_filters(obj, groups, (case['pos'], case['norigins']))
            for _ in range(2 if case['twice'] else 1):
                res = obj.compute()
        skip = ref.skip(d.steps, case['norigins'], d.n)
        check(obj.skip == skip, 'time origins every %s frames instead of %s', obj.skip, skip)
    check(list(res[0]) == [0.0, 1.0] and list(res[1]) == list(obj.value) and len(obj.value) == 2, 'compute() returns %s', res)
    shift = None
    eps = 1e-9 if case['store'] in ('ram', 'cached', 'stored') else 1e-8
    for name in want:
        for k in [''] if nbodies == 1 else ['_0', '_1']:
            group = None if not groups else groups[-1] if k == '_1' else groups[0]
            idx = lib.sel_indices(d, group)
            found = got[name, k]
            what = '%s%s' % (ATTRS[name], k)
            check(len(found) == d.frames, '%s has %d frames instead of %d', what, len(found), d.frames)
            for i, x in enumerate(found):
                y = expected[name][i][idx]
                check(x.size == y.size, '%s: frame %d has shape %s instead of %s', what, i, x.shape, y.shape)
                if y.size == 0:
                    continue
                check(x.shape == y.shape, '%s: frame %d has shape %s instead of %s', what, i, x.shape, y.shape)
                if name == 'pos' and case['fix_cm']:
                    # in the cell, with the same translation for all frames and groups
                    check((numpy.abs(x) <= d.side / 2 + eps).all(), '%s: frame %d is not in the cell', what, i)
                    if shift is None:
                        shift = x[0] - y[0]
                    x = y + ref.min_image(x - y - shift, d.side)
                ref.same(x, y, '%s, frame %d' % (what, i), 0, eps)
    return d.frames > 1 and d.n > 1, [
        '%d bodies' % nbodies, lib.GROUP_LABELS[len(groups)], case['store'], ask, ' '.join(sorted(want)), 'fixed' if case['fix_cm'] else 'not fixed',
        'twice' if case['twice'] else 'once', 'dim%d' % d.dim]


# ---------------------------------------------------------------------- the recipes of the documentation

KERNELS = {
    # static, of one group and of two
    'profile': (True, 1, 'pos', True), 'speed': (True, 1, 'vel', True),
    'first': (True, 2, 'pos', False), 'overlap': (True, 2, 'pos', True),
    # dynamic: of one group and of two
    'jump': (False, 1, 'pos-unf', True), 'turn': (False, 1, 'vel', True),
    'cross': (False, 2, 'vel', False), 'drift': (False, 2, 'pos-unf', False),
}


def static_kernel(kind, grid, x, y, side):
    if kind == 'profile':
        return [float((x[:, 0] > g * side[0]).mean()) for g in grid]
    if kind == 'speed':
        return [float((x**2).sum(axis=1).mean() * g) for g in grid]
    if kind == 'first':
        return [float(x[:, 0].mean() - g * y[:, 1].sum()) for g in grid]
    return [float((x.sum(axis=0) * y.sum(axis=0)).sum() + g) for g in grid]


def dynamic_kernel(kind, x1, x0, y1, y0):
    if kind == 'jump':
        return float((numpy.abs(x1 - x0)**3).sum() / len(x0))
    if kind == 'turn':
        return float((x1[:, 0] * x0[:, -1] + x0[:, 0]).mean())
    if kind == 'cross':
        return float((x1.sum(axis=0) * y0.sum(axis=0)).sum() + x0[0, 0])
    return float(((x1 - x0).sum(axis=0)**2 - (y1 - y0).sum(axis=0)).sum())


@st.composite
def recipe_cases(draw):
    kind = draw(st.sampled_from(sorted(KERNELS)))
    static, nbodies, name, symmetric = KERNELS[kind]
    case = draw(gen.trajectories(motion='walk', max_n=9, min_n=2, max_frames=9, min_frames=1 if static else 2, lo=20, hi=50, velocities=True,
                                 kinds=('even', 'blocks', 'irregular') if static else ('even', 'blocks', 'even')))
    case['kind'] = kind
    case['grid'] = draw(st.lists(st.integers(-4, 4).map(lambda k: k / 10.), min_size=1, max_size=4, unique=True)) if static else \
        [0.0] + [t for t in draw(gen.time_grids(case, allow_none=False)) if t > 0]
    case['norigins'] = draw(gen.norigins)
    case['how'] = draw(st.sampled_from(['plain', 'partial', 'partial', 'filter']))
    case['store'] = draw(st.sampled_from(STORES))
    case['do'] = draw(st.booleans())
    return case


def run_recipe(case):
    d = gen.Data(case)
    kind = case['kind']
    static, nbodies, name, symmetric = KERNELS[kind]
    pp = lib.pp()
    from atooms.postprocessing.helpers import setup_t_grid
    attr = ATTRS[name]
    suffix = ('', '') if nbodies == 1 else ('_0', '_1')

    class Static(pp.correlation.Correlation):
        symbol, short_name, long_name = 'mine', 'M(x)', 'my correlation'

        def __init__(self, trajectory, grid, norigins=None):
            super().__init__(trajectory, grid, norigins=norigins)
            self.phasespace = [name]

        def _compute(self):
            x, y = [getattr(self, attr + s) for s in suffix]
            raw = [static_kernel(kind, self.grid, x[i], y[i], d.side) for i in range(0, len(x), self.skip)]
            self.value = numpy.array(raw).mean(axis=0)

    class Dynamic(pp.correlation.Correlation):
        symbol, short_name, long_name = 'mine', 'M(t)', 'my correlation'

        def __init__(self, trajectory, tgrid, norigins=None):
            super().__init__(trajectory, tgrid, norigins=norigins)
            self.phasespace = [name]
            single = norigins is not None and float(norigins) == 1
            self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=not single)

        def _compute(self):
            x, y = [getattr(self, attr + s) for s in suffix]
            raw = {}
            for offset, t in self._discrete_tgrid:
                for t_0 in range(offset, len(x) - t, self.skip):
                    dt = self.trajectory.steps[t_0 + t] - self.trajectory.steps[t_0]
                    raw.setdefault(dt, []).append(dynamic_kernel(kind, x[t_0 + t], x[t_0], y[t_0 + t], y[t_0]))
            self.grid = [dt * self.trajectory.timestep for dt in sorted(raw)]
            self.value = [numpy.mean(raw[dt]) for dt in sorted(raw)]

    cls = Static if static else Dynamic
    cls.nbodies, cls._symmetric = nbodies, symmetric
    names = sorted(set(d.species))
    data = arrays(d, case['store'], False)[name]
    with lib.scratch() as folder:
        th = supply(d, case['store'], folder)
        path = os.path.join(folder, 'data.xyz')
        with target('a correlation of the user'):
            if case['how'] == 'partial':
                obj = pp.Partial(cls, names, th, list(case['grid']), norigins=case['norigins'])
            else:
                obj = cls(th, list(case['grid']), norigins=case['norigins'])
                if case['how'] == 'filter':
                    obj = pp.Filter(obj, 'species == "%s"' % names[0])
            if case['do']:
                obj.do()
            else:
                obj.compute()
        if case['how'] == 'partial':
            parts = [(p, [key] if nbodies == 1 else list(key)) for key, p in obj.partial.items()]
            keys = names if nbodies == 1 else [(a, b) for a in names for b in names]
            check(sorted(obj.partial) == sorted(keys), 'partial correlations %s for species %s', list(obj.partial), names)
        else:
            # (with one condition the second group is the whole system)
            parts = [(obj, [] if case['how'] == 'plain' else [names[0]] if nbodies == 1 else [names[0], None])]
        sk = ref.skip(d.steps, case['norigins'], d.n)
        for p, groups in parts:
            what = '%s of %s' % (kind, '-'.join(g or 'all' for g in groups) or 'all')
            xa = data[:, lib.sel_indices(d, groups[0] if groups else None)]
            xb = data[:, lib.sel_indices(d, groups[-1] if groups else None)]
            if static:
                origins = range(0, d.frames, sk)
                ref.same(p.grid, case['grid'], what + ' (grid)', 1e-12, 1e-12)
                want = numpy.mean([static_kernel(kind, case['grid'], xa[i], xb[i], d.side) for i in origins], axis=0)
            else:
                lags, table = lib.check_lags(d, p.grid, case['grid'], case['norigins'], what)
                want = lib.origin_average(table, lags, lambda i, j: dynamic_kernel(kind, xa[j], xa[i], xb[j], xb[i]))
            near = kind == 'profile' and any(numpy.abs(xa[:, :, 0] - g * d.side[0]).min() < 1e-7 for g in case['grid'])
            if not near:
                ref.same(p.value, want, what, 1e-6, 1e-6)
            if case['do'] and case['store'] in ('path', 'open'):
                out = lib.output_name(p, None, path)
                check(os.path.isfile(out), '%s: no output file %s (there is %s)', what, out, lib.tree(folder))
                ref.same(rows_of(out), [list(r) for r in zip(p.grid, p.value)], what + ' in the file', 1e-5, 1e-9)
        if case['store'] not in ('path', 'open'):
            check(lib.tree(folder) == [], 'a calculation in memory wrote %s', lib.tree(folder))
    return len(parts) > 1 or d.frames > 1, [kind, case['how'], case['store'], 'written' if case['do'] else 'computed', 'dim%d' % d.dim,
                                            '%d species' % len(names)]


# ---------------------------------------------------------------------- two variables

def form(what, x):
    return {'list': list, 'tuple': tuple, 'array': numpy.array}[what](x)


@st.composite
def plane_cases(draw):
    case = draw(gen.trajectories(motion='walk', max_n=6, max_frames=4, lo=20, hi=50, velocities=True, kinds=('even', 'irregular')))
    axis = st.lists(st.integers(-40, 40).map(lambda k: k / 8.), min_size=1, max_size=4, unique=True)
    case['axes'] = [draw(axis), draw(axis)]
    case['forms'] = [draw(st.sampled_from(['list', 'tuple', 'array'])) for _ in range(4)]
    case['how'] = draw(st.sampled_from(['plain', 'plain', 'partial', 'filter']))
    case['again'] = draw(st.booleans())
    return case


def run_plane(case):
    d = gen.Data(case)
    pp = lib.pp()
    forms = case['forms']

    class Plane(pp.correlation.Correlation):
        symbol, short_name, long_name = 'mine', 'M(x,y)', 'my correlation'
        phasespace = ['vel']

        def __init__(self, trajectory, xgrid, ygrid, norigins=None):
            super().__init__(trajectory, form(forms[2], [xgrid, ygrid]) if forms[2] != 'array' else [xgrid, ygrid], norigins=norigins)

        def _compute(self):
            speed = float(numpy.mean([(v**2).mean() for v in self._vel if v.size > 0] or [0.0]))
            self.value = form(forms[3], [form(forms[3], [a * speed + b for b in self.grid[1]]) for a in self.grid[0]])

    xs, ys = case['axes']
    names = sorted(set(d.species))
    with lib.scratch() as folder:
        path = gen.xyz(d, os.path.join(folder, 'data.xyz'), variables=['species', 'position', 'velocity'])
        with target('a correlation of two variables of the user'):
            if case['how'] == 'partial':
                obj = pp.Partial(Plane, names, path, form(forms[0], xs), form(forms[1], ys), norigins=-1)
            else:
                obj = Plane(path, form(forms[0], xs), form(forms[1], ys), norigins=-1)
                if case['how'] == 'filter':
                    obj = pp.Filter(obj, 'species == "%s"' % names[0])
            for _ in range(2 if case['again'] else 1):
                obj.do()
        parts = list(obj.partial.items()) if case['how'] == 'partial' else [(names[0] if case['how'] == 'filter' else None, obj)]
        for name, p in parts:
            vel = d.vel[:, lib.sel_indices(d, name)]
            speed = (vel**2).mean()
            want = [[x, y, x * speed + y] for x in xs for y in ys]
            out = lib.output_name(p, None, path)
            check(os.path.isfile(out), 'no output file %s (there is %s)', out, lib.tree(folder))
            rows = rows_of(out)
            check(len(rows) == len(want), '%d rows for %d points', len(rows), len(want))
            ref.same(rows, want, 'rows of a function of two variables', 1e-5, 1e-5)
    return len(xs) > 1 and len(ys) > 1, [case['how']] + ['%s %s' % x for x in zip('xyg', forms)]


PROP = Prop('P28', 'more than one frame and particle; for the recipes more than one frame or partial correlation; more than one value of both variables',
            [Sub('arrays', cases, run, quick=3000),
             Sub('recipes', recipe_cases, run_recipe, quick=2800),
             Sub('planes', plane_cases, run_plane, quick=600),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['arrays have one row per particle and one column per dimension (as the classes of the package use them)',
             'folded positions relative to the centre of mass are compared up to a translation, the same for all frames'])
