"""Output files and updates: histories of computing, writing, touching, deleting and growing files."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

ONE_VARIABLE = ['gr', 'gr_legacy', 'sk', 'sk_fast', 'ba', 'msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt']
TWO_VARIABLES = ['fskt', 'fskt_legacy', 'fkt', 's4kt']
TEMPLATES = [None, '{trajectory.filename}.pp.{symbol}.{tag}', '{trajectory.filename}.{short_name}.{tag}', '{dir}/out/{symbol}-{tag}.dat',
             '{dir}/a/b/{symbol}/{tag_description}.txt', '{dir}/{long_name}.{tag}', '{dir}/{symbol}_{tag}_x']
# how the caller names the trajectory: absolute, in the current directory, or relative to it
PLACES = ['absolute', 'absolute', 'here', 'dot', 'below']
OPS = ['do', 'update', 'update', 'update', 'touch', 'age', 'equal', 'delete', 'tamper', 'append', 'again', 'read', 'write', 'call']
T0 = 1.0e9


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(ONE_VARIABLE * 2 + TWO_VARIABLES))
    case = draw(gen.trajectories(motion='walk', max_n=7, min_n=1 if kind not in ('gr', 'gr_legacy', 'ba', 'fkt') else 4, min_frames=2, max_frames=5,
                                 lo=20, hi=40, velocities=True, kinds=('even',), dims=(3,) if kind == 'sk_fast' else (2, 3), max_species=2))
    if kind not in ('gr', 'gr_legacy'):
        # other units of length: values may be tiny or huge
        unit = draw(st.sampled_from([1.0, 1.0, 1e-5, 1e4]))
        case['side'] = [x * unit for x in case['side']]
    case['par'] = draw(lib.corr_pars(kind, case))
    case['par'].pop('normalize', None)
    if 'tgrid' in case['par']:
        case['par']['tgrid'] = sorted(set([0.0] + case['par']['tgrid']))
    if kind == 'ba':
        case['par']['rcut'] = [[max(case['side'])] * max(2, len(set(case['species'])))] * max(2, len(set(case['species'])))
        case['par']['norigins'] = -1
    case['template'] = draw(st.sampled_from(TEMPLATES))
    case['how'] = draw(st.sampled_from(['class', 'class', 'global', 'tagged', 'partial', 'partial', 'filter'])) if case['n'] > 1 else 'class'
    case['place'] = draw(st.sampled_from(PLACES))
    # seconds between modifications (the fraction is exact)
    case['tick'] = draw(st.sampled_from([10, 10, 0.125]))
    case['start'] = draw(st.integers(1, len(case['steps'])))
    case['ops'] = [['do', 0]] + [[draw(st.sampled_from(OPS)), draw(st.integers(0, 5))] for _ in range(draw(st.integers(1, 7)))]
    if draw(st.booleans()):
        case['ops'] = case['ops'][1:]
    return case


@st.composite
def partial_cases(draw):
    """Some of the files of partial correlations are missing or old."""
    case = draw(cases())
    kind = draw(st.sampled_from(['gr', 'gr_legacy', 'sk', 'fkt', 'msd']))
    dim = draw(st.sampled_from([2, 3]))
    # (no group of as many particles as dimensions, see gen)
    counts = draw(st.sampled_from([[3, 3], [3, 4], [4, 3], [3, 3, 3]] if dim == 2 else [[2, 2], [4, 2], [2, 4], [2, 2, 2]]))
    names = draw(st.sampled_from([['A', 'B', 'C'], ['B', 'A', 'C'], ['1', '2', '3']]))
    n = sum(counts)
    case.update(draw(gen.trajectories(motion='walk', max_n=n, min_n=n, min_frames=2, max_frames=3, lo=20, hi=40, velocities=True,
                                      kinds=('even',), dims=(dim,))))
    case['species'] = draw(st.permutations([names[i] for i, c in enumerate(counts) for _ in range(c)]))
    case['par'] = draw(lib.corr_pars(kind, case))
    case['par'].pop('normalize', None)
    if 'tgrid' in case['par']:
        case['par']['tgrid'] = sorted(set([0.0] + case['par']['tgrid']))
    case['how'], case['start'] = 'partial', len(case['steps'])
    one = st.tuples(st.sampled_from(['delete', 'equal', 'delete']), st.integers(0, 8))
    case['ops'] = [['do', 0]]
    for _ in range(draw(st.integers(1, 3))):
        case['ops'] += [list(x) for x in draw(st.lists(one, min_size=1, max_size=2))] + [['update', 0]]
    return case


def rows_of(path):
    with open(path) as fh:
        lines = [x for x in fh.read().split('\n') if x.strip() and not x.startswith('#')]
    return [[float(y) for y in x.split()] for x in lines]


def first_columns(path):
    """Files of one-variable functions may have gained further columns."""
    return [row[:2] for row in rows_of(path)]


def expected_rows(obj):
    if len(obj.grid_name) == 2:
        return [[x, y, obj.value[i][j]] for i, x in enumerate(obj.grid[0]) for j, y in enumerate(obj.grid[1])]
    return [[x, y] for x, y in zip(obj.grid, obj.value)]


def same_rows(got, want, what, slack=0.0):
    check(len(got) == len(want), '%s has %d rows for %d entries', what, len(got), len(want))
    got, want = [numpy.array(x, dtype=float).reshape(len(x), -1) for x in (got, want)]
    check(got.shape == want.shape, '%s has %s entries for %s', what, got.shape, want.shape)
    for col in range(want.shape[1] if len(want) else 0):
        # six digits of each value, whatever the units (and rounding errors with respect to the largest one)
        scale = numpy.abs(want[:, col])
        scale = scale[numpy.isfinite(scale)].max(initial=0.0)
        ref.same(got[:, col], want[:, col], '%s, column %d' % (what, col + 1), 1e-5, slack + 1e-10 * scale)


class History:
    def __init__(self, case, folder):
        self.case, self.folder = case, folder
        self.d = gen.Data(case)
        place = case.get('place', 'absolute')
        if place == 'below':
            os.mkdir(os.path.join(folder, 'sub'))
        self.path = {'absolute': os.path.join(folder, 'data.xyz'), 'here': 'data.xyz', 'dot': './data.xyz', 'below': 'sub/data.xyz'}[place]
        self.dir = folder if place in ('absolute', 'below') else '.'
        # a template without a directory
        self.template = case['template']
        if self.template and place == 'here':
            self.template = self.template.replace('{dir}/', '')
        self.frames = case['start']
        self.clock = 0
        self.mtime = {}         # of our files, None: missing
        self.content = {}
        self.fresh = {}
        self.last = None
        self.recomputed = self.kept = 0
        self.write_trajectory()

    def tick(self):
        self.clock += 1
        return T0 + self.case['tick'] * self.clock

    def stamp(self, path, when):
        os.utime(path, (when, when))
        self.mtime[path] = when

    def write_trajectory(self):
        d = self.d
        d.frames, d.steps = self.frames, self.case['steps'][:self.frames]
        gen.xyz(d, self.path, variables=['species', 'position', 'velocity'])
        self.stamp(self.path, self.tick())
        self.fresh = {}

    # Template as the user sees it
    def name_of(self, obj):
        return lib.output_name(obj, self.template, self.path, self.dir)

    def make(self):
        """A new object, as in a new session."""
        case = self.case
        pp = lib.pp()
        cls, kw = lib.cls_args(case['par'])
        template = self.template and self.template.replace('{dir}', self.dir)
        saved = pp.core.pp_output_path
        try:
            if case['how'] == 'global' and template:
                pp.core.pp_output_path = template
            with target('%s(path)' % cls.__name__):
                if case['how'] == 'partial':
                    names = sorted(set(self.d.species))
                    obj = pp.Partial(cls, names, self.path, **kw)
                    parts = list(obj.partial.values())
                else:
                    obj = cls(self.path, **kw)
                    if case['how'] == 'filter':
                        obj = pp.Filter(obj, 'species == "%s"' % self.d.species[0])
                    parts = [obj]
        finally:
            pp.core.pp_output_path = saved
        if case['how'] == 'tagged':
            obj.tag, obj.tag_description = 'my tag', 'a user tag'
        if case['how'] != 'global' and template:
            obj.output_path = template
        return obj, parts

    def files(self, part):
        """Output files of one object: [(path, object with grid and value)]."""
        out = [(self.name_of(part), part)]
        if self.case['par']['kind'] in ('chi4', 'chi4_opt'):
            if self.case['template'] and self.case['how'] != 'global':
                return out      # (output_path was set on the main object only)
            out += [(self.name_of(x), x) for x in (part.average, part.variance)]
        return out

    def expected(self, parts):
        """Rows computed anew from the current trajectory, by output path."""
        if not self.fresh:
            obj, other = self.make()
            for p in other:
                lib.compute(p)
            if self.case['how'] == 'partial' and obj.nbodies == 2 and self.case['par']['kind'] != 'ba':
                # functions of a pair of species are taken as symmetric (F_ba(k,t) and F_ab(k,t) are estimates of
                # the same function, which differ by the statistics)
                other = [obj.partial[tuple(sorted(key))] for key in obj.partial]
            for part, p in zip(parts, other):
                for (path, _), (_, x) in zip(self.files(part), self.files(p)):
                    self.fresh[path] = expected_rows(x)
        return self.fresh

    def written(self, parts, what):
        want = self.expected(parts)
        for part in parts:
            for path, obj in self.files(part):
                check(os.path.isfile(path), '%s: no output file %s (there is %s)', what, path, lib.tree(self.folder))
                got = rows_of(path)
                same_rows(got, expected_rows(obj), '%s: %s compared to the object' % (what, os.path.basename(path)))
                # (rounding of the sums behind dimensionless functions)
                slack = 0.0 if self.case['par']['kind'] in ('msd', 'vacf') else 1e-13 * self.d.n * self.d.frames
                same_rows(got, want[path], '%s: %s compared to a new calculation' % (what, os.path.basename(path)), slack)
                self.stamp(path, self.tick())
        self.remember(parts)

    def remember(self, parts):
        for part in parts:
            for path, _ in self.files(part):
                self.content[path] = open(path, 'rb').read() if os.path.isfile(path) else None

    def needed(self, parts):
        for part in parts:
            path = self.name_of(part)
            if not os.path.isfile(path) or not self.mtime[path] > self.mtime[self.path]:
                return True
        return False

    def step(self, op, arg):
        obj, parts = self.last if op in ('again', 'call', 'write') and self.last else self.make()
        outputs = [f for p in parts for f, _ in self.files(p)]
        main = [self.name_of(p) for p in parts]
        present = [f for f in main if os.path.isfile(f)]
        if op in ('do', 'again', 'call'):
            if op == 'call' and callable(obj):
                with target('obj()'):
                    obj()
            else:
                with target('do()'):
                    obj.do()
            self.written(parts, 'do()')
            self.last = obj, parts
            self.recomputed += 1
        elif op == 'update':
            need = self.needed(parts)
            with target('need_update()'):
                said = bool(obj.need_update())
            check(said == need, 'need_update() is %s: trajectory at %s, outputs at %s', said, self.mtime[self.path],
                  [self.mtime.get(f) if os.path.isfile(f) else None for f in main])
            self.remember(parts)
            with target('do(update=True)'):
                obj.do(update=True)
            if need:
                self.written(parts, 'do(update=True)')
                self.last = obj, parts
                self.recomputed += 1
            else:
                self.kept += 1
                for part in parts:
                    for path, x in self.files(part):
                        if self.content.get(path) is None:
                            check(not os.path.isfile(path), 'an update that was not needed wrote %s', path)
                            continue
                        check(open(path, 'rb').read() == self.content[path] and os.path.getmtime(path) == self.mtime[path],
                              'an update that was not needed changed %s', os.path.basename(path))
                    if len(part.grid_name) == 1:
                        same_rows([list(r) for r in zip(part.grid, part.value)], first_columns(self.name_of(part)), 'content after an update that was not needed')
        elif op == 'write':
            if self.last is None or self.fresh == {}:
                return
            with target('write()'):
                obj.write()
            self.written(parts, 'write()')
        elif op == 'read':
            for part in parts:
                path = self.name_of(part)
                if len(part.grid_name) == 1 and os.path.isfile(path):
                    with target('read()'):
                        part.read()
                    same_rows([list(r) for r in zip(part.grid, part.value)], first_columns(path), 'content after read()')
        elif op == 'touch':
            self.stamp(self.path, self.tick())
        elif op == 'append':
            if self.frames < len(self.case['steps']):
                self.frames += 1
                self.write_trajectory()
                self.last = None
        elif not present:
            return
        else:
            path = present[arg % len(present)]
            if op == 'age':
                self.stamp(path, self.tick())
            elif op == 'equal':
                self.stamp(path, self.mtime[self.path])
            elif op == 'delete':
                os.unlink(path)
            elif op == 'tamper' and len(parts[0].grid_name) == 1:
                with open(path, 'w') as fh:
                    more = ' 7 %d' % self.clock if arg % 2 else ''
                    fh.write('# title: other\n# columns: x, y\n' + ''.join('%d %g%s\n' % (i, 0.5 * i + self.clock, more) for i in range(1 + arg)))
                self.stamp(path, self.tick())


def run(case):
    if case['par']['kind'] in ('gr', 'gr_legacy', 'ba', 'fkt'):
        # groups without pairs have no g(r) or angles
        for sp in set(case['species']):
            if case['species'].count(sp) < (3 if case['par']['kind'] == 'ba' else 2):
                raise Reject('too few particles of a species')
    here = os.getcwd()
    with lib.scratch() as folder:
        os.chdir(folder)
        try:
            return history(case, folder)
        finally:
            os.chdir(here)


def history(case, folder):
    h = History(case, folder)
    allowed = set([os.path.abspath(h.path)])
    for op, arg in case['ops']:
        h.step(op, arg)
        _, parts = h.make()
        allowed |= set(os.path.abspath(f) for p in parts for f, _ in h.files(p))
        if case['par']['kind'] in ('chi4', 'chi4_opt'):
            continue
        extra = [f for f in lib.tree(folder) if os.path.join(folder, f) not in allowed and not (
            f.endswith('.tau') and os.path.join(folder, f[:-4]) in allowed)]
        check(not extra, 'unexpected files %s (outputs are %s)', extra, sorted(os.path.relpath(x, folder) for x in allowed))
    return h.recomputed + h.kept > 1, [case['par']['kind'], case['how'], 'path ' + case.get('place', 'absolute'), 'kept' if h.kept else 'never kept',
                                       'recomputed' if h.recomputed > 1 else 'computed once'] + ['op ' + o for o in sorted(set(o for o, _ in case['ops']))]


@st.composite
def ram_cases(draw):
    kind = draw(st.sampled_from(ONE_VARIABLE + TWO_VARIABLES))
    case = draw(gen.trajectories(motion='walk', max_n=7, min_n=4, max_frames=5, lo=20, hi=40, velocities=True, dims=(3,) if kind == 'sk_fast' else (2, 3), max_species=2))
    if kind not in ('gr', 'gr_legacy'):
        # other units of length: values may be tiny or huge
        unit = draw(st.sampled_from([1.0, 1.0, 1e-5, 1e4]))
        case['side'] = [x * unit for x in case['side']]
    case['par'] = draw(lib.corr_pars(kind, case))
    case['par'].pop('normalize', None)
    if 'tgrid' in case['par']:
        case['par']['tgrid'] = sorted(set([0.0] + case['par']['tgrid']))
    if kind == 'ba':
        case['par']['rcut'] = [[max(case['side'])] * max(2, len(set(case['species'])))] * max(2, len(set(case['species'])))
    case['update'] = draw(st.booleans())
    case['partial'] = draw(st.booleans())
    return case


def run_ram(case):
    """In-memory trajectories: computed, nothing written."""
    d = gen.Data(case)
    kind = case['par']['kind']
    if kind in ('gr', 'gr_legacy', 'ba', 'fkt') and any(d.species.count(s) < 3 for s in d.species):
        raise Reject('too few particles of a species')
    pp = lib.pp()
    names = sorted(set(d.species))
    cls, kw = lib.cls_args(case['par'])
    here = os.getcwd()
    with lib.scratch() as folder:
        os.chdir(folder)
        try:
            with target('do() in memory'):
                if case['partial']:
                    obj = pp.Partial(cls, names, gen.ram(d), **kw)
                else:
                    obj = cls(gen.ram(d), **kw)
                obj.do(update=case['update'])
            check(lib.tree(folder) == [], 'a calculation in memory wrote %s', lib.tree(folder))
        finally:
            os.chdir(here)
    if case['partial']:
        for key, part in obj.partial.items():
            groups = [key] if cls.nbodies == 1 else [key[0]] if key[0] == key[1] else list(key) if kind == 'ba' else sorted(key)
            lib.same_result(part, lib.run(case['par'], gen.ram(d), groups), 'do() in memory')
    else:
        lib.same_result(obj, lib.run(case['par'], gen.ram(d)), 'do() in memory')
    return True, [kind, 'partial' if case['partial'] else 'total', 'update' if case['update'] else 'do']


PROP = Prop('P14', 'at least two calculations or updates in the history; every in-memory case',
            [Sub('history', cases, run, quick=6000),
             Sub('partials', partial_cases, run, quick=500),
             Sub('memory', ram_cases, run_ram, quick=2000),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['time grids start at zero (the relaxation times of F(k,t) need it)',
             'modification times are set by the check, in steps of ten seconds',
             'two-column files only are read back'])
