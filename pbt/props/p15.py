"""Calculations do not interfere with each other, with their inputs or with the global state."""
import contextlib
import copy
import importlib
import io
import logging
import os
import random

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

KINDS = ['gr', 'gr_legacy', 'gr_fast', 'sk', 'sk_legacy', 'sk_fast', 'ba', 'msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy', 'fkt',
         's4kt', 'ik', 'weight']
UNFOLDING = ['msd', 'alpha2', 'qst', 'chi4', 'chi4_opt', 's4kt']


@st.composite
def jobs(draw, case):
    kind = draw(st.sampled_from([k for k in KINDS if case['dim'] == 3 or k not in ('ik',)]))
    if kind == 'ik':
        par = dict(draw(lib.fourier_pars(case, max_k=2, max_nk=4)), kind='ik', norigins=draw(gen.norigins))
    elif kind == 'weight':
        par = dict(draw(lib.fourier_pars(case, max_k=2, max_nk=4)), kind=draw(st.sampled_from(['sk', 'sk_legacy'])), norigins=draw(gen.norigins),
                   weight=draw(st.sampled_from(['radius', 'mass'])), fluctuations=draw(st.booleans()))
    else:
        par = draw(lib.corr_pars(kind, case))
        if kind == 'gr' and draw(st.booleans()):
            par['rmax'] = round(min(case['side']) * draw(st.sampled_from([0.15, 0.2, 0.3])), 3)
        if 'kgrid' in par and draw(st.integers(0, 5)) == 0 and kind in ('sk', 'sk_fast', 'fkt'):
            par['kgrid'] = None
            par.update(kmin=-1.0, kmax=round(2.5 * 2 * numpy.pi / max(case['side']), 4), ksamples=3)
    if kind in ('msd', 'fskt', 'fskt_legacy', 'fkt'):
        par['fix_cm'] = draw(st.sampled_from([False, False, True]))
    groups = draw(lib.group_choices(case))
    if kind == 'ik':
        groups = []
    elif lib.KINDS[par['kind']]['bodies'] == 1:
        groups = groups[:1]
    how = draw(st.sampled_from(['plain', 'plain', 'partial', 'filter'])) if kind not in ('ik', 'weight') else 'plain'
    return {'par': par, 'groups': groups, 'how': how, 'share': draw(st.booleans()), 'again': draw(st.integers(0, 2)) == 0,
            'cond': 'position[%d] > %r' % (draw(st.integers(0, case['dim'] - 1)), draw(st.integers(-3, 1)) / 10.) if kind in lib.STATIC + ['gr_legacy', 'gr_fast', 'sk_legacy']
            else draw(st.sampled_from(['mass < 1.5', 'radius > 0.3', 'mass != 0.5']))}


@st.composite
def cases(draw):
    long = draw(st.integers(0, 3)) == 0
    case = draw(gen.trajectories(motion='walk', max_n=6 if long else 9, min_n=4, max_frames=9 if long else 5, min_frames=6 if long else 1,
                                 kinds=('blocks',) if long else ('even', 'blocks', 'even'), lo=20, hi=40, velocities=True, masses=True, radii=True, max_species=2))
    case['store'] = draw(st.sampled_from(['ram', 'cached', 'cached', 'open', 'path', 'ram cached', 'unfolded']))
    case['jobs'] = [draw(jobs(case)) for _ in range(draw(st.integers(2, 5)))]
    # a cell without periodic boundaries along any direction
    case['bounded'] = case['store'] != 'path' and draw(st.integers(0, 5)) == 0
    if case['store'] == 'path':
        for j in case['jobs']:
            if j['par']['kind'] == 'ik':
                j['par'] = dict(j['par'], radius_path=True)
    # with progress bars and log messages, or without
    case['verbose'] = draw(st.integers(0, 5)) == 0
    # order of the calculations after all objects exist, or one by one
    case['order'] = list(draw(st.permutations(range(len(case['jobs'])))))
    case['first_create'] = draw(st.booleans())
    return case


def same_arguments(a, b):
    def same(x, y):
        if type(x) is not type(y):
            return False
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
        return bool(numpy.all(x == y)) if not isinstance(x, numpy.ndarray) else numpy.array_equal(x, y)
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def bounded(system):
    system.cell.periodic = numpy.array([False] * len(system.cell.side))
    return system


class Session:
    """The trajectory as the user holds it, and the lists shared between calls."""

    def __init__(self, case, d, folder):
        self.case, self.d, self.folder = case, d, folder
        self.store = case['store']
        self.path = os.path.join(folder, 'data.xyz')
        if self.store not in ('ram', 'ram cached', 'unfolded') and not os.path.isfile(self.path):
            gen.xyz(d, self.path, variables=['species', 'position', 'velocity', 'radius', 'mass'], precision=12)
        self.pool = {}
        self.th = self.open()

    def open(self):
        th = self.reopen()
        if self.case.get('bounded'):
            th.add_callback(bounded)
        return th

    def reopen(self):
        if self.store in ('ram', 'ram cached'):
            th = gen.ram(self.d)
            th.cache = self.store != 'ram'
            return th
        if self.store == 'unfolded':
            self.d.store_unfolded = True
            th = gen.ram(self.d)
            th.cache = True
            return th
        if self.store == 'path':
            return self.path
        from atooms.trajectory import Trajectory
        th = Trajectory(self.path)
        th.cache = self.store == 'cached'
        return th

    def args(self, job):
        """Keyword arguments; equal lists are the same object when shared."""
        par = job['par']
        if par['kind'] == 'ik':
            kw = {k: v for k, v in par.items() if k in ('kgrid', 'nk', 'dk', 'norigins')}
            kw['kgrid'] = list(kw['kgrid'])
            cls = lib.pp().SpectralDensity
        else:
            cls, kw = lib.cls_args(par)
        if job['share']:
            for key, val in kw.items():
                if isinstance(val, (list, tuple, numpy.ndarray)):
                    kw[key] = self.pool.setdefault((key, repr(val)), val)
        return cls, kw

    def make(self, job):
        pp = lib.pp()
        cls, kw = self.args(job)
        par = job['par']
        before = copy.deepcopy(kw)
        with target('%s()' % cls.__name__):
            if par['kind'] == 'ik':
                obj = cls(self.th, self.th, **kw)
            elif job['how'] == 'partial':
                obj = pp.Partial(cls, sorted(set(self.d.species)), self.th, **kw)
            else:
                obj = cls(self.th, **kw)
                if job['how'] == 'filter':
                    obj = pp.Filter(obj, job['cond'])
                else:
                    lib.add_filters(obj, job['groups'], par)
                if 'weight' in par:
                    obj.add_weight(field=par['weight'], fluctuations=par['fluctuations'])
        return obj, kw, before


def parts(obj):
    if hasattr(obj, 'partial'):
        return [obj.partial[k] for k in sorted(obj.partial, key=str)]
    return [obj] + ([obj.average, obj.variance] if hasattr(obj, 'average') else [])


@contextlib.contextmanager
def messages(on):
    """Turns on the messages of the library."""
    if not on:
        yield
        return
    module = importlib.import_module('atooms.postprocessing.progress')
    log, handler = logging.getLogger('atooms.postprocessing'), logging.StreamHandler(io.StringIO())
    level = log.level
    before = module.active
    module.active = True
    log.addHandler(handler)
    log.setLevel(logging.DEBUG)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        module.active = before
        log.setLevel(level)
        log.removeHandler(handler)


def outcome(obj):
    return [(lib.flat(x.grid), lib.flat(x.value)) for x in parts(obj)]


def content(th):
    """Everything the trajectory shows."""
    out = [list(th.steps), float(th.timestep), len(th.callbacks) if hasattr(th, 'callbacks') else 0]
    for i in range(len(th)):
        s = th[i]
        out.append([float(x) for x in s.cell.side] + [bool(x) for x in s.cell.periodic])
        for p in s.particle:
            out.append(sorted((k, v.tolist() if hasattr(v, 'tolist') else v) for k, v in p.__dict__.items() if not k.startswith('_')))
    return out


def equal(a, b, what):
    check(len(a) == len(b), '%s: number of functions', what)
    for (ga, va), (gb, vb) in zip(a, b):
        ref.same(ga, gb, what + ' (grid)', 1e-12, 1e-14)
        ref.same(va, vb, what + ' (value)', 1e-11, 1e-13)


def run(case):
    d = gen.Data(case)
    with lib.scratch() as folder:
        session = Session(case, d, folder)
        start = content(session.th) if session.store != 'path' else None
        random_state, numpy_state = random.getstate(), numpy.random.get_state()
        error_state = numpy.geterr()
        made, kept = {}, {}
        order = case['order']
        if case['first_create']:
            for k in order:
                made[k] = session.make(case['jobs'][k])
        for k in reversed(order) if case['first_create'] else order:
            job = case['jobs'][k]
            if k not in made:
                made[k] = session.make(job)
            obj, kw, before = made[k]
            what = '%s (%s%s)' % (job['par']['kind'], job['how'], ', '.join([''] + job['groups']))
            # The same alone, in a new session
            alone, _, _ = Session(dict(case), d, folder).make(job)
            try:
                lib.compute(alone)
            except Exception as exc:
                want = exc
            else:
                want = outcome(alone)
            state = random.getstate(), numpy.random.get_state()
            try:
                with messages(case.get('verbose')):
                    lib.compute(obj, what)
            except Exception as exc:
                check(isinstance(want, Exception), '%s fails after other calculations only: %s', what, exc)
                continue
            check(not isinstance(want, Exception), '%s fails alone but not after other calculations', what)
            equal(outcome(obj), want, '%s after other calculations, compared to alone' % what)
            if job['again']:
                lib.compute(obj, what + ' again')
                equal(outcome(obj), want, '%s computed again' % what)
            check(same_arguments(kw, before), '%s modifies its arguments: %s instead of %s', what, kw, before)
            check(random.getstate() == state[0], '%s changes the state of the random module', what)
            check(all(numpy.array_equal(x, y) for x, y in zip(numpy.random.get_state(), state[1])), '%s changes the state of numpy.random', what)
            check(numpy.geterr() == error_state, '%s changes the error handling of numpy', what)
            kept[k] = outcome(obj)
        for k, want in kept.items():
            equal(outcome(made[k][0]), want, '%s after all the others' % case['jobs'][k]['par']['kind'])
        if start is not None:
            now = content(session.th)
            for a, b in zip(start, now):
                check(a == b, 'the trajectory changed after %s: %s instead of %s', [j['par']['kind'] for j in case['jobs']], b, a)
        return len(kept) > 1, [case['store'], 'bounded' if case.get('bounded') else 'periodic', 'verbose' if case.get('verbose') else 'silent'] + sorted(set(case['jobs'][k]['par']['kind'] for k in kept)) + sorted(set(case['jobs'][k]['how'] for k in kept))


PROP = Prop('P15', 'two calculations or more that can be done',
            [Sub('sequence', cases, run, quick=4000),
             Sub('sizes', gen.large(cases), run, quick=90, thorough=1800)],
            ['calculations that fail also alone (empty groups) are left out'])
