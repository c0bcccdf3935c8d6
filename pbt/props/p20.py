"""Centre of mass fixed: drifts do not matter."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target
from . import p05

KINDS = ['msd', 'fskt', 'fskt_legacy', 'fskt_fast', 'fkt']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    case = draw(gen.trajectories(motion='walk', max_n=8, max_frames=9, min_frames=1, lo=20, hi=50, masses=True, dims=(2, 2, 3, 3, 1, 4) if kind == 'msd' else (2, 3)))
    case['amp'] = min(case['amp'], 0.5)
    case['par'] = dict(draw(lib.corr_pars(kind, case)), fix_cm=True)
    if kind != 'msd':
        case['par'].update(draw(lib.fourier_pars(case)))
    # drift of each frame, in units of half a side; together with the moves it stays below half a side
    case['drift'] = [[draw(st.integers(-45, 45)) / 100. for _ in range(case['dim'])] for _ in case['steps'][1:]]
    case['storage'] = draw(st.sampled_from(['pos', 'pos', 'unf', 'stored', 'stored_any']))
    case['cache'] = draw(st.booleans())
    if case['n'] > 1 and draw(st.integers(0, 2)) == 0:
        # masses that change from frame to frame (particles exchange them)
        case['masses'] = [list(draw(st.permutations(case['mass'][:-1] + [5.0]))) for _ in case['steps']]
    groups = draw(lib.group_choices(case))
    case['groups'] = groups if kind == 'fkt' else groups[:1]
    case['partial'] = draw(st.integers(0, 3)) == 0
    return case


def trajectory(d, case, x):
    """The trajectory with unwrapped positions x."""
    e = gen.Data(case)
    e.masses = d.masses
    e.unf, e.pos = x, e.wrap(x)
    storage = case['storage']
    if storage == 'stored_any' and case['par']['kind'] != 'msd':
        storage = 'stored'
    if storage in ('stored', 'stored_any'):
        e.store_unfolded = True
        if storage == 'stored_any':
            e.pos = d.pos       # (not used)
        storage = 'pos'
    th = gen.ram(e, storage)
    th.cache = case['cache']
    return th


def compute(case, th):
    par, groups = case['par'], case['groups']
    if case['partial'] and groups:
        from atooms.postprocessing.partial import Partial
        cls, kw = lib.cls_args(par)
        names = sorted(set(case['species']))
        with target('Partial(%s).compute()' % cls.__name__):
            obj = Partial(cls, names, th, **kw)
            obj.compute()
        if par['kind'] != 'fkt':
            return obj.partial[groups[0]]
        return obj.partial[groups[0], groups[-1]]
    return lib.run(par, th, groups)


def run(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    kind = par['kind']
    drift = numpy.zeros((d.frames, d.dim))
    if d.frames > 1:
        drift[1:] = numpy.cumsum(case['drift'], axis=0) * d.side / 2
    d.masses = numpy.array(case.get('masses') or [d.mass] * d.frames)
    cm = (d.unf * d.masses[:, :, None]).sum(axis=1) / d.masses.sum(axis=1)[:, None]
    fixed = d.unf - cm[:, None, :]
    a = compute(case, trajectory(d, case, d.unf + drift[:, None, :]))
    b = compute(case, trajectory(d, case, d.unf))
    both = '%s with and without a drift' % kind
    ref.same(lib.flat(a.grid), lib.flat(b.grid), both + ' (grid)')
    if kind != 'fkt':
        lib.same_result(a, b, both, 1e-6, 1e-7)
    # The definition
    fa = [fixed[i][lib.sel_indices(d, groups[0] if groups else None)] for i in range(d.frames)]
    fb = fa if len(groups) < 2 else [fixed[i][lib.sel_indices(d, groups[1])] for i in range(d.frames)]
    times = a.grid if kind == 'msd' else a.grid[1]
    lags, table = lib.check_lags(d, times, None, par['norigins'], kind)
    if kind == 'msd':
        want = lib.origin_average(table, lags, lambda i, j: ((fa[j] - fa[i])**2).sum() / len(fa[0]))
        ref.same(a.value, want, 'msd', 1e-7, 1e-9)
        moved = any(w > 1e-9 for w in want)
    else:
        moved = True
        for kl, row, other in zip(lib.shared_kvectors(a), a.value, b.value):
            if kind == 'fkt':
                ra = [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fa]
                rb = ra if len(groups) < 2 else [numpy.array([ref.rho_k(f, kv) for kv in kl]) for f in fb]
                want = [numpy.mean([(ra[j] * rb[i].conj()).real.mean() for i, j in table[s]]) for s in lags]
                if par['normalize']:
                    if abs(want[0]) < 1e-3:
                        continue
                    want = [w / want[0] for w in want]
                ref.same(row, other, both, 1e-6, 1e-7)
            else:
                want = p05.expected(d, numpy.array(fa), kl, table, lags)
            ref.same(row, want, kind, 1e-6, 1e-7)
    heavy = len(set(d.masses.flatten())) > 1
    return bool(moved and numpy.abs(drift).max() > 0 and len(lags) > 1), [
        kind, case['storage'], 'cached' if case['cache'] else 'not cached', lib.GROUP_LABELS[len(groups)],
        'masses change' if 'masses' in case else 'masses differ' if heavy else 'equal masses', 'dim%d' % d.dim, 'partial' if case['partial'] and groups else 'filter']


PROP = Prop('P20', 'the drift is not zero, at least two lags are reported and something moves',
            [Sub('drift', cases, run, quick=3600),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['moves and drift together stay below half a side per frame', 'evenly spaced or block-periodic steps',
             'wave-vectors are those the object reports'])
