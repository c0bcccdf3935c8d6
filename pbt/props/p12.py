"""Filters."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

ONE = ['msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt', 'fskt', 'fskt_legacy']
STATIC_TWO = ['gr', 'gr_legacy', 'sk', 'sk_fast', 'ba']
TWO = STATIC_TWO + ['fkt']


@st.composite
def conditions(draw, case, moving):
    """(text, JSON description) of a condition on particle properties."""
    what = draw(st.sampled_from(['species', 'mass', 'radius', 'charge', 'label', 'flag', 'product', 'member', 'max', 'and', 'or'] + (['position'] * 4 if moving else [])))
    if what == 'species':
        return ['species', draw(st.sampled_from(case['species'] + ['Q'])), draw(st.booleans())]
    if what == 'mass':
        return ['mass', draw(st.sampled_from([1.0, 2.0, 0.5]))]
    if what == 'radius':
        return ['radius', draw(st.integers(5, 80)) / 100.]
    if what == 'charge':
        return ['charge', draw(st.sampled_from([-1, 0, 1]))]
    if what == 'label':
        return ['label', draw(st.integers(0, case['n']))]
    if what == 'flag':
        return ['flag', draw(st.integers(0, 3))]
    if what == 'member':
        return ['member', draw(st.lists(st.sampled_from(case['species'] + ['Q']), min_size=1, max_size=3)), draw(st.booleans())]
    if what == 'max':
        return ['max', draw(st.integers(-1, 4)) / 2.]
    if what == 'product':
        return ['product', draw(st.integers(5, 80)) / 100.]
    if what == 'position':
        return ['position', draw(st.integers(0, case['dim'] - 1)), draw(st.integers(-4, 4)) / 10.]
    return [what, draw(conditions(case, False)), draw(conditions(case, False))]


def text(c):
    if c[0] == 'any':
        return 'mass > 0.0'
    if c[0] == 'species':
        return 'species %s "%s"' % ('==' if c[2] else '!=', c[1])
    if c[0] == 'mass':
        return 'mass == %r' % c[1]
    if c[0] == 'radius':
        return 'radius > %r' % c[1]
    if c[0] == 'charge':
        return 'charge >= %d' % c[1]
    if c[0] == 'label':
        return 'label > %r' % (label(c[1]) - 5e-10)
    if c[0] == 'flag':
        # the name of a property alone
        return ['flag', 'not flag', 'flag is False', 'bool(flag)'][c[1]]
    if c[0] == 'member':
        # conditions with commas
        return 'species in %s' % (tuple(c[1]) if c[2] else list(c[1]),)
    if c[0] == 'max':
        return 'max(charge, mass) > %r' % c[1]
    if c[0] == 'product':
        return 'mass * radius**2 < %r' % c[1]
    if c[0] == 'position':
        return 'position[%d] > %r' % (c[1], c[2])
    return '(%s) %s (%s)' % (text(c[1]), c[0], text(c[2]))


def holds(c, d, i, k):
    if c[0] == 'any':
        return True
    if c[0] == 'species':
        return (d.species[k] == c[1]) == c[2]
    if c[0] == 'mass':
        return d.mass[k] == c[1]
    if c[0] == 'radius':
        return d.radius[k] > c[1]
    if c[0] == 'charge':
        return charge(d, k) >= c[1]
    if c[0] == 'label':
        return k >= c[1]
    if c[0] == 'flag':
        return flag(d, k) == (c[1] in (0, 3))
    if c[0] == 'member':
        return d.species[k] in c[1]
    if c[0] == 'max':
        return max(charge(d, k), d.mass[k]) > c[1]
    if c[0] == 'product':
        return d.mass[k] * d.radius[k]**2 < c[1]
    if c[0] == 'position':
        return d.pos[i][k][c[1]] > c[2]
    a, b = holds(c[1], d, i, k), holds(c[2], d, i, k)
    return (a and b) if c[0] == 'and' else (a or b)


def charge(d, k):
    return (7 * k + d.n) % 3 - 1


def flag(d, k):
    return (5 * k + d.n) % 4 < 2


def label(k):
    """Close but distinct values."""
    return 1.0 + 1e-9 * k


def set_charge(d, i, k, p):
    p.charge = charge(d, k)
    p.label = label(k)
    p.flag = flag(d, k)


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(['one', 'one', 'one', 'pair', 'pair', 'pair', 'pair', 'group', 'half', 'half', 'both', 'both', 'true', 'species', 'species', 'refuse']))
    kind = draw(st.sampled_from(ONE + TWO if mode in ('true', 'species', 'refuse') else ONE if mode == 'one' else TWO if mode not in ('half', 'both') else STATIC_TWO[:4]))
    case = draw(gen.trajectories(motion='walk', max_n=14, min_n=1 if mode in ('one', 'true', 'species') else 6, max_frames=6, lo=20, hi=50, velocities=True, masses=True, radii=True))
    case['par'] = draw(lib.corr_pars(kind, case))
    if kind == 'ba':
        rc = draw(st.integers(5, 40)) / 10. + 0.0137
        case['par']['rcut'] = rc
    case['mode'] = mode
    moving = kind in STATIC_TWO
    case['cond'] = draw(conditions(case, moving))
    case['cond2'] = draw(st.one_of(st.just(['any']), conditions(case, moving)))
    if mode == 'both':
        # groups that overlap, and may be the same in some of the frames
        close = st.just(case['cond'])
        if case['cond'][0] == 'position':
            close = st.just(['position', case['cond'][1], case['cond'][2] + draw(st.integers(-1, 1)) / 10.])
        case['cond2'] = draw(st.one_of(close, close, st.just(case['cond']), conditions(case, moving)))
    case['third'] = draw(st.booleans())
    return case


def groups(d, *tests):
    """Indices per frame of each group; atooms cannot dump exactly `dim` particles, skip those cases."""
    out = []
    for t in tests:
        idx = [[k for k in range(d.n) if t(i, k)] for i in range(d.frames)]
        if any(len(x) == d.dim for x in idx):
            raise Reject('as many particles as dimensions')
        out.append(idx)
    return out


def subset(d, idx, labels=None):
    """Trajectory with only the particles idx[i] of each frame."""
    from atooms.trajectory.ram import TrajectoryRam
    th = TrajectoryRam()
    for i, s in enumerate(gen.systems(d, 'pos', set_charge)):
        s.particle = [s.particle[k] for k in idx[i]]
        if labels is not None:
            for p, lab in zip(s.particle, labels[i]):
                p.species = lab
        th.write(s, d.steps[i])
    th.timestep = d.dt
    return th


def fix_par(par, nspecies):
    if par['kind'] == 'ba':
        return dict(par, rcut=[[par['rcut']] * nspecies for _ in range(nspecies)])
    return par


def make(d, par, th):
    ids = set(p.species for p in th[0].particle)
    return lib.make(fix_par(par, max(1, len(ids))), th)


def compare(a, b, what, par, d):
    """Equal results; a missing result (no pairs) is missing in both."""
    tol = 1e-8
    if par['kind'] == 'fkt' and par.get('normalize'):
        # divided by a value at t=0 that may vanish
        x, y = numpy.array(lib.flat(a.value_nonorm)), numpy.array(lib.flat(b.value_nonorm))
        ref.same(lib.flat(a.grid), lib.flat(b.grid), what + ' (grid)')
        ref.same(x, y, what, 1e-7, 1e-7)
        return
    lib.same_result(a, b, what, 1e-7, tol)


def run(case):
    d = gen.Data(case)
    par, mode, kind = case['par'], case['mode'], case['par']['kind']
    pp = lib.pp()
    labels = [kind, mode, 'dim%d' % d.dim]
    th = gen.ram(d, 'pos', set_charge)
    c1, c2 = case['cond'], case['cond2']

    if mode == 'refuse':
        obj = make(d, par, th)
        limit = obj.nbodies
        if case['third']:
            cond = ','.join([text(c1), 'mass > 0', text(c2)][:limit + 1])
            try:
                lib.compute(pp.Filter(obj, cond))
            except ValueError:
                return True, labels + ['conditions']
            except Exception as exc:
                check(False, 'Filter(%s) raises %s', cond, type(exc).__name__)
            check(False, 'Filter(%s) is accepted by %s', cond, kind)
        for _ in range(limit):
            with target('add_filter'):
                obj.add_filter(lambda s: s)
        try:
            obj.add_filter(lambda s: s)
        except ValueError:
            return True, labels
        except Exception as exc:
            check(False, 'one filter too many raises %s', type(exc).__name__)
        check(False, '%s accepts %d filters for %d bodies', kind, limit + 1, limit)

    if mode == 'true':
        a = lib.compute(make(d, par, th))
        b = make(d, par, gen.ram(d, 'pos', set_charge))
        if case['third'] and b.nbodies == 1:
            with target('Filter'):
                b = pp.Filter(b, 'mass > 0.0')
        else:
            with target('add_filter'):
                b.add_filter(lambda s: s)
        compare(lib.compute(b), a, '%s with a filter true for all particles' % kind, par, d)
        return lib.finite(a) and d.frames > 1, labels

    if mode == 'species':
        sp = c1[1] if c1[0] == 'species' and c1[1] in d.species else d.species[0]
        cls, kw = lib.cls_args(fix_par(par, len(set(d.species))))
        with target('Partial'):
            part = pp.Partial(cls, [sp], th, **kw)
            part.compute()
        a = part.partial[sp if cls.nbodies == 1 else (sp, sp)]
        b = make(d, par, gen.ram(d, 'pos', set_charge))
        if cls.nbodies == 1:
            with target('Filter'):
                b = pp.Filter(b, 'species == "%s"' % sp)
        else:
            lib.add_filters(b, [sp], case['pos'])
        compare(lib.compute(b), a, '%s filtered by species and the partial' % kind, par, d)
        return lib.finite(a) and len(set(d.species)) > 1, labels

    if mode in ('one', 'group'):
        idx, = groups(d, lambda i, k: holds(c1, d, i, k))
        if any(len(x) == 0 for x in idx):
            raise Reject('empty group')
        if kind == 'ba' and any(d.species[k] not in [d.species[j] for j in idx[0]] for x in idx for k in x):
            raise Reject('a species appears later')
        obj = make(d, par, th)
        if mode == 'one':
            with target('Filter(%s)' % text(c1)):
                obj = pp.Filter(obj, text(c1))
        else:
            import copy

            def keep(system, condition=None, holds=False):
                s = copy.copy(system)
                s.particle = [p for p in system.particle if condition is None or bool(evaluate(condition, p)) == holds]
                return s
            with target('add_filter'):
                if len(case['pos']) % 3:
                    obj.add_filter(keep, c1, holds=True)
                else:
                    obj.add_filter(keep, holds=True, condition=c1)
        lib.compute(obj)
        want = lib.compute(make(d, par, subset(d, idx)))
        compare(obj, want, '%s filtered by %s and for these particles only' % (kind, text(c1)), par, d)
        some = any(len(x) < d.n for x in idx)
        return some and lib.finite(want) and d.frames > 1, labels + ['proper subset' if some else 'all particles']

    # two groups
    if mode == 'pair':
        first = lambda i, k: holds(c1, d, i, k)
        second = lambda i, k: holds(c2, d, i, k) and not holds(c1, d, i, k)
        ia, ib = groups(d, first, second)
        if kind == 'ba' and not any(len(x) for x in ia):
            raise Reject('empty group')
        if not any(len(x) for x in ia) or not any(len(x) for x in ib):
            raise Reject('empty group')
        if kind == 'fkt' and (any(len(x) == 0 for x in ia) or any(len(x) == 0 for x in ib)):
            raise Reject('empty group')
        obj = make(d, par, th)
        cond = '%s,(%s) and not (%s)' % (text(c1), text(c2), text(c1))
        if kind in ('gr', 'gr_legacy'):
            skip = ref.skip(d.steps, par['norigins'], d.n)
            if not any(len(ia[i]) and len(ib[i]) for i in range(0, d.frames, skip)):
                raise Reject('no pair of groups at the origins')
        with target('Filter(%s)' % cond):
            obj = pp.Filter(obj, cond)
        lib.compute(obj)
        lab = [['X' if k in ia[i] else 'Y' if k in ib[i] else 'Z' for k in range(d.n)] for i in range(d.frames)]
        everyone = [list(range(d.n))] * d.frames
        th2 = subset(d, everyone, lab)
        # species absent from the first frame are unknown to the bond-angle distribution
        if kind == 'ba' and set(sum(lab, [])) != set(lab[0]):
            raise Reject('a label appears later')
        want = make(d, par, th2)
        lib.add_filters(want, ['X', 'Y'], case['pos'])
        lib.compute(want)
        compare(obj, want, '%s filtered by %s and for these particles relabelled' % (kind, cond), par, d)
        varies = len(set(map(tuple, ia))) > 1
        return lib.finite(want), labels + ['groups change in time' if varies else 'fixed groups']

    # mode == 'half': one condition for a two-body function, the second group is the whole system
    # mode == 'both': two conditions whatsoever
    if mode == 'half':
        ia, = groups(d, lambda i, k: holds(c1, d, i, k))
        ib = [list(range(d.n))] * d.frames
        cond = text(c1)
    else:
        ia, ib = groups(d, lambda i, k: holds(c1, d, i, k), lambda i, k: holds(c2, d, i, k))
        cond = text(c1) + draw_comma(case) + text(c2)
    skip = ref.skip(d.steps, par['norigins'], d.n)
    origins = list(range(0, d.frames, skip))
    if not any(len(ia[i]) and len(ib[i]) for i in origins):
        raise Reject('empty group')
    obj = make(d, par, th)
    with target('Filter(%s)' % cond):
        obj = pp.Filter(obj, cond)
    lib.compute(obj)
    fa = [d.pos[i][ia[i]] for i in range(d.frames)]
    fb = [d.pos[i][ib[i]] for i in range(d.frames)]
    if kind in ('sk', 'sk_fast'):
        from .p03 import mode_products, compare as compare_sk
        sums = [numpy.mean([mode_products(fa, fb, kl, i) for i in origins]) for kl in lib.shared_kvectors(obj)]
        compare_sk(obj.value, sums, fa, fb, list(range(d.frames)), origins, 'S(k) filtered by ' + cond)
    elif kind in ('gr', 'gr_legacy'):
        used = [i for i in origins if len(fa[i]) and len(fb[i])]
        m = len(obj.grid)
        edges = numpy.arange(m + 1) * par['dr']
        lo, hi = numpy.zeros(m), numpy.zeros(m)
        for i in used:
            l, h = ref.hist_bounds(ref.pair_distances(fa[i], fb[i], d.side, 'all'), edges, 1e-7)
            lo += l / len(used)
            hi += h / len(used)
        problem = None
        for pick in (range(d.frames), origins, used):
            ideal = numpy.mean([len(fa[i]) for i in pick]) * numpy.mean([len(fb[i]) for i in pick]) / numpy.prod(d.side) * ref.shell_volume(edges, d.dim)
            try:
                # (the first bin also holds the particles of the group with themselves)
                ref.within((numpy.asarray(obj.value) * ideal)[1:], lo[1:], hi[1:], 'g(r) filtered by ' + cond, 1e-7, 1e-8)
                problem = None
                break
            except Exception as exc:
                problem = problem or exc
        if problem is not None:
            raise problem
    else:
        raise Reject('not compared')
    same = [ia[i] == ib[i] for i in range(d.frames)]
    return len(ia[0]) < d.n, labels + ['same groups' if all(same) else 'same groups in a frame' if any(same) else 'other groups']


def draw_comma(case):
    return ', ' if case['third'] else ','


def evaluate(c, p):
    if c[0] == 'species':
        return (p.species == c[1]) == c[2]
    if c[0] == 'mass':
        return p.mass == c[1]
    if c[0] == 'radius':
        return p.radius > c[1]
    if c[0] == 'charge':
        return p.charge >= c[1]
    if c[0] == 'label':
        return p.label > label(c[1]) - 5e-10
    if c[0] == 'flag':
        return p.flag == (c[1] in (0, 3))
    if c[0] == 'member':
        return p.species in c[1]
    if c[0] == 'max':
        return max(p.charge, p.mass) > c[1]
    if c[0] == 'product':
        return p.mass * p.radius**2 < c[1]
    if c[0] == 'position':
        return p.position[c[1]] > c[2]
    a, b = evaluate(c[1], p), evaluate(c[2], p)
    return (a and b) if c[0] == 'and' else (a or b)


PROP = Prop('P12',
            'the condition selects a proper subset and the result is finite',
            [Sub('filters', cases, run, quick=5400),
             Sub('sizes', gen.large(cases), run, quick=420, thorough=8400)],
            ['overlapping groups also count each particle with itself in g(r): the first bin is not compared then',
             'groups with as many particles as dimensions are skipped: atooms cannot dump them',
             ])
