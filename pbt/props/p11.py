"""Partial correlations and totals."""
import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

ONE = ['msd', 'vacf', 'qst', 'fskt', 'fskt_legacy']
TWO = ['gr', 'gr_legacy', 'sk', 'sk_fast', 'fkt']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(ONE + TWO + TWO))
    case = draw(gen.trajectories(motion='walk', max_n=12, min_n=1, max_frames=6, lo=20, hi=50, velocities=True))
    case['par'] = draw(lib.corr_pars(kind, case))
    case['par'].pop('normalize', None)
    if kind == 'fkt':
        case['par']['normalize'] = False
    case['integers'] = draw(st.booleans())
    case['shuffle'] = draw(st.booleans())
    return case


def prepare(case):
    d = gen.Data(case)
    if case['integers']:
        names = sorted(set(d.species))
        d.species = [names.index(sp) + 1 for sp in d.species]
    return d


def run(case):
    d = prepare(case)
    par, kind = case['par'], case['par']['kind']
    names = lib.species(d)
    if case['shuffle']:
        names = names[::-1]
    total = lib.run(par, gen.ram(d))
    cls, kw = lib.cls_args(par)
    with target('Partial(%s)' % cls.__name__):
        part = lib.pp().Partial(cls, names, gen.ram(d), **kw)
        part.compute()
    x = {sp: d.species.count(sp) / d.n for sp in names}
    ns = len(names)
    if kind in ONE:
        check(set(part.partial) == set(names), 'partial functions %s for species %s', sorted(map(str, part.partial)), names)
        total_value = numpy.array(lib.flat(total.value))
        acc = numpy.zeros_like(total_value)
        for sp in names:
            f = part.partial[sp]
            ref.same(lib.flat(f.grid), lib.flat(total.grid), 'grid of the partial %s' % sp)
            acc += x[sp] * numpy.array(lib.flat(f.value))
        ref.same(acc, total_value, '%s: composition average of the partials' % kind, 1e-7, 1e-8)
    else:
        check(set(part.partial) == set((a, b) for a in names for b in names), 'partial functions %s', sorted(map(str, part.partial)))
        for a in names:
            for b in names:
                f, g = part.partial[(a, b)], part.partial[(b, a)]
                lib.same_result(f, g, '%s: partials %s-%s and %s-%s' % (kind, a, b, b, a), 1e-12, 1e-12)
        total_value = numpy.array(lib.flat(total.value))
        acc = numpy.zeros_like(total_value)
        for a in names:
            for b in names:
                f = part.partial[(a, b)]
                if kind == 'fkt' and a != b:
                    # the time-reversed pair differs on a finite trajectory: take both orders
                    f = lib.run(par, gen.ram(d), [a, b])
                ref.same(lib.flat(f.grid), lib.flat(total.grid), 'grid of the partial %s-%s' % (a, b))
                weight = 1.0 if kind == 'fkt' else x[a] * x[b] if kind in ('gr', 'gr_legacy') else (x[a] * x[b])**0.5
                acc += weight * numpy.array(lib.flat(f.value))
        tol = 1e-7 * max(1.0, numpy.abs(total_value).max()) if len(total_value) else 1e-7
        if kind in ('gr', 'gr_legacy'):
            # pairs on the edge of a bin may fall on either side
            edges = numpy.arange(len(total.grid) + 1) * par['dr']
            for i in range(d.frames):
                r = ref.pair_distances(d.pos[i], d.pos[i], d.side, 'half')
                lo, hi = ref.hist_bounds(r, edges, 1e-7)
                if (lo != hi).any():
                    raise Reject('distances on the edge of a bin')
        ref.same(acc, total_value, '%s: sum of the partials' % kind, 1e-7, tol)
    return ns > 1 and bool(numpy.any(total_value != 0)), [
        kind, '%d species' % ns, 'dim%d' % d.dim, 'integer labels' if case['integers'] else 'string labels',
        'lone particle' if min(d.species.count(sp) for sp in names) == 1 else 'several']


PROP = Prop('P11', 'several species and a total that does not vanish',
            [Sub('recombine', cases, run, quick=4500),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['the coherent scattering function is recombined without normalisation',
             'g(r): cases with a pair within 1e-7 of a bin edge are skipped'])
