"""Structure factors weighted by a per-particle field."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

FIELDS = ['real', 'positive', 'int', 'zero mean', 'one', 'static', 'radius', 'mass', 'ones and zeros']


@st.composite
def cases(draw):
    case = draw(gen.trajectories(motion='free', max_n=10, min_n=1, max_frames=5, lo=20, hi=50, variable_n=True, masses=True, radii=True,
                                 field=True, kinds=('even', 'irregular', 'blocks')))
    case['par'] = dict(draw(lib.fourier_pars(case)), kind=draw(st.sampled_from(['sk', 'sk', 'sk_fast'])), norigins=draw(gen.norigins))
    case['which'] = draw(st.sampled_from(FIELDS))
    case['source'] = draw(st.sampled_from(['own', 'own', 'other', 'other', 'file', 'cached', 'sliced']))
    case['fluctuations'] = draw(st.booleans())
    case['groups'] = draw(lib.group_choices(case))
    case['how'] = draw(st.sampled_from(['filters', 'partial', 'filters']))
    case['bad'] = draw(st.integers(0, 7))
    case['twice'] = draw(st.integers(0, 3)) == 0
    case['field2'] = draw(st.booleans())
    return case


def set_field(d, which):
    """Make the field of the kind requested; returns the name of the property."""
    if which in ('radius', 'mass'):
        d.field = numpy.array([getattr(d, which)] * d.frames)
        return which
    f = d.field
    if which == 'positive':
        f = numpy.abs(f) + 0.5
    elif which == 'int':
        f = numpy.rint(2 * f).astype(int)
    elif which == 'zero mean':
        f = f - f.mean(axis=1)[:, None]
    elif which == 'one':
        f = numpy.ones_like(f)
    elif which == 'ones and zeros':
        f = (f > 0).astype(int)
    elif which == 'static':
        f = numpy.array([f[0]] * d.frames)
    d.field = f
    return 'field'


def attach(d, i, k, p):
    value = d.field[i][k]
    p.field = int(value) if d.field.dtype.kind == 'i' else float(value)


def expected(d, groups, shells, origins, fluctuations):
    fa, fb, same = lib.group_frames(d, groups)
    wa, wb, _ = lib.group_frames(d, groups, 'field')
    if fluctuations:
        ma = numpy.mean([w.mean() for w in wa])
        mb = numpy.mean([w.mean() for w in wb])
        wa, wb = [w - ma for w in wa], [w - mb for w in wb]
    out = []
    for kl in shells:
        a = numpy.array([[ref.rho_k(fa[i], k, wa[i]) for k in kl] for i in origins])
        b = a if same else numpy.array([[ref.rho_k(fb[i], k, wb[i]) for k in kl] for i in origins])
        out.append(((a * b.conj()).mean() - a.mean() * b.mean().conj()).real)
    norms = [(numpy.mean([len(fa[i]) for i in pick]) * numpy.mean([len(fb[i]) for i in pick]))**0.5
             for pick in (range(d.frames), origins)]
    return numpy.array(out), norms


def run(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    name = set_field(d, case['which'])
    everywhere = [len(lib.group_frames(d, groups)[j][i]) for j in (0, 1) for i in range(d.frames)]
    if min(everywhere) == 0:
        raise Reject('empty group')
    origins = list(range(0, d.frames, ref.skip(d.steps, par['norigins'], d.counts[0])))
    source = case['source']
    if source == 'sliced' and d.frames < 3:
        source = 'other'
    if source in ('file', 'cached') and name == 'mass':
        source = 'other'        # atooms does not read masses back from this format
    pp = lib.pp()
    from atooms.trajectory import Trajectory, TrajectoryXYZ
    from atooms.trajectory.decorators import Sliced
    with lib.scratch() as folder:
        extra = attach if source == 'own' and name == 'field' else None
        plain = gen.Data(case)
        if case['field2']:
            # the trajectory itself has another field of the same name
            plain.field = plain.field[::-1] + 0.25
        else:
            plain.field = None
        if source != 'own' and name in ('radius', 'mass'):
            # other values in the trajectory itself
            setattr(plain, name, getattr(plain, name) + 1.0)
        th = gen.ram(d if source == 'own' else plain, 'pos', extra)
        th.cache = case['twice']
        weight = None
        if source != 'own':
            # same steps, positions elsewhere
            other = gen.Data(case)
            other.pos = -other.pos
            other.field = d.field
            if source == 'other' or source == 'sliced':
                weight = gen.ram(other, 'pos', attach)
            else:
                path = gen.xyz(other, os.path.join(folder, 'weight.xyz'), 'pos', attach, variables=['species', 'position', name])
                weight = TrajectoryXYZ(path)
                weight.cache = source == 'cached'
        if source == 'sliced':
            sl = slice(1, None)
            th, weight = Sliced(th, sl), Sliced(weight, sl)
            d = sliced(d, 1)
            if len(origins) != len(range(0, d.frames, ref.skip(d.steps, par['norigins'], d.counts[0]))) or th.block_size != ref.block_size(d.steps):
                raise Reject('origins of a slice')
            origins = list(range(0, d.frames, ref.skip(d.steps, par['norigins'], d.counts[0])))
        # Weights with other steps are refused
        if case['bad'] == 0 and d.frames > 1:
            wrong = gen.Data(case)
            wrong.steps = wrong.steps[:-1] + [wrong.steps[-1] + 1]
            wrong.field = d.field if source != 'sliced' else None
            obj = lib.make(par, gen.ram(plain))
            try:
                obj.add_weight(trajectory=gen.ram(wrong), field='radius')
                check(False, 'a weight trajectory with other steps is accepted')
            except ValueError:
                pass
        cls, kw = lib.cls_args(par)
        if case['how'] == 'partial' and groups:
            a, b = groups[0], groups[-1]
            with target('Partial with a weight'):
                part = pp.Partial(cls, sorted(set([a, b])), th, **kw)
                part.add_weight(weight, name, case['fluctuations'])
                part.compute()
            obj = part.partial[(a, b)]
            if a > b:
                # (copied from the other pair, which reports the wave-vectors)
                obj.kvectors = part.partial[(b, a)].kvectors
        else:
            obj = lib.make(par, th)
            if case['bad'] % 2:
                with target('add_weight()'):
                    obj.add_weight(trajectory=weight, field=name, fluctuations=case['fluctuations'])
            lib.add_filters(obj, groups, case['par'])
            if not case['bad'] % 2:
                with target('add_weight()'):
                    obj.add_weight(trajectory=weight, field=name, fluctuations=case['fluctuations'])
            lib.compute(obj, 'weighted S(k)')
            if case['twice']:
                lib.compute(obj, 'weighted S(k) again')
        want, norms = expected(d, groups, lib.shared_kvectors(obj), origins, case['fluctuations'])
    problem = None
    for n in norms:
        try:
            ref.same(obj.value, want / n, 'S(k) weighted by %s (%s)' % (case['which'], source), 1e-7, 1e-8)
            problem = None
            break
        except Exception as exc:
            problem = problem or exc
    if problem:
        raise problem
    return bool(numpy.any(numpy.abs(want) > 1e-7)), [
        source, case['which'], 'fluctuations' if case['fluctuations'] else 'field', lib.GROUP_LABELS[len(groups)], 'dim%d' % d.dim,
        case['how'] if groups else 'total', 'counts vary' if len(set(d.counts)) > 1 else 'fixed N']


def sliced(d, start):
    e = gen.Data(d.case)
    e.frames = d.frames - start
    e.steps, e.counts, e.sides = d.steps[start:], d.counts[start:], d.sides[start:]
    e.pos, e.unf, e.vel, e.field = d.pos[start:], d.unf[start:], d.vel[start:], d.field[start:]
    return e


@st.composite
def explicit_cases(draw):
    """Wave-vectors given by the user, in any dimension."""
    case = draw(gen.trajectories(motion='free', max_n=8, max_frames=4, lo=20, hi=50, variable_n=True, masses=True, radii=True,
                                 field=True, kinds=('even', 'irregular'), dims=(1, 2, 3, 4)))
    case['kvectors'] = draw(lib.vector_lists(case['dim'], (2, 5, 30)))
    case['par'] = {'kind': draw(st.sampled_from(['sk', 'sk_fast'])), 'norigins': draw(gen.norigins)}
    case['which'] = draw(st.sampled_from(FIELDS))
    case['fluctuations'] = draw(st.booleans())
    case['groups'] = draw(lib.group_choices(case))
    return case


def run_explicit(case):
    d = gen.Data(case)
    par, groups = case['par'], case['groups']
    name = set_field(d, case['which'])
    if min(len(lib.group_frames(d, groups)[j][i]) for j in (0, 1) for i in range(d.frames)) == 0:
        raise Reject('empty group')
    origins = list(range(0, d.frames, ref.skip(d.steps, par['norigins'], d.counts[0])))
    obj, kvec = lib.explicit(par, gen.ram(d, 'pos', attach if name == 'field' else None), groups, case['kvectors'], d.side)
    with target('add_weight()'):
        obj.add_weight(field=name, fluctuations=case['fluctuations'])
    lib.compute(obj, 'weighted S(k)')
    want, norms = expected(d, groups, kvec, origins, case['fluctuations'])
    if not any(len(obj.value) == len(want) and numpy.allclose(obj.value, want / n, 1e-7, 1e-8) for n in norms):
        ref.same(obj.value, want / norms[0], 'S(k) weighted by %s at %s' % (case['which'], case['kvectors']), 1e-7, 1e-8)
    return bool(numpy.any(numpy.abs(want) > 1e-7)), [case['which'], 'fluctuations' if case['fluctuations'] else 'field',
                                                     lib.GROUP_LABELS[len(groups)], 'dim%d' % d.dim]


PROP = Prop('P17', 'some value of the weighted structure factor is not zero',
            [Sub('weights', cases, run, quick=4000),
             Sub('explicit', explicit_cases, run_explicit, quick=600),
             Sub('sizes', gen.large(cases), run, quick=300, thorough=6000)],
            ['groups are not empty in any frame'])
