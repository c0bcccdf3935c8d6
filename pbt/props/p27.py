"""Output files: what they say about their content, and that different calculations go to different files."""
import os

import numpy
from hypothesis import strategies as st

from .. import gen, lib, ref
from ..core import Prop, Sub, Reject, check, target

CHEAP = ['gr', 'gr_legacy', 'sk', 'msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4', 'chi4_opt', 'fskt', 'fkt', 'ba', 's4kt']
SYMBOLS = {'gr_legacy': 'gr', 'chi4_opt': 'chi4'}
TEMPLATES = [None, None, None, '{trajectory.filename}.pp.{symbol}.{tag}', '{dir}/{symbol}/{tag}.dat', '{dir}/{symbol}_{tag_description}', '{dir}/{long_name}.{tag}.pp']
HOWS = ['whole', 'species', 'pair', 'partial', 'filter', 'filter', 'two filters', 'weight', 'fluctuations', 'weighted filter']
COMMENTS = [None, None, None, '# run: 12\n', '# a: b\n# c: d\n']


@st.composite
def scripts(draw, most):
    case = draw(gen.trajectories(motion='walk', max_n=9, min_n=4, min_frames=2, max_frames=5, lo=20, hi=40, velocities=True, radii=True, kinds=('even',),
                                 max_species=3, dims=(2, 3)))
    names = sorted(set(case['species']))
    items = []
    # (few quantities, so that several selections of the same one are met)
    kinds = draw(st.one_of(st.lists(st.sampled_from(CHEAP), min_size=1, max_size=2), st.lists(st.sampled_from(CHEAP), min_size=1, max_size=2),
                           st.just(['gr', 'ba']) if most > 1 else st.just(['ba'])))
    hows = draw(st.sampled_from([HOWS, HOWS, ['filter'], ['filter', 'two filters', 'whole'], ['species', 'pair', 'partial', 'filter']]))
    cond = draw(st.lists(st.integers(0, 9), min_size=2, max_size=3, unique=True))
    for _ in range(draw(st.integers(1, most))):
        kind = draw(st.sampled_from(kinds))
        how = draw(st.sampled_from(hows))
        if how in ('pair', 'two filters') and lib.KINDS[kind]['bodies'] == 1:
            how = 'filter'
        if 'weight' in how or how == 'fluctuations':
            kind = 'sk'
        par = draw(lib.corr_pars(kind, case))
        par.pop('normalize', None)
        if 'tgrid' in par:
            par['tgrid'] = sorted(set([0.0] + par['tgrid']))
        if kind == 'ba':
            par['rcut'] = [[max(case['side'])] * len(names)] * len(names)
            par['norigins'] = -1
            if min(case['species'].count(a) for a in names) > 2 and draw(st.booleans()):
                # the cutoffs are those of g(r), which may have been written already
                par['rcut'] = None
        items.append({'par': par, 'how': how, 'a': draw(st.sampled_from(names)), 'b': draw(st.sampled_from(names)), 'cond': draw(st.sampled_from(cond)),
                      'cond2': draw(st.sampled_from(cond)), 'comments': draw(st.sampled_from(COMMENTS))})
    case['items'] = items
    case['template'] = draw(st.sampled_from(TEMPLATES))
    return case


@st.composite
def opposites(draw):
    """The same quantity for two conditions."""
    case = draw(scripts(1))
    item = dict(case['items'][0], how='filter')
    two = draw(st.lists(st.integers(0, 9), min_size=2, max_size=2, unique=True))
    if draw(st.booleans()):
        two = draw(st.sampled_from([[0, 2], [2, 0], [3, 4], [5, 6], [6, 5], [8, 9], [9, 8]]))
    if draw(st.booleans()):
        case['template'] = None
    case['items'] = [dict(item, cond=k) for k in two]
    return case


def conditions(d, names):
    """Conditions that hold for some particles."""
    radius = sorted(d.radius)[d.n // 2]
    return ['species == "%s"' % names[0], "species == '%s'" % names[-1], 'species != "%s"' % (names[0] if len(names) > 1 else 'Z'),
            'radius <= %.3f' % (radius + 0.001), 'radius >= %.3f' % (radius - 0.001), 'radius > 0 and species == "%s"' % names[0],
            'radius > 0 or species == "%s"' % names[0], 'species == "%s" and radius > 0' % names[-1],
            'radius < %.3f' % (radius - 0.001), 'radius > %.3f' % (radius - 0.001)]


def build(item, path, d, names):
    """The objects of one calculation, with what tells it from the others, and how files should describe them."""
    pp = lib.pp()
    cls, kw = lib.cls_args(item['par'])
    how, out = item['how'], []
    conds = conditions(d, names)
    whole = 'the whole system'
    one, two = conds[item['cond']], conds[item['cond2']]
    with target('%s(path)' % cls.__name__):
        if how in ('species', 'pair', 'partial'):
            species = [item['a']] if how == 'species' else sorted(set([item['a'], item['b']])) if how == 'pair' else names
            obj = pp.Partial(cls, species, path, **kw)
            for key, x in obj.partial.items():
                out.append((x, key, 'species pair %s-%s' % key if isinstance(key, tuple) else 'species %s' % key))
        else:
            obj = cls(path, **kw)
            key, text = 'whole', whole
            if how in ('filter', 'weighted filter'):
                key = text = one
                obj = pp.Filter(obj, one)
            elif how == 'two filters':
                key = text = one + ',' + two
                obj = pp.Filter(obj, key)
            # (the way of quoting does not make another condition)
            key = key.replace("'", '"')
            if how in ('weight', 'fluctuations', 'weighted filter'):
                obj.add_weight(field='radius', fluctuations=how == 'fluctuations')
                text += ' with radius %sfield' % ('fluctuations ' if how == 'fluctuations' else '')
                key = (key, how)
            out.append((obj, key, text))
    return obj, out


def parse(path):
    with open(path) as fh:
        lines = fh.read().split('\n')
    check(lines[-1] == '', '%s does not end with a newline', path)
    lines = lines[:-1]
    head = [x for x in lines if x.startswith('#')]
    rows = lines[len(head):]
    check(all(not x.startswith('#') for x in rows), '%s has comments among the data: %s', path, lines)
    return head, rows


def groups_ok(item, d, names):
    """Groups with enough particles for pairs and angles."""
    count = {a: d.species.count(a) for a in names}
    need = {'gr': 2, 'gr_legacy': 2, 'ba': 3, 'fkt': 1, 'sk': 1}.get(item['par']['kind'], 1)
    if item['how'] in ('filter', 'two filters', 'weighted filter'):
        # (counted by the condition itself)
        for c in [item['cond']] + [item['cond2']] * (item['how'] == 'two filters'):
            cond = conditions(d, names)[c]
            sel = [k for k in range(d.n) if eval(cond, {'species': d.species[k], 'radius': d.radius[k]})]
            if len(sel) < need or (need == 3 and item['how'] == 'two filters'):
                return False
            if len(sel) == d.dim or len(set(d.species)) > 1 and need == 3:
                return False
        return True
    return min(count.values()) >= need


def describe(x, path, item, text, source):
    """The header of one file."""
    par = item['par']
    head, rows = parse(path)
    what = os.path.basename(path)
    fields = {}
    for line in head:
        check(line.startswith('# ') and ': ' in line, '%s: header line %r', what, line)
        key, value = line[2:].split(': ', 1)
        fields.setdefault(key, value)
    title = fields.get('title', '')
    for piece in (x.long_name, x.short_name, text):
        check(piece in title, '%s: the title is %r, which does not mention %r', what, title, piece)
    columns = [c.strip() for c in fields.get('columns', '').split(', ')]
    want = x.short_name[x.short_name.index('(') + 1:-1].split(',') + [x.short_name]
    check(columns == want, '%s: the columns are described as %s, expected %s', what, columns, want)
    check(list(x.grid_name) == want[:-1], '%s: the grids are called %s, expected %s', what, x.grid_name, want[:-1])
    for row in rows:
        check(len(row.split()) == len(columns), '%s: the row %r has not %d columns', what, row, len(columns))
    check(fields.get('parents') == source, '%s: the parent is %r instead of %r', what, fields.get('parents'), source)
    check('version' in fields and 'date' in fields, '%s: no version or date: %s', what, head)
    if x.comments:
        check(x.comments in '\n'.join(head) + '\n', '%s: the comments %r are missing: %s', what, x.comments, head)
    for key, value in x.analysis.items():
        if value is None:
            check(key not in fields, '%s: %s is given as %r', what, key, fields.get(key))
            continue
        check(key in fields, '%s: the result of the analysis %s is missing: %s', what, key, head)
        if isinstance(value, (int, float)) and value == value:
            check(abs(float(fields[key]) - value) <= 1e-5 * abs(value), '%s: %s is %s instead of %r', what, key, fields[key], value)
    return rows


def content(x, rows, what):
    got = numpy.array([[float(c) for c in r.split()] for r in rows])
    if len(x.grid_name) == 2:
        want = [[a, b, x.value[i][j]] for i, a in enumerate(x.grid[0]) for j, b in enumerate(x.grid[1])]
    else:
        want = [[a, b] for a, b in zip(x.grid, x.value)]
    want = numpy.array(want, dtype=float)
    check(got.shape == want.shape, '%s holds %s numbers for %s', what, got.shape, want.shape)
    ref.same(got, want, what, 1e-5, 1e-9)


def relaxation(x, path):
    """The file of relaxation times."""
    head, rows = parse(path)
    taus = list(x.analysis['relaxation times tau'].items())
    check(any(h.startswith('# columns: k, tau(k)') for h in head), '%s: header %s', path, head)
    check(len(rows) == len(taus), '%s: %d rows for %d wave-numbers', path, len(rows), len(taus))
    for row, (k, tau) in zip(rows, taus):
        row = [float(y) for y in row.split()]
        check(abs(row[0] - k) <= 1e-5 * k and len(row) == (1 if tau is None else 2), '%s: row %s for k=%r, tau=%r', path, row, k, tau)
        if tau is not None:
            check(abs(row[1] - tau) <= 1e-5 * abs(tau) + 1e-12, '%s: row %s for k=%r, tau=%r', path, row, k, tau)


def run(case):
    d = gen.Data(case)
    names = sorted(set(d.species))
    items = [i for i in case['items'] if groups_ok(i, d, names)]
    if not items:
        raise Reject('too few particles')
    labels = set()
    with lib.scratch() as folder:
        path = os.path.join(folder, 'data.xyz')
        gen.xyz(d, path, variables=['species', 'position', 'velocity', 'radius'])
        done, owner = {}, {}
        for item in items:
            kind = item['par']['kind']
            obj, parts = build(item, path, d, names)
            template = case['template'] and case['template'].replace('{dir}', folder)
            if template and 'weight' in item['how'] and 'tag}' not in template and 'description' not in template:
                template = None
            if kind.startswith('chi4'):
                template = None
            if template:
                obj.output_path = template
            if item['comments']:
                for x, _, _ in parts:
                    x.comments = item['comments']
            with target('do()'):
                obj.do()
            mine = {}
            for x, key, text in parts:
                for y in [x] + ([x.average, x.variance] if kind.startswith('chi4') else []):
                    out = lib.output_name(y, template if y is x else None, path)
                    check(os.path.isfile(out), 'no file %s; there are %s', out, lib.tree(folder))
                    check(out not in mine, 'two results in the same file %s', out)
                    identity = (y.symbol, key)
                    check(owner.get(out, identity) == identity, 'the file %s of %s was overwritten by %s', os.path.basename(out), owner.get(out), identity)
                    owner[out] = identity
                    mine[out] = True
                    rows = describe(y, out, item, text, path)
                    content(y, rows, os.path.basename(out))
                    done[out] = open(out).read()
                if kind in ('fskt', 'fkt'):
                    relaxation(x, lib.output_name(x, template, path) + '.tau')
            labels |= set([kind, item['how']] + ['default cutoffs'] * (kind == 'ba' and item['par']['rcut'] is None))
        known = set(done) | set(x + '.tau' for x in done) | set([path])
        extra = [x for x in lib.tree(folder) if os.path.join(folder, x) not in known]
        check(not extra, 'files %s were written in addition to %s', extra, sorted(os.path.relpath(x, folder) for x in done))
        for out in done:
            check(open(out).read() == done[out], 'the file %s changed after other calculations', out)
    return True, sorted(labels) + ['default path' if case['template'] is None else 'template', '%d calculations' % len(items)]


PROP = Prop('P27', 'at least one calculation was written',
            [Sub('one', lambda: scripts(1), run, quick=1500), Sub('many', lambda: scripts(6), run, quick=600), Sub('two', opposites, run, quick=600)],
            ['numbers are compared to the six digits of the files', 'output path of chi_4 left at its default'])
