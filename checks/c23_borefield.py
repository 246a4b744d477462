"""C23: bore fields survive conversions and behave as containers."""
import math
import os
import tempfile

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, fail, raises, require, same, sub

describe('C23', (
    'Drawn fields of 1 to 8 boreholes, vertical, tilted and mixed, and '
    'sequences of up to 8 indexings, slices, masks, additions on either '
    'side with boreholes, lists and fields, conversions and file round '
    'trips, against a list of plain tuples. Trivial when the field has one '
    'borehole and one operation.'),
    ['tilts are 0 or above 0.01'])

BF, BH = gt.borefield.Borefield, gt.boreholes.Borehole
NAMES = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')


@st.composite
def bore(draw, tilts=None):
    t = draw(st.sampled_from([0., 0., 1.])) if tilts is None else tilts
    t = t and draw(gen.tilt)
    return [draw(gen.length), draw(gen.depth), draw(gen.r_b),
            draw(gen.f(-100., 100.)), draw(gen.f(-100., 100.)), t,
            draw(gen.angle)]


@st.composite
def bores(draw, nmin=1, nmax=8):
    kind = draw(st.sampled_from([0., 1., None, None]))
    bs = draw(st.lists(bore(kind), min_size=nmin, max_size=nmax))
    # coordinates of a map
    ox, oy = draw(st.sampled_from([(0., 0.), (0., 0.), (5e5, 4.9e6)]))
    return [b[:3] + [b[3] + ox, b[4] + oy] + b[5:] for b in bs]


def norm(b):
    """A vertical borehole has no orientation."""
    return tuple(b[:6]) + (b[6] if b[5] else 0.,)


def hole(b):
    return BH(*b[:5], tilt=b[5], orientation=b[6])


def field(bs):
    c = [np.array([b[i] for b in bs]) for i in range(7)]
    return BF(*c[:5], tilt=c[5], orientation=c[6])


def read(b):
    return tuple(float(getattr(b, n)) for n in NAMES)


def judge(f, model, what, cls=BF):
    require(isinstance(f, cls), f'{what}: type', got=type(f))
    require(len(f) == len(model), f'{what}: length', got=len(f),
            expected=len(model))
    if cls is BF:
        require(f.nBoreholes == len(model), f'{what}: nBoreholes')
        for i, n in enumerate(NAMES):
            same(np.asarray(getattr(f, n), float).reshape(-1),
                 np.array([m[i] for m in model], float), f'{what}: {n}')
    got = [read(b) for b in f]
    require(got == [tuple(map(float, m)) for m in model], f'{what}: contents',
            got=got, expected=model)
    for b in f:
        require(isinstance(b, BH), f'{what}: iterates over boreholes')


@st.composite
def history(draw):
    c = {'bores': draw(bores()), 'ops': []}
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(
            ['slice', 'list', 'mask', 'add field', 'add list', 'add bore',
             'radd field', 'radd list', 'radd bore', 'boreholes', 'file',
             'old file', 'index', 'npindex', 'bore + bore', 'bore + list',
             'list + bore', 'iadd']))
        o = [op]
        if op == 'slice':
            o.append([draw(st.none() | st.integers(-9, 9)),
                      draw(st.none() | st.integers(-9, 9)),
                      draw(st.sampled_from([None, 1, 2, -1, -2]))])
        elif op in ('list', 'mask'):
            o.append(draw(st.lists(st.integers(0, 7), min_size=1,
                                   max_size=6)))
            o.append(draw(st.booleans()))
        elif op in ('index', 'npindex'):
            o.append(draw(st.integers(-8, 7)))
        elif op in ('add bore', 'radd bore'):
            o.append([draw(bore())])
        elif op in ('bore + bore',):
            o.append([draw(bore()), draw(bore())])
        elif op in ('boreholes', 'file', 'old file'):
            pass
        else:
            o.append(draw(bores(1, 3)))
        c['ops'].append(o)
    return c


@sub('C23', 'histories', history(), 1500, 30000, shards=3)
def check_histories(c, ctx):
    if len(c['bores']) == 1 and len(c['ops']) == 1:
        ctx.set_trivial('one borehole, one operation')
    f, m = field(c['bores']), [norm(b) for b in c['bores']]
    judge(f, m, 'new field')
    for op, *a in c['ops']:
        ctx.label(op)
        old, old_m = f, list(m)
        n = len(m)
        if op == 'slice':
            s = slice(*a[0])
            if m[s]:
                f, m = f[s], m[s]
            else:
                require(len(f[s]) == 0, 'empty slice is empty')
        elif op == 'list':
            k = [i % n for i in a[0]]
            f = f[k if a[1] else np.array(k)]
            m = [m[i] for i in k]
        elif op == 'mask':
            k = np.isin(np.arange(n), [i % n for i in a[0]])
            f, m = f[k], [m[i] for i in range(n) if k[i]]
        elif op in ('index', 'npindex'):
            i = a[0]
            if -n <= i < n:
                b = f[np.int64(i) if op == 'npindex' else i]
                require(isinstance(b, BH), 'one borehole', got=type(b))
                require(read(b) == m[i], 'indexed borehole', got=read(b),
                        expected=m[i])
            else:
                raises(IndexError, lambda: f[i], 'index out of range')
        elif op in ('add field', 'iadd'):
            g = field(a[0])
            if op == 'iadd':
                f += g
            else:
                f = f + g
            m = m + [norm(b) for b in a[0]]
        elif op == 'radd field':
            f, m = field(a[0]) + f, [norm(b) for b in a[0]] + m
        elif op == 'add list':
            L = [hole(b) for b in a[0]]
            f, m = f + L, m + [norm(b) for b in a[0]]
            require(len(L) == len(a[0]), 'list left as it was')
        elif op == 'radd list':
            L = [hole(b) for b in a[0]]
            f, m = L + f, [norm(b) for b in a[0]] + m
            require(len(L) == len(a[0]), 'list left as it was')
        elif op == 'add bore':
            f, m = f + hole(a[0][0]), m + [norm(a[0][0])]
        elif op == 'radd bore':
            f, m = hole(a[0][0]) + f, [norm(a[0][0])] + m
        elif op == 'bore + bore':
            f, m = hole(a[0][0]) + hole(a[0][1]), [norm(b) for b in a[0]]
        elif op == 'bore + list':
            f = f[0] + [hole(b) for b in a[0]]
            m = [m[0]] + [norm(b) for b in a[0]]
        elif op == 'list + bore':
            f = [hole(b) for b in a[0]] + f[-1]
            m = [norm(b) for b in a[0]] + [m[-1]]
        elif op == 'boreholes':
            L = f.to_boreholes()
            judge(L, m, 'to_boreholes', list)
            f = BF.from_boreholes(L)
        else:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'field.txt')
                f.to_file(p)
                if op == 'file':
                    f = BF.from_file(p)
                else:
                    L = gt.boreholes.field_from_file(p)
                    judge(L, m, 'field_from_file', list)
                    f = BF.from_boreholes(L)
        judge(f, m, op)
        if f is not old:
            judge(old, old_m, f'{op} leaves its operand as it was')


@st.composite
def pair(draw):
    bs = draw(bores())
    return {'bores': bs, 'which': draw(st.integers(0, len(bs) - 1)),
            'attr': draw(st.integers(0, 6)),
            'how': draw(st.sampled_from(['add', 'add', 'negate', 'swap',
                                         'columns'])),
            'd': draw(st.sampled_from([0.01, -0.01, 0.5, -0.5]))}


@sub('C23', 'equality', pair(), 1500, 30000)
def check_equality(c, ctx):
    bs, i, k = c['bores'], c['which'], c['attr']
    f = field(bs)
    L = [hole(b) for b in bs]

    def eq(a, b, want, what):
        require((a == b) is want, f'{what}: ==', want=want)
        require((a != b) is (not want), f'{what}: !=', want=not want)
    eq(f, field(bs), True, 'copy')
    eq(f, f, True, 'itself')
    eq(f, L, True, 'list')
    eq(field(bs[:1]), L[0], True, 'borehole')
    eq(f, field(bs + bs[:1]), False, 'longer')
    eq(f, L + L[:1], False, 'longer list')
    if len(bs) > 1:
        eq(f, field(bs[:-1]), False, 'shorter')
        eq(f, L[0], False, 'one borehole')
        same_rev = [norm(b) for b in bs] == [norm(b) for b in bs][::-1]
        big = max(abs(p - q) for a, b in zip(bs, bs[::-1])
                  for p, q in zip(norm(a), norm(b)))
        if same_rev or big > 0.1:
            eq(f, f[::-1], same_rev, 'reversed')
    new = [list(b) for b in bs]
    how = c['how']
    if how == 'negate' and k in (3, 4, 6):
        # every borehole mirrored
        for b in new:
            b[k] = -b[k]
    elif how == 'swap' and len(bs) > 1:
        # two boreholes exchange one dimension
        j = (i + 1) % len(bs)
        new[i][k], new[j][k] = new[j][k], new[i][k]
    elif how == 'columns' and k in (3, 4):
        for b in new:
            b[3], b[4] = b[4], b[3]
    else:
        new[i][k] += c['d'] * (10. if k in (3, 4) else max(abs(new[i][k]), 1.)
                               if k not in (5, 6) else 1.)
        if k == 0:
            new[i][k] = abs(new[i][k]) + 0.1 * bs[i][k]
        if k == 5:
            new[i][k] = abs(new[i][k])
    old_n, new_n = [norm(b) for b in bs], [norm(b) for b in new]
    # of positions, absolute: a borehole some meters away is another one
    # wherever the origin is
    diff = max(abs(p - q) / (10. if n in 'xy' else max(abs(p), 1e-2))
               for a, b in zip(old_n, new_n)
               for n, p, q in zip(NAMES, a, b))
    ctx.label(f'{how} {NAMES[k]}')
    if old_n == new_n:
        eq(f, field(new), True, f'orientation of a vertical borehole')
        ctx.set_trivial('no difference')
    elif diff > 1e-3:
        eq(f, field(new), False, f'other {NAMES[k]}')
        eq(field(new), f, False, f'other {NAMES[k]}')
        eq(f, [hole(b) for b in new], False, f'other {NAMES[k]} in list')


@st.composite
def scalars(draw):
    bs = draw(bores(2, 6))
    return {'bores': bs, 'one': [draw(st.booleans()) for _ in range(7)],
            'as': draw(st.sampled_from(['list', 'array', 'tuple']))}


@sub('C23', 'broadcasting', scalars(), 800, 20000)
def check_broadcasting(c, ctx):
    """Numbers stand for arrays of equal values."""
    one = list(c['one'])
    if one[3] and one[4]:
        one[3] = False
    bs = [[(c['bores'][0] if one[k] else b)[k] for k in range(7)]
          for b in c['bores']]
    ctx.label(f'{sum(one)} numbers')
    if not any(one):
        ctx.set_trivial('no numbers')
    cv = {'list': list, 'array': np.array, 'tuple': tuple}[c['as']]
    a = [bs[0][k] if one[k] else cv([b[k] for b in bs]) for k in range(7)]
    f = BF(*a[:5], tilt=a[5], orientation=a[6])
    judge(f, [norm(b) for b in bs], 'broadcast field')
    g = BF(H=a[0], D=a[1], r_b=a[2], x=a[3], y=a[4])
    judge(g, [norm(b[:5] + [0., 0.]) for b in bs], 'default tilt')


@sub('C23', 'files', bores(), 600, 10000)
def check_files(bs, ctx):
    """Files with and without tilts, through both readers."""
    if len(bs) == 1:
        ctx.label('one line')
    vert = [b[:5] + [0., 0.] for b in bs]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'a.txt')
        with open(p, 'w') as fh:
            fh.write('# x y H D r_b\n')
            for H, D, r, x, y, _, _ in bs:
                fh.write(f'{x!r} {y!r}\t{H!r} {D!r} {r!r}\n')
        judge(BF.from_file(p), [norm(b) for b in vert], 'five columns')
        judge(gt.boreholes.field_from_file(p), [norm(b) for b in vert],
              'five columns, old reader', list)
        p = os.path.join(d, 'b.txt')
        with open(p, 'w') as fh:
            for H, D, r, x, y, t, o in bs:
                fh.write(' '.join(map(repr, (x, y, H, D, r, t, o))) + '\n')
        judge(BF.from_file(p), [norm(b) for b in bs], 'seven columns')
        judge(gt.boreholes.field_from_file(p), [norm(b) for b in bs],
              'seven columns, old reader', list)
    b = BF.from_boreholes(hole(bs[0]))
    judge(b, [norm(bs[0])], 'from one borehole')
    require(repr(hole(bs[0])).startswith('Borehole(H='), 'repr')
    e = eval(repr(hole(bs[0])), {'Borehole': BH})
    require(read(e) == norm(bs[0]), 'borehole rebuilt from its repr')


@sub('C23', 'type errors', bores(1, 3), 200, 2000)
def check_types(bs, ctx):
    f = field(bs)
    for bad in (None, 3., 'x', {'a': 1}):
        for a, b in ((f, bad), (hole(bs[0]), bad), (bad, f)):
            raises(TypeError, lambda: a + b, f'{type(a)} + {type(b)}')
