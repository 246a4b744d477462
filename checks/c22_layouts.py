"""C22: field layouts have the documented geometry."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, require, sub

describe('C22', (
    'Drawn layouts of every kind with 1 to 7 boreholes a side (circles up '
    'to 40), spacings, dimensions, tilts and origins, including one row, '
    'one column, even and odd rows and origins on a borehole; positions, '
    'numbering, dimensions and orientations are compared with a geometric '
    'specification for the old and new interfaces. Trivial when there is '
    'one borehole.'),
    ['boreholes at the origin up to rounding of positions are not drawn at '
     'exactly one radius of it'])

BF = gt.borefield.Borefield
KINDS = ['rectangle', 'staggered_rectangle', 'dense_rectangle', 'L_shaped',
         'U_shaped', 'box_shaped', 'circle']


@st.composite
def layout(draw):
    k = draw(st.sampled_from(KINDS))
    c = {'kind': k, 'N_1': draw(st.integers(1, 7)),
         'N_2': draw(st.integers(1, 7)), 'N': draw(st.integers(1, 40)),
         'R': draw(gen.f(2., 50.)),
         'B_1': draw(gen.nice(1., 15., 0.5)),
         'B_2': draw(gen.nice(1., 15., 0.5)),
         'H': draw(gen.length), 'D': draw(gen.depth), 'r_b': draw(gen.r_b),
         'tilt': draw(st.sampled_from([0., math.pi / 9]) | gen.tilt),
         'last': draw(st.booleans()), 'origin': None,
         'how': draw(st.sampled_from(['positional', 'keyword']))}
    o = draw(st.sampled_from(['default', 'point', 'borehole', 'between']))
    if o == 'point':
        c['origin'] = [draw(gen.f(-30., 60.)), draw(gen.f(-30., 60.))]
    elif o == 'borehole':
        i = draw(st.integers(0, 200))
        p = positions(c)
        c['origin'] = p[i % len(p)]
    elif o == 'between':
        c['origin'] = [draw(st.integers(0, 6)) * c['B_1'] / 2,
                       draw(st.integers(0, 6)) * c['B_2'] / 2]
    return c


def positions(c):
    """Numbered positions, row after row from the bottom."""
    k, N1, N2, B1, B2 = c['kind'], c['N_1'], c['N_2'], c['B_1'], c['B_2']
    if k == 'circle':
        return [[c['R'] * math.cos(2 * math.pi * i / c['N']),
                 c['R'] * math.sin(2 * math.pi * i / c['N'])]
                for i in range(c['N'])]
    shift = 0.
    if k == 'dense_rectangle':
        B2 = B1 * (math.sin(math.pi / 3) if N1 > 1 else 1.)
    stag = k.startswith(('stag', 'dense')) and N1 > 1 and N2 > 1
    out = []
    for j in range(N2):
        n, shift = N1, 0.
        if stag and j % 2:
            shift = 0.5
            n = N1 if c['last'] else N1 - 1
        for i in range(n):
            if k == 'L_shaped' and j > 0 and i > 0:
                continue
            if k == 'U_shaped' and j > 0 and 0 < i < N1 - 1:
                continue
            if k == 'box_shaped' and 0 < j < N2 - 1 and 0 < i < N1 - 1:
                continue
            out.append([(i + shift) * B1, j * B2])
    return out


def center(c):
    k = c['kind']
    if k == 'circle':
        return [0., 0.]
    p = positions(dict(c, kind='rectangle'
                       if not k.startswith(('stag', 'dense')) else k))
    x, y = [a for a, _ in p], [b for _, b in p]
    return [(min(x) + max(x)) / 2, (min(y) + max(y)) / 2]


def call(c, new):
    k = c['kind']
    fn = getattr(BF if new else gt.boreholes, f'{k}_field')
    o = None if c['origin'] is None else tuple(c['origin'])
    dims = [('H', c['H']), ('D', c['D']), ('r_b', c['r_b'])]
    if k == 'circle':
        a = [('N', c['N']), ('R', c['R'])] + dims
    elif k == 'dense_rectangle':
        a = [('N_1', c['N_1']), ('N_2', c['N_2']), ('B', c['B_1'])] + dims
    else:
        a = [(n, c[n]) for n in ('N_1', 'N_2', 'B_1', 'B_2')] + dims
    if k.startswith(('stag', 'dense')):
        a.append(('include_last_borehole', c['last']))
    a += [('tilt', c['tilt']), ('origin', o)]
    if c['tilt'] == 0. and c['origin'] is None and c['how'] == 'keyword':
        a = a[:-2]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['how'] == 'keyword':
            return fn(**dict(a))
        return fn(*[v for _, v in a])


def columns(f):
    return {n: np.array([getattr(b, n) for b in f], float)
            for n in ('x', 'y', 'H', 'D', 'r_b', 'tilt', 'orientation')}


def judge(c, f, what, numbered=True):
    p = np.array(positions(c), float)
    require(len(f) == len(p), f'{what}: number of boreholes', got=len(f),
            expected=len(p))
    v = columns(f)
    x, y = finite(v['x']), finite(v['y'])
    L = max(1., float(np.max(np.abs(p))))
    if not numbered:
        q = np.array([x, y]).T
        d = np.linalg.norm(p[:, None] - q[None], axis=-1)
        order = np.argmin(d, axis=1)
        require(len(set(order.tolist())) == len(p),
                f'{what}: positions', got=q, expected=p)
        v = {n: a[order] for n, a in v.items()}
        x, y = v['x'], v['y']
    close(x, p[:, 0], rtol=1e-9, atol=1e-9 * L, what=f'{what}: x')
    close(y, p[:, 1], rtol=1e-9, atol=1e-9 * L, what=f'{what}: y')
    for n in ('H', 'D', 'r_b'):
        close(v[n], np.full(len(p), c[n]), rtol=0., what=f'{what}: {n}')
    o = center(c) if c['origin'] is None else c['origin']
    for i in range(len(p)):
        dx, dy = p[i][0] - o[0], p[i][1] - o[1]
        d = math.hypot(dx, dy)
        if c['tilt'] == 0. or d < c['r_b'] * (1 - 1e-6):
            require(v['tilt'][i] == 0., f'{what}: vertical borehole {i}',
                    tilt=v['tilt'][i], distance=d)
        elif d > c['r_b'] * (1 + 1e-6):
            close(v['tilt'][i], c['tilt'], rtol=0., what=f'{what}: tilt {i}')
            a = v['orientation'][i]
            close([math.cos(a), math.sin(a)], [dx / d, dy / d], atol=1e-8,
                  what=f'{what}: borehole {i} faces away from the origin')
        if v['tilt'][i] == 0.:
            require(v['orientation'][i] == 0.,
                    f'{what}: orientation of a vertical borehole')


def settle(c, ctx):
    n = len(positions(c))
    ctx.label(c['kind'], 'tilted' if c['tilt'] else 'vertical',
              'default origin' if c['origin'] is None else 'origin')
    if n == 1:
        ctx.set_trivial('one borehole')
    if c['kind'] != 'circle' and min(c['N_1'], c['N_2']) == 1:
        ctx.label('line')


@sub('C22', 'borefield', layout(), 3000, 60000, shards=2)
def check_new(c, ctx):
    settle(c, ctx)
    f = call(c, True)
    require(isinstance(f, BF), 'a Borefield is returned', type=type(f))
    require(f.nBoreholes == len(f), 'number of boreholes')
    judge(c, f, c['kind'])


@sub('C22', 'deprecated', layout(), 2000, 40000, shards=2)
def check_old(c, ctx):
    settle(c, ctx)
    f = call(c, False)
    require(isinstance(f, list), 'a list is returned', type=type(f))
    # numbering of the box: known finding
    judge(c, f, 'deprecated ' + c['kind'],
          c['kind'] != 'box_shaped' or c.get('__known__', False))


@sub('C22', 'spacing', layout(), 800, 20000)
def check_spacing(c, ctx):
    """Relations a user reads off the parameters, without the positions."""
    settle(c, ctx)
    f = call(c, True)
    x, y, k = np.array(f.x), np.array(f.y), c['kind']
    n = len(x)
    d = np.hypot(x[:, None] - x, y[:, None] - y) + np.diag(np.full(n, 1e9))
    if n == 1:
        return
    N1, N2, B1, B2 = c['N_1'], c['N_2'], c['B_1'], c['B_2']
    if k == 'circle':
        close(np.hypot(x, y), np.full(n, c['R']), rtol=1e-9, what='radius')
        close(np.min(d, axis=1),
              np.full(n, 2 * c['R'] * math.sin(math.pi / n)), rtol=1e-8,
              what='spacing around the circle')
        return
    if k == 'dense_rectangle':
        close(np.min(d, axis=1), np.full(n, B1), rtol=1e-9,
              what='distance to the closest borehole')
        return
    s = k.startswith('stag') and min(N1, N2) > 1
    if k in ('rectangle', 'L_shaped', 'U_shaped', 'box_shaped'):
        wide = (N1 - 1) * B1
        close(np.min(d), min(B1 if N1 > 1 else 1e9, B2 if N2 > 1 else 1e9),
              rtol=1e-9, what='smallest distance')
    else:
        wide = (N1 - (0.5 if c['last'] and s else 1.)) * B1
    close(np.ptp(x), wide, rtol=1e-9, atol=1e-12, what='width')
    close(np.ptp(y), (N2 - 1) * B2, rtol=1e-9, atol=1e-12, what='height')
    want = {'rectangle': N1 * N2, 'L_shaped': N1 + N2 - 1,
            'U_shaped': N1 + min(N1, 2) * (N2 - 1),
            'box_shaped': N1 * N2 - max(0, N1 - 2) * max(0, N2 - 2)}
    want['staggered_rectangle'] = N1 * N2 - (
        N2 // 2 if s and not c['last'] else 0)
    require(n == want[k], 'number of boreholes', got=n, expected=want[k])


POINTS = {'E': (1, 0), 'N': (0, 1), 'W': (-1, 0), 'S': (0, -1)}


@st.composite
def bearing(draw):
    name = draw(st.sampled_from(
        ['E', 'ENE', 'NE', 'NNE', 'N', 'NNW', 'NW', 'WNW', 'W', 'WSW', 'SW',
         'SSW', 'S', 'SSE', 'SE', 'ESE']))
    return {'name': name,
            'spelled': ''.join(draw(st.sampled_from([x.upper(), x.lower()]))
                               for x in name),
            'wrong': draw(st.sampled_from(
                ['', 'X', 'EN', 'NEN', 'NS', 'EE', 'north', 'N ', 'WN',
                 'SES'])),
            'H': draw(gen.length), 'tilt': draw(gen.f(0.05, 1.))}


@sub('C22', 'compass', bearing(), 150, 3000)
def check_compass(c, ctx):
    """A borehole told to lean towards a compass point does so: a point of
    two letters lies half-way between them, a point of three half-way
    between its first letter and the other two."""
    def unit(name):
        if len(name) == 1:
            return np.array(POINTS[name], float)
        a = (unit(name[0]) + unit(name[1:]))
        return a / np.hypot(*a)
    ctx.label(f'{len(c["name"])} letters')
    o = gt.utilities.cardinal_point(c['spelled'])
    b = gt.boreholes.Borehole(c['H'], 1., 0.075, 2., -3., tilt=c['tilt'],
                              orientation=o)
    want = np.array([2., -3.]) + c['H'] * math.sin(c['tilt']) * unit(
        c['name'])
    close(np.array(
        [b.x + c['H'] * math.sin(b.tilt) * math.cos(b.orientation),
         b.y + c['H'] * math.sin(b.tilt) * math.sin(b.orientation)]),
        want, rtol=1e-12, atol=1e-9 * c['H'], what='foot of the borehole')
    try:
        got = gt.utilities.cardinal_point(c['wrong'])
    except (ValueError, TypeError, KeyError):
        return
    require(False, 'unknown direction accepted', name=c['wrong'], got=got)
