"""C24: duplicates are found and removed."""
import contextlib
import io
import math

import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import describe, require, sub

describe('C24', (
    'Drawn fields of 1 to 30 boreholes (some of 300) scattered over sites '
    'with clusters of coincident, overlapping, chained and barely separate '
    'boreholes in shuffled order; reported pairs and the remaining field '
    'are compared with a quadratic specification. Trivial when there is no '
    'pair closer than three radii.'),
    ['no two boreholes are within 1e-6 of exactly one radius of each other; '
     'with different radii, pairs nearer than both radii are duplicates, '
     'pairs farther than the largest radius of the field are not, and those '
     'between may be either, whatever the order of boreholes'])

FD, RD = gt.boreholes.find_duplicates, gt.boreholes.remove_duplicates


@st.composite
def field(draw, nmax=30):
    r = draw(gen.r_b)
    n = draw(st.integers(1, nmax))
    sites = draw(st.lists(st.tuples(gen.f(-50., 50.), gen.f(-50., 50.)),
                          min_size=1, max_size=max(1, n // 2 + 1)))
    p = []
    for _ in range(n):
        s = draw(st.integers(0, len(sites) - 1))
        x, y = sites[s]
        k = draw(st.sampled_from(['same', 'near', 'edge', 'chain', 'far',
                                  'off']))
        a = draw(gen.angle)
        d = {'same': 0., 'near': 0.3, 'edge': 0.99, 'chain': 0.8,
             'far': 1.01, 'off': 40.}[k] * r
        if k == 'chain' and p:
            x, y = p[-1]
        p.append([x + d * math.cos(a), y + d * math.sin(a)])
    # coordinates of a map
    ox, oy = draw(st.sampled_from([(0., 0.), (0., 0.), (0., 0.), (5e5, 4.9e6),
                                   (-3e4, 0.)]))
    p = [[x + ox, y + oy] for x, y in p]
    return {'r': r, 'p': p, 'as': draw(st.sampled_from(['list', 'field'])),
            'tilt': draw(st.sampled_from([0., 0., 0.3])),
            'disp': draw(st.booleans())}


def build(c):
    L = [gt.boreholes.Borehole(100. + i, 2., c['r'], x, y, tilt=c['tilt'],
                               orientation=0.1 * i)
         for i, (x, y) in enumerate(c['p'])]
    return L, L if c['as'] == 'list' else \
        gt.borefield.Borefield.from_boreholes(L)


def judge(c, ctx):
    p, r = c['p'], c['r']
    n = len(p)
    want, near = [], False
    for i in range(n):
        for j in range(i + 1, n):
            d = math.hypot(p[i][0] - p[j][0], p[i][1] - p[j][1])
            near = near or d < 3 * r
            if abs(d / r - 1.) < 1e-6:
                ctx.set_trivial('ambiguous')
                return
            if d < r:
                want.append((i, j))
    ctx.label(f'{min(len(want), 5)} pairs', c['as'])
    if not near:
        ctx.set_trivial('no close pair')
    L, f = build(c)
    before = [repr(b) for b in L]
    with contextlib.redirect_stdout(io.StringIO()):
        got = FD(f, disp=c['disp'])
        rest = RD(f, disp=c['disp'])
    require([tuple(map(int, g)) for g in got] == want, 'duplicate pairs',
            got=got, expected=want)
    drop = {j for _, j in want}
    keep = [before[i] for i in range(n) if i not in drop]
    require([repr(b) for b in rest] == keep, 'remaining boreholes',
            got=len(rest), expected=len(keep))
    if c['as'] == 'list':
        ids = {id(b) for b in L}
        require(all(id(b) in ids for b in rest), 'same objects')
    with contextlib.redirect_stdout(io.StringIO()):
        require(list(FD(rest)) == [], 'no duplicates remain')
        again = RD(rest)
    require([repr(b) for b in again] == keep, 'removal is idempotent')
    require([repr(b) for b in L] == before and len(L) == n,
            'field left as it was')


@sub('C24', 'fields', field(), 2500, 40000, shards=2)
def check_fields(c, ctx):
    judge(c, ctx)


@st.composite
def large(draw):
    """A regular field of hundreds of boreholes with a few extra ones."""
    n1, n2 = draw(st.integers(5, 20)), draw(st.integers(5, 15))
    r = draw(gen.r_b)
    p = [[5. * i, 5. * j] for j in range(n2) for i in range(n1)]
    for _ in range(draw(st.integers(1, 6))):
        x, y = p[draw(st.integers(0, len(p) - 1))]
        d = draw(st.sampled_from([0., 0.4, 0.95, 1.05])) * r
        p.insert(draw(st.integers(0, len(p))), [x + d, y])
    return {'r': r, 'p': p, 'as': 'list', 'tilt': 0., 'disp': False}


@sub('C24', 'large fields', large(), 150, 3000, shards=4)
def check_large(c, ctx):
    judge(c, ctx)


@st.composite
def radii(draw):
    c = draw(field(nmax=12))
    n = len(c['p'])
    k = draw(st.lists(st.sampled_from([1., 1., 0.5, 0.7, 1.6, 3.]),
                      min_size=n, max_size=n))
    c['rs'] = [c['r'] * x for x in k]
    c['order'] = list(draw(st.permutations(list(range(n)))))
    return c


@sub('C24', 'different radii', radii(), 800, 16000)
def check_radii(c, ctx):
    p, r, n = c['p'], c['rs'], len(c['p'])
    must, may = set(), set()
    for i in range(n):
        for j in range(i + 1, n):
            d = math.hypot(p[i][0] - p[j][0], p[i][1] - p[j][1])
            if any(abs(d / x - 1.) < 1e-6 for x in r):
                ctx.set_trivial('ambiguous')
                return
            if d < min(r[i], r[j]):
                must.add((i, j))
            if d < max(r):
                may.add((i, j))
    if not must or min(r) == max(r):
        ctx.set_trivial('no duplicate or one radius')
    ctx.label(f'{min(len(must), 5)} pairs')

    def field(o):
        L = [gt.boreholes.Borehole(100. + i, 2., r[i], *p[i]) for i in o]
        return L if c['as'] == 'list' else \
            gt.borefield.Borefield.from_boreholes(L)
    f = field(range(n))
    got = [tuple(map(int, g)) for g in FD(f)]
    require(len(set(got)) == len(got) and must <= set(got) <= may,
            'duplicate pairs', got=got, must=sorted(must), may=sorted(may))
    o = c['order']
    other = {tuple(sorted((o[int(i)], o[int(j)]))) for i, j in FD(field(o))}
    require(other == set(got), 'order of the boreholes', got=sorted(other),
            expected=got)
    drop = {j for _, j in got}
    require([repr(b) for b in RD(f)] ==
            [repr(b) for i, b in enumerate(field(range(n)))
             if i not in drop], 'remaining boreholes')
