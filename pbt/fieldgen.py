"""Generated bore fields, solver options and networks for g-functions."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fls_ref, gen, netgen as ng, pipegen as pg

ALPHA = st.one_of(st.just(1e-6), gen.alpha)


@st.composite
def vertical(draw, nmin=1, nmax=6, classes=3, overlap=True):
    """[H, D, r_b, x, y, tilt, orientation] per borehole.  `overlap`: all
    boreholes share a range of depths (the quadrature of the equivalent method
    takes minutes to converge on the rounding errors of vanishing responses
    between lines that do not)."""
    pos = draw(gen.layout(nmin, nmax))
    k = draw(st.sampled_from([1, 2, 2, 2, 3]))
    k = min(k, classes)
    H0 = draw(st.one_of(st.sampled_from([50., 100., 150.]), gen.f(40. if overlap else 20., 300.)))
    D0 = draw(st.one_of(st.sampled_from([0.5, 1., 4.]), gen.f(0.1, 10. if overlap else 30.)))
    r0 = draw(gen.r_b)
    cl = [[H0, D0, r0]]
    for _ in range(k - 1):
        b = list(cl[0])
        w = draw(st.sampled_from(['H', 'D', 'D', 'r', 'all']))
        if w in ('H', 'all'):
            b[0] = H0 * draw(gen.f(0.5, 2.))
        if w in ('D', 'all'):
            b[1] = draw(gen.f(0.1, 10. if overlap else 40.))
        if w in ('r', 'all'):
            b[2] = draw(gen.f(0.03, 0.25))
        cl.append(b)
    pick = draw(st.lists(st.integers(0, k - 1), min_size=len(pos),
                         max_size=len(pos)))
    return [[*cl[i], *p, 0., 0.] for i, p in zip(pick, pos)]


@st.composite
def inclined(draw, nmin=1, nmax=5, horizontal=False):
    """Fields with tilted boreholes whose lines stay apart."""
    field = draw(vertical(nmin, nmax, 2))
    tilts = [draw(st.sampled_from([math.pi / 9, math.pi / 6]) | gen.f(.02, .6))
             for _ in range(2)]
    how = draw(st.sampled_from(['regular', 'regular', 'any', 'mirror',
                                'common', 'in and out', 'compass',
                                'compass']))
    # directions that make pairs differ in one angle only
    turn = draw(st.sampled_from([math.pi / 4, math.pi / 2, 0.6]))
    cx = np.mean([b[3] for b in field])
    cy = np.mean([b[4] for b in field])
    q = draw(st.sampled_from([0., math.pi / 2, math.pi / 4])
             | gen.f(0., 2 * math.pi))
    for i, b in enumerate(field):
        t = tilts[draw(st.integers(0, 1))] if how in ('any', 'common') \
            else tilts[0]
        if how == 'any' and draw(st.integers(0, 3)) == 0:
            t = 0.
        if how == 'compass':
            o = draw(st.integers(-2, 4)) * turn
        elif how == 'common':
            # towards one side: some lean to a neighbour, others away from it
            o = q
        elif how in ('regular', 'in and out'):
            o = math.atan2(b[4] - cy, b[3] - cx)
            if how == 'in and out' and draw(st.integers(0, 2)) == 0:
                o += math.pi
            if abs(b[4] - cy) + abs(b[3] - cx) < 1e-9:
                t, o = 0., 0.
        elif how == 'mirror':
            o = q * draw(st.sampled_from([1., -1.]))
        else:
            o = draw(gen.angle)
        if horizontal:
            t = math.pi / 2
        b[5], b[6] = t, o
    return field


def apart(field, d=1.):
    """All lines at least `d` apart and below the surface."""
    for i, a in enumerate(field):
        for b in field[:i]:
            if min(fls_ref.min_distance(a, b)) < d:
                return False
    return True


def boreholes(field):
    return [gt.boreholes.Borehole(b[0], b[1], b[2], b[3], b[4], tilt=b[5],
                                  orientation=b[6]) for b in field]


def is_vertical(field):
    return all(b[5] == 0. for b in field)


def scale(field, alpha):
    return float(np.mean([b[0] for b in field]))**2 / (9. * alpha)


@st.composite
def times(draw, nmin=1, nmax=7, lo=-8.5, hi=4.):
    """ln(t/ts), increasing."""
    n = draw(st.integers(nmin, nmax))
    how = draw(st.sampled_from(['log', 'log', 'geometric', 'uniform']))
    if how == 'uniform':
        dt = draw(gen.logf(math.exp(max(lo, -6.)), 0.5))
        return [math.log(dt * (i + 1)) for i in range(n)]
    if how == 'geometric':
        a, r = draw(gen.f(lo, -1.)), draw(gen.f(0.3, 1.5))
        return [a + r * i for i in range(n)]
    x = sorted(draw(st.lists(gen.f(lo, hi), min_size=n, max_size=n,
                             unique_by=lambda v: round(v, 2))))
    return x


@st.composite
def options(draw, n, nmax=4, same=False, lists=True):
    """Segments and FLS options (same: required by the equivalent method)."""
    how = draw(st.sampled_from(
        ['default', 'uniform', 'ratios', 'call'] if same or not lists else
        ['default', 'uniform', 'ratios', 'list', 'lists', 'mixed', 'call']))
    k = draw(st.sampled_from([1] + list(range(2, nmax + 1)) * 2))
    o = {'how': how, 'n': k, 'approx': draw(st.integers(0, 4)) == 0}
    if how == 'ratios':
        w = draw(st.lists(gen.f(0.1, 1.), min_size=k, max_size=k))
        o['r'] = [x / sum(w) for x in w]
    elif how == 'call':
        # a function of the number of segments
        o['q'] = draw(st.sampled_from([0.5, 1.5]) | gen.f(0.5, 2.))
        if lists and not same and draw(st.booleans()):
            o['n'] = [draw(st.integers(1, nmax)) for _ in range(n)]
    elif how == 'list':
        o['n'] = [draw(st.integers(1, nmax)) for _ in range(n)]
    elif how == 'lists':
        o['n'] = [draw(st.integers(1, nmax)) for _ in range(n)]
        o['r'] = []
        for m in o['n']:
            w = draw(st.lists(gen.f(0.1, 1.), min_size=m, max_size=m))
            o['r'].append([x / sum(w) for x in w])
    elif how == 'mixed':
        # as many segments in each borehole, in equal and unequal parts, the
        # same parts in several boreholes
        w = draw(st.lists(gen.f(0.1, 1.), min_size=k, max_size=k))
        w = [x / sum(w) for x in w]
        parts = [[1. / k] * k, w, w[::-1]]
        o['how'], o['n'] = 'lists', [k] * n
        o['r'] = [list(parts[draw(st.integers(0, 2))]) for _ in range(n)]
    return o


def geometric(q):
    """Ratios of segments as a function: each is `q` times the previous."""
    def ratios(n):
        w = q ** np.arange(n)
        return w / w.sum()
    return ratios


def opt_args(o):
    d = {'nSegments': list(o['n']) if isinstance(o['n'], list) else o['n'],
         'approximate_FLS': bool(o['approx'])}
    h = o['how']
    if h in ('uniform', 'list'):
        d['segment_ratios'] = None
    elif h == 'ratios':
        d['segment_ratios'] = np.array(o['r'])
    elif h == 'lists':
        d['segment_ratios'] = [np.array(x) for x in o['r']]
    elif h == 'call':
        d['segment_ratios'] = geometric(o['q'])
    return d


def seg_counts(o, n):
    return list(o['n']) if isinstance(o['n'], list) else [o['n']] * n


def seg_ratios(o, n):
    h = o['how']
    if h in ('uniform', 'list'):
        return [np.full(k, 1. / k) for k in seg_counts(o, n)]
    if h == 'ratios':
        return [np.array(o['r'])] * n
    if h == 'lists':
        return [np.array(x) for x in o['r']]
    if h == 'call':
        return [geometric(o['q'])(k) for k in seg_counts(o, n)]
    return [np.asarray(gt.utilities.segment_ratios(k), float)
            for k in seg_counts(o, n)]


@st.composite
def network(draw, nmax=5, parallel=False, varied=None):
    """Network case for 'MIFT' with flows that keep the pipes well
    conditioned; `parallel`: identical parallel boreholes (equivalent
    method)."""
    c = draw(ng.network(nmax, varied=False if parallel else varied))
    if parallel:
        c['con'] = [-1] * len(c['con'])
        c['default_con'] = False
    for p in c['pipes']:                     # one ground
        p['k_s'] = c['pipes'][0]['k_s']
        p['H'], p['D'] = max(p['H'], 40.), min(p['D'], 10.)
    fl = draw(ng.flow(c))
    return {'net': c, 'flow': fl}


def net_field(c):
    return [[p['H'], p['D'], p['r_b'], x, y, p.get('tilt', 0.), 0.]
            for p, (x, y) in zip(c['pipes'], c['pos'])]
