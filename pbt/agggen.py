"""Generated load aggregation schemes, response factors and histories."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import agg, gen

la = gt.load_aggregation


@st.composite
def scheme(draw, kinds=('CJ', 'MLAA', 'Liu'), nmax=120):
    kind = draw(st.sampled_from(kinds))
    # time steps are multiples of 1/8 s, so that sums of steps are exact and
    # the number of steps in the simulation is unambiguous
    c = {'kind': kind, 'ns': draw(st.sampled_from([1, 1, 2, 3, 4])),
         'dt': draw(st.one_of(st.sampled_from([1., 60., 900., 3600., 86400.]),
                              st.integers(4, 4000000).map(lambda k: k / 8.))),
         'nt': draw(st.integers(1, nmax)),
         'frac': draw(st.sampled_from([0., 0., 0.25, 0.5]))}
    if kind == 'CJ':
        c['opt'] = {'cells_per_level': draw(st.integers(1, 7))}
        c['default'] = draw(st.booleans())
    elif kind == 'MLAA':
        c['opt'] = {k: draw(st.integers(1, m)) for k, m in
                    (('N0', 8), ('N1', 12), ('N2', 20), ('N3', 30))}
        c['default'] = draw(st.integers(0, 4)) == 0
    else:
        # no waiting at the second and third level is allowed; at the first
        # the current load is always kept apart
        c['opt'] = {k: draw(st.integers(0 if k in ('W2', 'W3') else 1, m))
                    for k, m in (('N1', 6), ('N2', 4), ('N3', 4),
                                 ('W1', 5), ('W2', 3), ('W3', 3))}
        c['default'] = draw(st.integers(0, 4)) == 0
    return c


DEF = {'CJ': {'cells_per_level': 5},
       'MLAA': {'N0': 12, 'N1': 48, 'N2': 168, 'N3': 360},
       'Liu': {'N1': 24, 'N2': 5, 'N3': 73, 'W1': 12, 'W2': 3, 'W3': 40}}


def tmax(c):
    # the last step may be only partly inside the simulation
    return c['dt'] * (c['nt'] - c['frac'])


def build(c):
    cls = {'CJ': la.ClaessonJaved, 'MLAA': la.MLAA, 'Liu': la.Liu}[c['kind']]
    kw = {} if c['default'] else c['opt']
    if c['ns'] == 1 and c['default']:
        return cls(c['dt'], tmax(c), **kw)
    return cls(c['dt'], tmax(c), nSources=c['ns'], **kw)


def model(c):
    o = DEF[c['kind']] if c['default'] else c['opt']
    if c['kind'] == 'CJ':
        return agg.CJ(c['ns'], c['dt'], tmax(c), o['cells_per_level'])
    if c['kind'] == 'MLAA':
        return agg.MLAA(c['ns'], [o[k] for k in ('N0', 'N1', 'N2', 'N3')])
    return agg.Liu(c['ns'], [o[k] for k in ('N1', 'N2', 'N3')],
                   [o[k] for k in ('W1', 'W2', 'W3')])


@st.composite
def response(draw, ns):
    """Parameters of a matrix of increasing responses."""
    return {'a': [[draw(gen.f(0.05, 2.)) for _ in range(ns)]
                  for _ in range(ns)],
            'tau': [[draw(gen.logf(0.1, 1e3)) for _ in range(ns)]
                    for _ in range(ns)]}


def g_at(r, n):
    """(ns, ns, len(n)) responses after n time steps: no symmetry."""
    a, tau = np.array(r['a']), np.array(r['tau'])
    return a[:, :, None] * np.log1p(np.asarray(n)[None, None, :]
                                    / tau[:, :, None])


load = st.one_of(st.sampled_from([0., 1., -1., 30., -100.]),
                 gen.f(-1e3, 1e3))


@st.composite
def steps(draw, c, skip=True, n=None):
    """A load per time step; None means that no load was set."""
    n = c['nt'] if n is None else n
    kind = draw(st.sampled_from(['random', 'random', 'periodic', 'pulse',
                                 'constant']))
    ns = c['ns']
    vec = lambda: [draw(load) for _ in range(ns)]
    if kind == 'random':
        # cheap in draws: a short alphabet of vectors and a word over it
        alpha = [vec() for _ in range(draw(st.integers(1, 5)))]
        if skip:
            alpha.append(None)
        w = draw(st.lists(st.integers(0, len(alpha) - 1), min_size=n,
                          max_size=n))
        m = draw(st.lists(gen.f(-2., 2.), min_size=3, max_size=7))
        return [None if alpha[k] is None else
                [q * m[i % len(m)] for q in alpha[k]]
                for i, k in enumerate(w)]
    if kind == 'periodic':
        p = [vec() for _ in range(draw(st.integers(2, 9)))]
        return [p[i % len(p)] for i in range(n)]
    if kind == 'pulse':
        k = draw(st.integers(0, n - 1))
        v = vec()
        return [v if i == k else [0.] * ns for i in range(n)]
    v = vec()
    return [v] * n


def setter(c, q):
    if c['ns'] == 1 and c.get('scalar_load', True):
        return float(q[0])
    return np.array(q, dtype=float)
