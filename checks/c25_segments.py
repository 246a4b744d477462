"""C25: segments divide boreholes exactly."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, require, scalar, sub

describe('C25', (
    'Drawn numbers of segments from 1 to 60 and end lengths from 1e-5 to '
    'nearly one half, including those next to uniform; drawn boreholes and '
    'equivalent boreholes of any tilt and orientation divided by equal, '
    'documented or arbitrary ratios; compared with geometry. Trivial when '
    'there is one segment.'),
    ['ratios within the documented range'])

SR = gt.utilities.segment_ratios
BH = gt.boreholes.Borehole


@st.composite
def mesh(draw):
    n = draw(st.integers(1, 12) | st.integers(1, 60))
    e = draw(st.sampled_from(['log', 'any', 'near', 'default']))
    if e == 'log':
        v = draw(gen.logf(1e-5, 0.4))
    elif e == 'near':
        v = 1. / n + draw(st.sampled_from([-1., 1.])) * draw(
            gen.logf(1e-12, 1e-2)) / n
    else:
        v = draw(gen.f(1e-3, 0.499))
    if not 0. < v < 0.5:
        v = 0.02
    return {'n': n, 'e': None if e == 'default' else v,
            'np': draw(st.booleans())}


@sub('C25', 'ratios', mesh(), 3000, 60000, shards=2)
def check_ratios(c, ctx):
    n, e = c['n'], c['e']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = SR(n) if e is None else \
            SR(n, end_length_ratio=np.float64(e) if c['np'] else e)
    e = 0.02 if e is None else e
    r = finite(r, (n,), 'segment ratios')
    require(np.all(r > 0.), 'ratios are positive', r=r)
    close(np.sum(r), 1., rtol=1e-6, what='sum of ratios')
    close(r, r[::-1], rtol=1e-9, what='symmetry')
    if n == 1:
        ctx.set_trivial('one segment')
        return
    if n == 2:
        close(r, [.5, .5], rtol=1e-12, what='two segments')
        return
    ctx.label('even' if n % 2 == 0 else 'odd')
    if abs(n * e - 1.) < 1.01e-6:
        ctx.label('uniform')
        close(r, np.full(n, 1. / n), rtol=2e-6, what='uniform ratios')
        return
    close(r[0], e, rtol=1e-9, what='end length')
    if n > 3:
        h = r[:(n + 1) // 2]
        q = h[1:] / h[:-1]
        close(q, np.full(len(q), q[0]), rtol=1e-6, what='constant expansion')
        require(q[0] > 1. if n * e < 1. else q[0] < 1.,
                'expansion towards the middle', factor=q[0], uniform=n * e)
        # the expansion is the one that fills the borehole
        f = float(q[0])
        k = n // 2
        tot = 2 * e * sum(f**i for i in range(k)) \
            + (e * f**k if n % 2 else 0.)
        close(tot, 1., rtol=1e-5, what='length filled by the expansion')


@st.composite
def hole(draw):
    return [draw(gen.length), draw(gen.depth), draw(gen.r_b),
            draw(gen.f(-50., 50.)), draw(gen.f(-50., 50.)),
            draw(st.sampled_from([0., 1., 1.])) and draw(gen.tilt),
            draw(gen.angle)]


@st.composite
def cut(draw):
    n = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(['equal', 'drawn', 'mesh', 'drawn']))
    if kind == 'drawn':
        w = [draw(gen.f(0.05, 1.)) for _ in range(n)]
        w = [x / sum(w) for x in w]
    elif kind == 'mesh':
        w = SR(n, end_length_ratio=0.5 / n if n > 2 else 0.5).tolist()
    else:
        w = None
    k = draw(st.integers(1, 4))
    b = draw(hole())
    return {'n': n, 'w': w, 'b': b, 'more': [
        [draw(gen.f(-50., 50.)), draw(gen.f(-50., 50.)), draw(gen.angle)]
        for _ in range(k - 1)], 'm': draw(st.integers(1, 4)),
        'o': draw(hole())}


def make(b):
    return BH(*b[:5], tilt=b[5], orientation=b[6])


def axis(b):
    """Unit vector along the borehole (z down)."""
    t, o = b[5], b[6]
    return np.array([math.sin(t) * math.cos(o), math.sin(t) * math.sin(o),
                     math.cos(t)])


def judge(segs, b, w, what):
    n = len(w)
    require(len(segs) == n, f'{what}: number of segments', got=len(segs))
    u = axis(b)
    top = np.array([b[3], b[4], b[1]])
    L = abs(top).max() + b[0]
    for i, s in enumerate(segs):
        close(scalar(s.H), w[i] * b[0], rtol=1e-9,
              what=f'{what}: length of segment {i}')
        p = np.array([scalar(s.x), scalar(s.y), scalar(s.D)])
        close(p, top, rtol=1e-9, atol=1e-9 * L,
              what=f'{what}: head of segment {i}')
        close(scalar(s.r_b), b[2], rtol=0., what=f'{what}: radius')
        close(scalar(s.tilt), b[5], rtol=0., what=f'{what}: tilt')
        if b[5]:
            close(scalar(s.orientation), b[6], rtol=0.,
                  what=f'{what}: orientation')
        top = p + u * scalar(s.H)
    close(top, np.array([b[3], b[4], b[1]]) + u * b[0], atol=1e-8 * L,
          what=f'{what}: bottom of the borehole')


@sub('C25', 'boreholes', cut(), 2000, 40000, shards=2)
def check_boreholes(c, ctx):
    n, b = c['n'], c['b']
    w = c['w'] or [1. / n] * n
    ctx.label('tilted' if b[5] else 'vertical', 'ratios' if c['w'] else
              'equal')
    if n == 1:
        ctx.set_trivial('one segment')
    B = make(b)
    S = B.segments(n) if c['w'] is None else \
        B.segments(n, segment_ratios=np.array(w))
    judge(S, b, w, 'borehole')
    # segments of segments
    m = c['m']
    T = [t for s in S for t in s.segments(m)]
    judge(T, b, [x / m for x in w for _ in range(m)], 'segments of segments')
    e = getattr(B, '_segment_edges', None)
    if e is not None:
        e = e(n) if c['w'] is None else e(n, segment_ratios=np.array(w))
        close(e, np.concatenate(([0.], np.cumsum(w))) * b[0], rtol=1e-9,
              atol=1e-9, what='edges')
        z = B._segment_midpoints(n) if c['w'] is None else \
            B._segment_midpoints(n, segment_ratios=np.array(w))
        close(z, 0.5 * (np.array(e)[1:] + np.array(e)[:-1]), rtol=1e-9,
              what='midpoints')
    # facts about the borehole itself
    O = make(c['o'])
    o = c['o']
    d = math.hypot(b[3] - o[3], b[4] - o[4])
    close(B.distance(O), max(d, b[2]), rtol=1e-12, what='distance')
    close(O.distance(B), max(d, o[2]), rtol=1e-12, what='distance back')
    close(B.distance(B), b[2], rtol=0., what='distance to itself')
    require(tuple(B.position()) == (b[3], b[4]), 'position')
    require(bool(B.is_tilted()) is (b[5] != 0.)
            and bool(B.is_vertical()) is (b[5] == 0.), 'tilted or vertical')
    require(B.orientation == (b[6] if b[5] else 0.), 'orientation')


@sub('C25', 'equivalent', cut(), 1000, 20000)
def check_equivalent(c, ctx):
    Eq = getattr(gt.boreholes, '_EquivalentBorehole', None)
    if Eq is None:
        ctx.set_trivial('no equivalent boreholes')
        return
    n, b = c['n'], c['b']
    w = c['w'] or [1. / n] * n
    bs = [b] + [b[:3] + [x, y, b[5], o] for x, y, o in c['more']]
    k = len(bs)
    ctx.label(f'{k} boreholes', 'tilted' if b[5] else 'vertical')
    x, y, o = (np.array([q[i] for q in bs]) for i in (3, 4, 6))
    h = k // 2
    forms = [Eq([make(q) for q in bs]),
             Eq((b[0], b[1], b[2], x, y, b[5], o))]
    if h:
        forms.append(Eq([Eq([make(q) for q in bs[:h]]),
                         Eq([make(q) for q in bs[h:]])]))
    if b[5] == 0.:
        forms.append(Eq((b[0], b[1], b[2], x, y)))
    for E in forms:
        require(E.nBoreholes == k, 'number of boreholes')
        S = E.segments(n) if c['w'] is None else \
            E.segments(n, segment_ratios=np.array(w))
        for i, q in enumerate(bs):
            class View:
                pass
            V = []
            for s in S:
                require(s.nBoreholes == k, 'boreholes per segment')
                v = View()
                v.H, v.D, v.r_b, v.tilt = s.H, s.D, s.r_b, s.tilt
                v.x, v.y = s.x[i], s.y[i]
                v.orientation = np.atleast_1d(s.orientation)[i] if b[5] else 0.
                V.append(v)
            judge(V, q, w, f'member {i}')
        q = c['o']
        T = Eq([make(q)])
        d = np.hypot(x - q[3], y - q[4])
        close(np.ravel(E.distance(T)), np.maximum(d, b[2]), rtol=1e-12,
              what='distances')
        require(bool(E.is_tilted()) is (b[5] != 0.)
                and bool(E.is_vertical()) is (b[5] == 0.),
                'tilted or vertical')
