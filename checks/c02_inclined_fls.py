"""C02: inclined finite line source equals the first-principles integral and
does not depend on the choice of horizontal axes."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fls_ref, gen
from pbt.harness import close, describe, finite, require, sub

ht = gt.heat_transfer
Borehole = gt.boreholes.Borehole

describe('C02', (
    'Pairs/lists of line sources of which at least one is tilted (tilt up to '
    '80 degrees or horizontal, any orientation), drawn lengths, depths, '
    'radii, heads, times and source flags; compared with a two-dimensional '
    'quadrature of the point-source solution, and under rotation, '
    'translation, mirroring and equivalent angles. A case is trivial when '
    'the expected values are below 1e-6.'),
    ['lines closer than 1 m (to each other or to an image) are compared only '
     'through invariances: the documented quadrature order limits accuracy '
     'there',
     'the squared horizontal distance between heads is floored at the '
     'squared radius of the emitting borehole, as documented'])

line = st.tuples(gen.f(5., 150.), gen.f(1., 20.), gen.r_b)
ang = st.tuples(st.one_of(gen.tilt, st.just(0.), st.just(math.pi / 2)),
                gen.angle)


@st.composite
def pair(draw):
    l1, l2 = draw(line), draw(line)
    a1, a2 = draw(ang), draw(ang)
    if a1[0] < 1e-3 and a2[0] < 1e-3:
        a1 = (0.5, a1[1])
    d = draw(gen.f(1.5, 60.))
    th = draw(gen.angle)
    x1, y1 = draw(gen.f(-5., 5.)), draw(gen.f(-5., 5.))
    if draw(st.integers(0, 7)) == 0:
        d = 0.
    return {'b1': [*l1, x1, y1, *a1],
            'b2': [*l2, x1 + d * math.cos(th), y1 + d * math.sin(th), *a2],
            'alpha': draw(gen.alpha), 'lt': draw(gen.f(-4., 6.)),
            'steady': draw(st.sampled_from([False, False, True])),
            'real': draw(st.sampled_from([True, True, False])),
            'image': draw(st.sampled_from([True, True, False]))}


@sub('C02', 'reference', pair(), 500, 20000, shards=4)
def check_reference(c, ctx):
    b1, b2 = c['b1'], c['b2']
    t = np.inf if c['steady'] else \
        gen.ts(max(b1[0], b2[0]), c['alpha']) * math.exp(c['lt'])
    dmin = min(fls_ref.min_distance(b1, b2))
    L = max(b1[0], b2[0])
    if dmin < 0.02 * L or not (c['real'] or c['image']):
        ctx.set_trivial('lines too close for the quadrature' if
                        dmin < 0.02 * L else 'no source')
        return
    ref = fls_ref.inclined(np.sqrt(4 * c['alpha'] * t), b1, b2,
                           c['real'], c['image'])
    h = ht.finite_line_source(
        t, c['alpha'], Borehole(*b1), Borehole(*b2), reaSource=c['real'],
        imgSource=c['image'], M=81)
    ctx.label('steady' if c['steady'] else 'transient',
              'both tilted' if min(b1[5], b2[5]) > 1e-6 else 'one tilted',
              f"real={c['real']},image={c['image']}")
    if abs(ref) < 1e-6:
        ctx.set_trivial('value below 1e-6')
    close(finite(h).reshape(-1), [ref], rtol=1e-3, atol=1e-5, what='h')
    # the default quadrature order, for lines far from each other
    if dmin > 0.25 * L:
        h = ht.finite_line_source(
            t, c['alpha'], Borehole(*b1), Borehole(*b2), reaSource=c['real'],
            imgSource=c['image'])
        ctx.label('default order')
        close(finite(h).reshape(-1), [ref], rtol=2e-2, atol=2e-4,
              what='h with the default order')


@st.composite
def lists(draw):
    n1, n2 = draw(st.integers(1, 2)), draw(st.integers(1, 3))
    pos = draw(gen.layout(n1 + n2, n1 + n2, spacing=(6., 20.)))
    mk = lambda p: [*draw(line), *p, *draw(ang)]
    b = [mk(p) for p in pos]
    if all(x[5] < 1e-3 for x in b):
        b[0][5] = 0.4
    return {'src': b[:n1], 'rec': b[n1:], 'alpha': draw(gen.alpha),
            'lts': draw(st.lists(gen.f(-4., 5.), min_size=1, max_size=3,
                                 unique=True)),
            'mode': draw(st.sampled_from(['array', 'scalar', 'steady'])),
            'real': draw(st.sampled_from([True, True, False])),
            'image': draw(st.sampled_from([True, True, False]))}


@sub('C02', 'lists', lists(), 120, 4000, shards=3)
def check_lists(c, ctx):
    src, rec = c['src'], c['rec']
    H0 = max(b[0] for b in src + rec)
    times = [gen.ts(H0, c['alpha']) * math.exp(x) for x in c['lts']]
    if c['mode'] == 'steady':
        times = [np.inf]
    elif c['mode'] == 'scalar':
        times = times[:1]
    arg = np.array(times) if c['mode'] == 'array' else times[0]
    if c['mode'] == 'steady':
        arg = np.inf
    h = ht.finite_line_source(
        arg, c['alpha'], [Borehole(*b) for b in src],
        [Borehole(*b) for b in rec], reaSource=c['real'],
        imgSource=c['image'], M=81)
    shape = (len(rec), len(src)) + ((len(times),) if np.ndim(arg) else ())
    require(np.shape(h) == shape, 'shape of h', got=np.shape(h), expected=shape)
    h = np.reshape(h, (len(rec), len(src), len(times)))
    ctx.label(c['mode'])
    any_ref = False
    for j, r in enumerate(rec):
        for i, s in enumerate(src):
            if min(fls_ref.min_distance(s, r)) < 0.02 * max(s[0], r[0]):
                continue
            ref = [fls_ref.inclined(np.sqrt(4 * c['alpha'] * t), s, r,
                                    c['real'], c['image']) for t in times]
            any_ref |= max(map(abs, ref)) > 1e-6
            close(finite(h[j, i], None, 'h'), ref, rtol=1e-3, atol=1e-5, what=f'h[{j},{i}]')
    if not any_ref:
        ctx.set_trivial('values below 1e-6')


@st.composite
def motion(draw):
    c = draw(pair())
    c['rot'] = draw(gen.f(-math.pi, math.pi))
    c['shift'] = [draw(gen.shift), draw(gen.shift)]
    c['mirror'] = draw(st.booleans())
    c['turn'] = draw(st.integers(-2, 2))
    c['flip'] = draw(st.booleans())
    c['approx'] = draw(st.booleans())
    c['aslist'] = draw(st.booleans())
    return c


def moved(b, c):
    H, D, r, x, y, t, o = b
    if c['mirror']:
        y, o = -y, -o
    ca, sa = math.cos(c['rot']), math.sin(c['rot'])
    x, y = ca * x - sa * y + c['shift'][0], sa * x + ca * y + c['shift'][1]
    o = o + c['rot'] + 2 * math.pi * c['turn']
    if c['flip']:
        # leaning by -t in direction o is leaning by t in direction o + pi
        t, o = -t, o + math.pi
    return [H, D, r, x, y, t, o]


@sub('C02', 'rigid_motion', motion(), 500, 20000, shards=2)
def check_motion(c, ctx):
    t = np.inf if c['steady'] else \
        gen.ts(max(c['b1'][0], c['b2'][0]), c['alpha']) * math.exp(c['lt'])
    if c['b1'][3:5] != c['b2'][3:5] and \
            min(fls_ref.min_distance(c['b1'], c['b2'])) < 0.5:
        ctx.set_trivial('lines cross')
        return

    def run(b1, b2):
        B1, B2 = Borehole(*b1), Borehole(*b2)
        if c['aslist']:
            B1, B2 = [B1], [B2]
        return finite(ht.finite_line_source(
            t, c['alpha'], B1, B2, reaSource=c['real'], imgSource=c['image'],
            approximation=c['approx'] and not c['steady'])).reshape(-1)
    h0 = run(c['b1'], c['b2'])
    h1 = run(moved(c['b1'], c), moved(c['b2'], c))
    ctx.label('mirrored' if c['mirror'] else 'rotated',
              'approximate' if c['approx'] and not c['steady'] else 'exact')
    if np.max(np.abs(h0)) < 1e-6:
        ctx.set_trivial('value below 1e-6')
    close(h1, h0, rtol=2e-5, atol=2e-6, what='h after the motion')


@st.composite
def self_case(draw):
    l, a = draw(line), draw(ang)
    return {'b': [*l, draw(gen.f(-5., 5.)), draw(gen.f(-5., 5.)), *a],
            'alpha': draw(gen.alpha), 'lt': draw(gen.f(-6., 6.)),
            'o2': draw(gen.angle)}


@sub('C02', 'limits', self_case(), 300, 8000, shards=2)
def check_limits(c, ctx):
    """A borehole's own response: the real part does not depend on its
    inclination; a vanishing inclination gives the vertical solution; the
    orientation of a vertical borehole is irrelevant."""
    H, D, r, x, y, t, o = c['b']
    time = gen.ts(H, c['alpha']) * math.exp(c['lt'])
    b = Borehole(*c['b'])
    L = np.sqrt(4 * c['alpha'] * time)
    ref = fls_ref.vertical(L, r, H, D, H, D, True, False)
    h = ht.finite_line_source(time, c['alpha'], b, b, imgSource=False, M=101)
    close(finite(h).reshape(-1), [ref], rtol=5e-3, atol=1e-5,
          what='real part of the response of an inclined borehole to itself')
    other = Borehole(H, D, r, x + 7., y - 2., 2e-6, o)
    mine = Borehole(H, D, r, x, y, 2e-6, c['o2'])
    hv = fls_ref.vertical(L, math.hypot(7., 2.), H, D, H, D)
    hi = ht.finite_line_source(time, c['alpha'], mine, other, M=81)
    close(finite(hi).reshape(-1), [hv], rtol=1e-3, atol=1e-5,
          what='vanishing inclination')
    v0 = ht.finite_line_source(time, c['alpha'], Borehole(H, D, r, x, y, 0., o),
                               Borehole(H, D, r, x + 7., y - 2., 0., c['o2']))
    close(finite(v0).reshape(-1), [hv], rtol=2e-6, atol=2e-8,
          what='vertical borehole with an orientation')
    ctx.label('tilted' if t > 1e-6 else 'vertical')
