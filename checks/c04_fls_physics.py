"""C04: physical laws of the line source responses."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, require, sub

ht = gt.heat_transfer
Borehole = gt.boreholes.Borehole

describe('C04', (
    'Drawn borehole pairs, increasing times, partitions into segments and '
    'increasing distances: responses never negative, never decreasing with '
    'time, bounded by (and converging to) the steady state, decreasing with '
    'distance, independent of the units of length and time together, and '
    'additive over any partition of either line. Trivial when all values are '
    'below 1e-6.'),
    ['quadrature noise of 1e-6 (vertical) and 1e-4 (inclined) is allowed'])


@st.composite
def pair(draw):
    tilted = draw(st.booleans())
    tl = lambda: draw(st.one_of(gen.f(0.05, 0.7), gen.f(0.05, 0.7),
                                gen.f(0.7, math.pi / 2))) if tilted else 0.
    d = draw(st.one_of(st.just(0.), gen.f(2., 50.)))
    b1 = [draw(gen.f(10., 250.)), draw(gen.f(0.5, 15.)), draw(gen.r_b), 0., 0.,
          tl(), draw(gen.angle)]
    if d == 0.:
        b2 = list(b1)
    else:
        b2 = [draw(gen.f(10., 250.)), draw(gen.f(0.5, 15.)), draw(gen.r_b),
              d, 0., tl(), draw(gen.angle)]
    return {'b1': b1, 'b2': b2, 'alpha': draw(gen.alpha),
            'lt0': draw(gen.f(-8., 3.)),
            'steps': draw(st.lists(gen.f(0., 1.5), min_size=2, max_size=5)),
            'approx': draw(st.sampled_from([False, False, True]))}


@sub('C04', 'time_monotone', pair(), 400, 15000, shards=3)
def check_monotone(c, ctx):
    b1, b2 = Borehole(*c['b1']), Borehole(*c['b2'])
    H0 = max(c['b1'][0], c['b2'][0])
    lt = c['lt0'] + np.concatenate(([0.], np.cumsum(c['steps'])))
    t = gen.ts(H0, c['alpha']) * np.exp(lt)
    tilted = c['b1'][5] > 0
    kw = dict(M=41, approximation=c['approx'])
    h = finite(ht.finite_line_source(t, c['alpha'], [b1], [b2], **kw),
               (1, 1, len(t)))[0, 0]
    # the exponential-sum approximation is good to about 2e-3
    eps = 3e-3 if c['approx'] else 3e-4 if tilted else 2e-6
    scale = max(1., np.max(np.abs(h)))
    ctx.label('tilted' if tilted else 'vertical',
              'approximate' if c['approx'] else 'exact')
    if np.max(np.abs(h)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    require(np.all(h >= -eps * scale), 'negative response', h=h)
    require(np.all(np.diff(h) >= -eps * scale),
            'response decreases with time', t=t, h=h)
    # before heat has come as far as the radius
    t0 = min(c['b1'][2], c['b2'][2])**2 / (150. * c['alpha'])
    if c['b1'] == c['b2'] or not tilted:
        h0 = finite(ht.finite_line_source(
            np.array([1e-3, 1.]) * t0, c['alpha'], [b1], [b2], **kw))
        require(np.all(np.abs(h0) <= (1e-6 if tilted else 1e-9)),
                'response at once', h=h0)
    from pbt import fls_ref
    close_lines = c['b1'] != c['b2'] and min(
        fls_ref.min_distance(c['b1'], c['b2'])) < 0.05 * H0
    own_tilted = c['b1'] == c['b2'] and tilted
    if close_lines or own_tilted:
        return      # quadrature order differs too much from the steady form
    hs = float(finite(ht.finite_line_source(
        np.inf, c['alpha'], [b1], [b2], M=41)).reshape(-1)[0])
    require(np.all(h <= hs + 3 * eps * scale),
            'response exceeds the steady state', h=h, steady=hs)
    late = finite(ht.finite_line_source(
        gen.ts(H0, c['alpha']) * 1e9, c['alpha'], [b1], [b2], M=41))
    close(late.reshape(-1), [hs], rtol=3e-3, atol=3e-4,
          what='late response against steady state')


@st.composite
def scaling(draw):
    c = draw(pair())
    c['s'] = draw(gen.logf(0.2, 5.))
    c['q'] = draw(gen.logf(0.2, 5.)) * draw(gen.unit)
    c['route'] = draw(st.sampled_from(['pair', 'lists', 'one', 'one lists']))
    return c


@sub('C04', 'similarity', scaling(), 300, 10000, shards=2)
def check_similarity(c, ctx):
    """Scaling every length by s and alpha*t by s^2 leaves h unchanged."""
    H0 = max(c['b1'][0], c['b2'][0])
    lt = c['lt0'] + np.concatenate(([0.], np.cumsum(c['steps'])))
    t = gen.ts(H0, c['alpha']) * np.exp(lt)
    s, q = c['s'], c['q']
    big = lambda b: [b[0] * s, b[1] * s, b[2] * s, b[3] * s, b[4] * s, *b[5:]]
    kw = dict(approximation=c['approx'])
    if 'one' in c['route']:
        t = float(t[-1])
    many = (lambda b: [b]) if 'lists' in c['route'] else (lambda b: b)
    h = finite(ht.finite_line_source(
        t, c['alpha'], many(Borehole(*c['b1'])), many(Borehole(*c['b2'])),
        **kw))
    h2 = finite(ht.finite_line_source(
        t * s**2 / q, c['alpha'] * q, many(Borehole(*big(c['b1']))),
        many(Borehole(*big(c['b2']))), **kw))
    ctx.label('tilted' if c['b1'][5] > 0 else 'vertical')
    if np.max(np.abs(h)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    close(h2.reshape(-1), h.reshape(-1), rtol=2e-5, atol=2e-6,
          what='scaled problem')


@st.composite
def parts(draw):
    d = draw(gen.f(0., 40.))
    cut = lambda: draw(st.lists(gen.f(0.05, 1.), min_size=1, max_size=4))
    return {'b1': [draw(gen.f(10., 250.)), draw(gen.depth), draw(gen.r_b)],
            'b2': [draw(gen.f(10., 250.)), draw(gen.depth)], 'd': d,
            'cut1': cut(), 'cut2': cut(), 'alpha': draw(gen.alpha),
            'lt': draw(gen.f(-8., 6.)), 'steady': draw(st.booleans()),
            'approx': draw(st.booleans())}


@sub('C04', 'additive', parts(), 300, 10000, shards=2)
def check_additive(c, ctx):
    """H2 h12 of whole lines is the sum over the segments of both lines."""
    H1, D1, r = c['b1']
    H2, D2 = c['b2']
    b1 = Borehole(H1, D1, r, 1., 1.)
    b2 = Borehole(H2, D2, r, 1. + c['d'], 1.)
    t = np.inf if c['steady'] else gen.ts(max(H1, H2), c['alpha']) \
        * math.exp(c['lt'])
    r1 = np.array(c['cut1']) / sum(c['cut1'])
    r2 = np.array(c['cut2']) / sum(c['cut2'])
    S1 = b1.segments(len(r1), segment_ratios=r1)
    S2 = b2.segments(len(r2), segment_ratios=r2)
    approx = c['approx'] and not c['steady']
    h = float(finite(ht.finite_line_source(
        t, c['alpha'], b1, b2, approximation=approx)).reshape(-1)[0])
    hs = finite(ht.finite_line_source(
        t, c['alpha'], S1, S2, approximation=approx), (len(S2), len(S1)))
    tot = sum(s.H * hs[j].sum() for j, s in enumerate(S2))
    ctx.label(f'{len(r1)}x{len(r2)}', 'approximate' if approx else 'exact')
    if abs(h) < 1e-6 or len(r1) + len(r2) == 2:
        ctx.set_trivial('one segment or no response')
    close([tot], [H2 * h], rtol=1e-5, atol=1e-5 * H2, what='sum over segments')


@st.composite
def tilted_parts(draw):
    cut = lambda: draw(st.lists(gen.f(0.1, 1.), min_size=1, max_size=3))
    tl = lambda: draw(st.one_of(st.just(0.), gen.f(0.05, 0.7),
                                gen.f(0.7, math.pi / 2)))
    line = lambda x, y: [draw(gen.f(20., 150.)), draw(gen.f(0.5, 15.)),
                         draw(gen.r_b), x, y, tl(), draw(gen.angle)]
    return {'b1': line(0., 0.), 'b2': line(draw(gen.f(3., 60.)),
                                           draw(gen.f(-30., 30.))),
            'cut1': cut(), 'cut2': cut(), 'alpha': draw(gen.alpha),
            'lt': draw(gen.f(-6., 6.)), 'steady': draw(st.booleans())}


@sub('C04', 'additive_inclined', tilted_parts(), 160, 5000, shards=2)
def check_additive_inclined(c, ctx):
    """The same for lines of any tilt that stay apart."""
    from pbt import fls_ref
    H1, H2 = c['b1'][0], c['b2'][0]
    if min(fls_ref.min_distance(c['b1'], c['b2'])) < 0.08 * max(H1, H2):
        ctx.set_trivial('lines too close')
        return
    b1, b2 = Borehole(*c['b1']), Borehole(*c['b2'])
    if b1.is_vertical() and b2.is_vertical():
        ctx.set_trivial('vertical')
    t = np.inf if c['steady'] else gen.ts(max(H1, H2), c['alpha']) \
        * math.exp(c['lt'])
    r1 = np.array(c['cut1']) / sum(c['cut1'])
    r2 = np.array(c['cut2']) / sum(c['cut2'])
    S1 = b1.segments(len(r1), segment_ratios=r1)
    S2 = b2.segments(len(r2), segment_ratios=r2)
    h = float(finite(ht.finite_line_source(
        t, c['alpha'], b1, b2, M=51)).reshape(-1)[0])
    hs = finite(ht.finite_line_source(t, c['alpha'], S1, S2, M=51),
                (len(S2), len(S1)))
    tot = sum(s.H * hs[j].sum() for j, s in enumerate(S2))
    ctx.label(f'{len(r1)}x{len(r2)}', 'steady' if c['steady'] else 'time')
    if abs(h) < 1e-6 or len(r1) + len(r2) == 2:
        ctx.set_trivial('one segment or no response')
    close([tot], [H2 * h], rtol=1e-4, atol=1e-5 * H2,
          what='sum over segments')


@st.composite
def distances(draw):
    return {'H1': draw(gen.f(10., 250.)), 'D1': draw(gen.depth),
            'H2': draw(gen.f(10., 250.)), 'D2': draw(gen.depth),
            'dis': sorted(draw(st.lists(gen.f(0.05, 60.), min_size=2,
                                        max_size=5, unique=True))),
            'alpha': draw(gen.alpha), 'lt': draw(gen.f(-8., 6.))}


@sub('C04', 'distance', distances(), 300, 8000)
def check_distance(c, ctx):
    t = gen.ts(max(c['H1'], c['H2']), c['alpha']) * math.exp(c['lt'])
    h = finite(ht.finite_line_source_vectorized(
        t, c['alpha'], np.array(c['dis']), c['H1'], c['D1'], c['H2'],
        c['D2']), (len(c['dis']),))
    if np.max(np.abs(h)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    require(np.all(np.diff(h) <= 1e-7), 'response grows with distance',
            dis=c['dis'], h=h)
