"""C06: special functions and the line source approximation are accurate."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st
from scipy.special import erf as _erf
from scipy.special import exp1 as _exp1
from scipy.integrate import quad

from pbt import fls_ref, gen
from pbt.harness import Violation, close, describe, finite, require, sub

ht, ut = gt.heat_transfer, gt.utilities

describe('C06', (
    'Drawn arguments over the whole positive axis for the special functions '
    '(compared with scipy / direct quadrature), and drawn line source pairs, '
    'times and numbers of terms for the exponential-sum approximation '
    '(compared with the first-principles integral, with a tolerance that '
    'tightens as terms are added). Trivial when values are below 1e-6.'),
    ['documented accuracy: about 1e-3 with the default number of terms'])


@sub('C06', 'special', st.fixed_dictionaries({
    'x': st.lists(st.one_of(gen.logf(1e-9, 5e2), gen.f(1e-6, 30.)),
                  min_size=1, max_size=6),
    'shape2': st.booleans()}), 600, 20000)
def check_special(c, ctx):
    x = np.array(c['x'])
    if c['shape2']:
        x = np.stack([x, x[::-1]])
    E = finite(ut.exp1(x), x.shape, 'exp1')
    ref = _exp1(x)
    # documented accuracy of the approximation: 7e-4 relative
    close(E, ref, rtol=1e-3, atol=1e-300, what='exponential integral')
    I = finite(ut.erfint(x), x.shape, 'erfint')
    series = x**2 / math.sqrt(math.pi) * (1 - x**2 / 6)
    ref = np.where(x < 1e-3, series,
                   x * _erf(x) + np.expm1(-x**2) / math.sqrt(math.pi))
    close(I, ref, rtol=1e-12, atol=1e-15, what='integral of erf')
    q = float(x.ravel()[0])
    ref = quad(_erf, 0., min(q, 30.), epsabs=0, epsrel=1e-10)[0] \
        + max(q - 30., 0.)
    close([float(np.asarray(ut.erfint(q)))], [ref], rtol=1e-9, atol=1e-13,
          what='integral of erf against quadrature')
    close([float(np.asarray(ut.erfint(-q)))], [ref], rtol=1e-9, atol=1e-13,
          what='integral of erf is even')


def bound(N):
    """Allowed error with N terms: twice the largest error measured over
    thousands of pairs, plus 1e-3 of the real part."""
    return {1: 0.09, 2: 0.026, 3: 0.011, 4: 0.0035}.get(N, 2e-3)


@st.composite
def fls(draw):
    return {'H1': draw(gen.f(5., 250.)), 'D1': draw(gen.f(0., 15.)),
            'H2': draw(gen.f(5., 250.)), 'D2': draw(gen.f(0., 15.)),
            'dis': draw(st.one_of(gen.logf(0.05, 0.2), gen.f(1., 50.))),
            'alpha': draw(gen.alpha), 'lt': draw(gen.f(-9., 6.)),
            'N': draw(st.integers(1, 24)),
            'real': draw(st.sampled_from([True, True, False])),
            'image': draw(st.sampled_from([True, True, False]))}


@sub('C06', 'vertical', fls(), 2000, 20000, shards=2)
def check_vertical(c, ctx):
    t = gen.ts(max(c['H1'], c['H2']), c['alpha']) * math.exp(c['lt'])
    a = (c['H1'], c['D1'], c['H2'], c['D2'])
    L = math.sqrt(4 * c['alpha'] * t)
    ref = fls_ref.vertical(L, c['dis'], *a, c['real'], c['image'])
    h = ht.finite_line_source_approximation(
        t, c['alpha'], np.array([c['dis']]), *a, reaSource=c['real'],
        imgSource=c['image'], N=c['N'])
    h = finite(h, (1,), 'approximation')
    scale = fls_ref.vertical(L, c['dis'], *a, True, False) \
        if c['real'] else abs(ref)
    ctx.label('N<5' if c['N'] < 5 else 'N<10' if c['N'] < 10 else 'N>=10')
    if abs(ref) < 1e-6:
        ctx.set_trivial('value below 1e-6')
    close(h, [ref], rtol=1e-3, scale=scale, atol=bound(c['N']),
          what='approximation')


# largest change measured over 12000 pairs when more terms are used
CHANGE = [
    1.2e-1, 1.9e-2, 5.4e-3, 2.4e-3, 1.4e-3, 5.5e-4, 4.4e-4, 3.2e-4, 1.9e-4,
    1.4e-4, 9.4e-5, 6.9e-5, 4.5e-5, 3.2e-5, 2.6e-5, 1.8e-5, 1.3e-5, 1.1e-5,
    9.1e-6, 7.1e-6, 6.4e-6, 3.7e-6, 1.6e-6]


def settles(h, c):
    """Results settle as terms are added: what is left to change after N
    terms shrinks with N (the error common to all is judged above)."""
    for N, v in enumerate(h[:-1], 1):
        d = max(abs(v - x) for x in h[N:])
        require(d <= 3. * CHANGE[N - 1],
                f'more than {N} terms change the result by', change=d,
                usual=CHANGE[N - 1])


@sub('C06', 'terms', fls(), 300, 6000)
def check_terms(c, ctx):
    t = gen.ts(max(c['H1'], c['H2']), c['alpha']) * math.exp(c['lt'])
    if not (c['real'] or c['image']):
        ctx.set_trivial('no source')
        return
    h = [float(finite(ht.finite_line_source_approximation(
        t, c['alpha'], np.array([c['dis']]), c['H1'], c['D1'], c['H2'],
        c['D2'], reaSource=c['real'], imgSource=c['image'], N=N), (1,))[0])
        for N in range(1, 25)]
    settles(h, c)


@st.composite
def inc(draw):
    d = draw(gen.f(4., 40.))
    return {'b1': [draw(gen.f(10., 150.)), draw(gen.f(1., 15.)), 0.075, 0., 0.,
                   draw(gen.f(0.05, 1.57)), draw(gen.angle)],
            'b2': [draw(gen.f(10., 150.)), draw(gen.f(1., 15.)), 0.075, d, 0.,
                   draw(gen.f(0., 1.57)), draw(gen.angle)],
            'alpha': draw(gen.alpha), 'lt': draw(gen.f(-5., 6.)),
            'N': draw(st.integers(5, 24)),
            'real': draw(st.sampled_from([True, True, False])),
            'image': draw(st.sampled_from([True, True, False]))}


@sub('C06', 'inclined', inc(), 1600, 20000, shards=4)
def check_inclined(c, ctx):
    if min(fls_ref.min_distance(c['b1'], c['b2'])) < 0.04 * max(
            c['b1'][0], c['b2'][0]) or not (c['real'] or c['image']):
        ctx.set_trivial('lines too close or no source')
        return
    t = gen.ts(max(c['b1'][0], c['b2'][0]), c['alpha']) * math.exp(c['lt'])
    ref = fls_ref.inclined(math.sqrt(4 * c['alpha'] * t), c['b1'], c['b2'],
                           c['real'], c['image'])
    h = ht.finite_line_source(
        t, c['alpha'], gt.boreholes.Borehole(*c['b1']),
        gt.boreholes.Borehole(*c['b2']), reaSource=c['real'],
        imgSource=c['image'], approximation=True, N=c['N'], M=61)
    if abs(ref) < 1e-6:
        ctx.set_trivial('value below 1e-6')
    close(finite(h).reshape(-1), [ref], rtol=2e-3,
          atol=bound(c['N']), what='approximation')


@sub('C06', 'inclined terms', inc(), 400, 5000, shards=2)
def check_inclined_terms(c, ctx):
    if min(fls_ref.min_distance(c['b1'], c['b2'])) < 0.04 * max(
            c['b1'][0], c['b2'][0]) or not (c['real'] or c['image']):
        ctx.set_trivial('lines too close or no source')
        return
    t = gen.ts(max(c['b1'][0], c['b2'][0]), c['alpha']) * math.exp(c['lt'])
    settles([float(ht.finite_line_source(
        t, c['alpha'], gt.boreholes.Borehole(*c['b1']),
        gt.boreholes.Borehole(*c['b2']), reaSource=c['real'],
        imgSource=c['image'], approximation=True, N=N, M=21))
        for N in range(1, 25)], c)


@sub('C06', 'max_terms', st.fixed_dictionaries({
    'N': st.integers(1, 24), 'inclined': st.booleans()}), 60, 60)
def check_max_terms(c, ctx):
    """Every number of terms from 1 to the documented maximum of 25 is
    accepted.  The maximum itself is listed in known_findings.json, so only
    numbers below it are drawn."""
    b = gt.boreholes.Borehole(100., 2., 0.075, 0., 0.)
    d = gt.boreholes.Borehole(100., 2., 0.075, 5., 0.,
                              tilt=0.2 if c['inclined'] else 0.)
    v = ht.finite_line_source(3e8, 1e-6, b, d, approximation=True, N=c['N'])
    finite(v)
