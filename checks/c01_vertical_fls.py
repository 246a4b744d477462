"""C01: vertical finite line source equals the first-principles integral."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fls_ref, gen
from pbt.harness import close, describe, finite, sub

ht = gt.heat_transfer
Borehole = gt.boreholes.Borehole

describe('C01', (
    'Pairs and lists of vertical line sources with drawn lengths, depths, '
    'radii, distances, diffusivity, times (ln(t/ts) in [-13, 7] or the steady '
    'state) and real/image flags; the library value is compared with a '
    'quadrature of the continuous point-source solution over both lines. A '
    'case is trivial when every expected value is below 1e-6 or when neither '
    'source part is requested.'),
    ['scipy.special.erfc and numpy are correct',
     'the point-source superposition is the definition of the solution'])



def tol(c):
    # the closed-form steady state loses digits to cancellation
    steady = c.get('lt', 0.) is None or c.get('lts', 0.) is None
    return dict(rtol=2e-6, atol=2e-6 if steady else 2e-8)



@st.composite
def lines(draw, nmax=1):
    n = draw(st.integers(1, nmax))
    return [[draw(gen.length), draw(gen.depth), draw(gen.r_b)]
            for _ in range(n)]


@st.composite
def pair(draw):
    same = draw(st.booleans())
    b1 = draw(lines())[0]
    b2 = draw(lines())[0]
    return {
        'b1': b1, 'b2': b2,
        'dis': 0. if same else draw(st.one_of(gen.logf(0.02, 1.),
                                              gen.f(1., 150.))),
        'ang': draw(gen.angle), 'alpha': draw(gen.alpha),
        'lt': draw(st.one_of(st.none(), gen.f(-13., 7.))),
        'real': draw(st.sampled_from([True, True, True, False])),
        'image': draw(st.sampled_from([True, True, True, False])),
    }


def L_of(alpha, t):
    return np.sqrt(4. * alpha * t)


def t_of(c, H):
    return np.inf if c['lt'] is None else gen.ts(H, c['alpha']) * math.exp(
        c['lt'])


@sub('C01', 'pair', pair(), 900, 40000, shards=3)
def check_pair(c, ctx):
    H1, D1, r1 = c['b1']
    H2, D2, r2 = c['b2']
    x0, y0 = 3., -2.
    b1 = Borehole(H1, D1, r1, x0, y0)
    b2 = Borehole(H2, D2, r2, x0 + c['dis'] * math.cos(c['ang']),
                  y0 + c['dis'] * math.sin(c['ang']))
    t = t_of(c, max(H1, H2))
    d = max(c['dis'], r1)
    ref = fls_ref.vertical(L_of(c['alpha'], t), d, H1, D1, H2, D2,
                           c['real'], c['image'])
    h = ht.finite_line_source(t, c['alpha'], b1, b2, reaSource=c['real'],
                              imgSource=c['image'])
    ctx.label('steady' if c['lt'] is None else 'transient',
              'self' if c['dis'] == 0. else 'near' if d < 1. else 'far',
              f"real={c['real']},image={c['image']}")
    if abs(ref) < 1e-6:
        ctx.set_trivial('value below 1e-6')
    close(finite(h, None, 'h').reshape(-1), [ref], what='h', **tol(c))


@st.composite
def field_case(draw):
    n1, n2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    pos = draw(gen.layout(n1 + n2, n1 + n2))
    shared = draw(st.booleans())
    mk = lambda p: [draw(gen.length), draw(gen.depth), draw(gen.r_b), *p]
    src = [mk(p) for p in pos[:n1]]
    rec = [mk(p) for p in pos[n1:]]
    if shared:
        rec[0][3:] = src[0][3:]
    real = draw(st.sampled_from([True, True, False]))
    if not real:
        # keep the response to the images above the noise of the quadrature
        H0 = max(b[0] for b in src + rec)
        for b in src + rec:
            b[1] = min(b[1], 0.3 * H0)
    lo = -10. if real else -2.
    return {'src': src, 'rec': rec, 'alpha': draw(gen.alpha),
            'lts': draw(st.one_of(
                st.none(), st.lists(gen.f(lo, 6.), min_size=1, max_size=3,
                                    unique=True))),
            'scalar': draw(st.booleans()),
            'real': real, 'image': draw(st.sampled_from([True, True, False])),
            'route': draw(st.sampled_from(['lists', 'vectorized']))}


@sub('C01', 'matrix', field_case(), 240, 8000, shards=3)
def check_matrix(c, ctx):
    src = [Borehole(*b) for b in c['src']]
    rec = [Borehole(*b) for b in c['rec']]
    n1, n2 = len(src), len(rec)
    H0 = max(b[0] for b in c['src'] + c['rec'])
    if c['lts'] is None:
        times, arg = [np.inf], np.inf
    else:
        times = [gen.ts(H0, c['alpha']) * math.exp(x) for x in c['lts']]
        if c['scalar']:
            times = times[:1]
            arg = times[0]
        else:
            arg = np.array(times)
    shape = (n2, n1) if np.ndim(arg) == 0 else (n2, n1, len(times))
    dis = [[max(math.hypot(s[3] - r[3], s[4] - r[4]), s[2])
            for s in c['src']] for r in c['rec']]
    ref = np.array([[[fls_ref.vertical(
        L_of(c['alpha'], t), dis[j][i], s[0], s[1], r[0], r[1],
        c['real'], c['image']) for t in times]
        for i, s in enumerate(c['src'])] for j, r in enumerate(c['rec'])])
    if c['route'] == 'lists' or arg is np.inf:
        h = ht.finite_line_source(arg, c['alpha'], src, rec,
                                  reaSource=c['real'], imgSource=c['image'])
    else:
        g = lambda L, k, sh: np.array([b[k] for b in L]).reshape(sh)
        h = ht.finite_line_source_vectorized(
            arg, c['alpha'], np.array(dis),
            g(c['src'], 0, (1, -1)), g(c['src'], 1, (1, -1)),
            g(c['rec'], 0, (-1, 1)), g(c['rec'], 1, (-1, 1)),
            reaSource=c['real'], imgSource=c['image'])
    h = finite(h, shape, 'h')
    ctx.label(c['route'], 'steady' if c['lts'] is None else
              'scalar time' if np.ndim(arg) == 0 else 'time array')
    if np.max(np.abs(ref)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    close(h.reshape(ref.shape), ref, what='h', **tol(c))
