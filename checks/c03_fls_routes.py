"""C03: every way of asking for the same line source response agrees."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, sub

ht = gt.heat_transfer
Borehole = gt.boreholes.Borehole

describe('C03', (
    'Drawn lists of vertical or inclined boreholes, times in any order and '
    'source flags; values obtained one pair at a time, by lists, by '
    'vectorised entry points, one time at a time, as arrays, real and image '
    'parts apart, and in the reciprocal direction are compared with each '
    'other. Trivial when all values are below 1e-6.'),
    ['agreement within the tolerance of the numerical quadratures'])


@st.composite
def case(draw):
    n1, n2 = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    pos = draw(gen.layout(n1 + n2, n1 + n2))
    kind = draw(st.sampled_from(['vertical', 'inclined', 'mixed']))

    def mk(p, i):
        tilt = 0. if kind == 'vertical' or (kind == 'mixed' and i % 2) \
            else draw(st.one_of(gen.f(0.05, 0.6), gen.f(0.05, 1.57)))
        return [draw(gen.f(10., 200.)), draw(gen.f(0.5, 10.)), draw(gen.r_b),
                *p, tilt, draw(gen.angle)]
    b = [mk(p, i) for i, p in enumerate(pos)]
    if kind == 'vertical' and draw(st.integers(0, 3)) == 0:
        # lines below each other, of any radii
        b[n1][3:5] = b[0][3:5]
        b[n1][1] = b[0][1] + b[0][0] + draw(gen.f(0., 10.))
    real = draw(st.sampled_from([True, True, False]))
    return {'src': b[:n1], 'rec': b[n1:], 'alpha': draw(gen.alpha),
            'lts': draw(st.lists(gen.f(-8. if real else -2., 6.), min_size=1,
                                 max_size=4)),
            'approx': draw(st.booleans()), 'N': draw(st.integers(5, 24)),
            'M': draw(st.sampled_from([7, 11, 21])),
            'real': real, 'image': draw(st.sampled_from([True, True, False])),
            'own': draw(st.booleans())}


def times_of(c):
    H0 = max(b[0] for b in c['src'] + c['rec'])
    return np.array([gen.ts(H0, c['alpha']) * math.exp(x) for x in c['lts']])


def tol(c):
    vertical = all(b[5] == 0. for b in c['src'] + c['rec'])
    return dict(rtol=1e-6, atol=1e-7) if vertical else \
        dict(rtol=5e-5, atol=2e-5)


@sub('C03', 'routes', case(), 200, 6000, shards=4)
def check_routes(c, ctx):
    src, rec = list(c['src']), list(c['rec'])
    if c['own']:
        rec[0] = src[0]
    S, R = [Borehole(*b) for b in src], [Borehole(*b) for b in rec]
    t = times_of(c)
    kw = dict(reaSource=c['real'], imgSource=c['image'],
              approximation=c['approx'], N=c['N'], M=c['M'])
    H = finite(ht.finite_line_source(t, c['alpha'], S, R, **kw),
               (len(R), len(S), len(t)), 'lists')
    tl = tol(c)
    vertical = all(b[5] == 0. for b in src + rec)
    ctx.label('approximate' if c['approx'] else 'exact',
              'vertical' if vertical else 'inclined',
              'unsorted' if np.any(np.diff(t) < 0) else 'sorted')
    if np.max(np.abs(H)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    # one time at a time
    for k, tk in enumerate(t):
        hk = finite(ht.finite_line_source(float(tk), c['alpha'], S, R, **kw),
                    (len(R), len(S)), 'scalar time')
        close(hk, H[:, :, k], what='scalar time against time array', **tl)
    # one pair at a time (a pair of which neither is tilted uses the vertical
    # solution, a mixed list the inclined one)
    for j, (rb, r) in enumerate(zip(rec, R)):
        for i, (sb, s) in enumerate(zip(src, S)):
            if not vertical and sb[5] == 0. and rb[5] == 0.:
                continue
            p = finite(ht.finite_line_source(t, c['alpha'], s, r, **kw),
                       None, 'pair')
            close(p.reshape(-1), H[j, i], what='pair against list', **tl)
            p = finite(ht.finite_line_source(t, c['alpha'], s, [r], **kw),
                       (1, 1, len(t)), 'borehole and list')
            close(p.reshape(-1), H[j, i], what='borehole and list', **tl)
    # the parts add up
    kw2 = dict(kw)
    kw2.update(reaSource=True, imgSource=False)
    hr = ht.finite_line_source(t, c['alpha'], S, R, **kw2)
    kw2.update(reaSource=False, imgSource=True)
    hi = ht.finite_line_source(t, c['alpha'], S, R, **kw2)
    kw2.update(reaSource=True, imgSource=True)
    hb = ht.finite_line_source(t, c['alpha'], S, R, **kw2)
    mask = np.ones(H.shape, bool)
    if c['own'] and not vertical and src[0][5] > 0:
        mask[0, 0] = False      # floors of the two parts differ by ~r_b
    close(np.where(mask, finite(hr) + finite(hi), 0.),
          np.where(mask, finite(hb), 0.), what='real + image', **tl)


@sub('C03', 'reciprocity', case(), 300, 10000, shards=2)
def check_reciprocity(c, ctx):
    src, rec = c['src'], [list(b) for b in c['rec']]
    for b in rec:
        for a in src:
            if a[3:5] == b[3:5]:        # the distance is then the radius
                b[2] = a[2]
    S, R = [Borehole(*b) for b in src], [Borehole(*b) for b in rec]
    t = times_of(c)
    vertical = all(b[5] == 0. for b in src + rec)
    kw = dict(reaSource=c['real'], imgSource=c['image'],
              approximation=c['approx'] and vertical,
              N=c['N'], M=51)
    a = finite(ht.finite_line_source(t, c['alpha'], S, R, **kw),
               (len(R), len(S), len(t)))
    b = finite(ht.finite_line_source(t, c['alpha'], R, S, **kw),
               (len(S), len(R), len(t)))
    HS = np.array([x[0] for x in src])
    HR = np.array([x[0] for x in rec])
    ctx.label('vertical' if vertical else 'inclined')
    if np.max(np.abs(a)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    from pbt import fls_ref
    for j in range(len(R)):
        for i in range(len(S)):
            if not vertical and min(fls_ref.min_distance(
                    src[i], rec[j])) < 0.04 * max(HS[i], HR[j]):
                continue
            close(HR[j] * a[j, i], HS[i] * b[i, j], rtol=1e-3 if not vertical
                  else 2e-6, atol=1e-2 if not vertical else 2e-5,
                  what='H2 h12 = H1 h21')


@st.composite
def bare(draw):
    sh = draw(st.sampled_from([(), (3,), (2, 1), (1, 4), (2, 3)]))
    n = int(np.prod(sh)) if sh else 1
    real = draw(st.booleans())
    lst = lambda s: draw(st.lists(s, min_size=n, max_size=n))
    return {'shape': list(sh), 'dis': lst(gen.f(0.05, 50.)),
            'H1': lst(gen.f(5., 200.)), 'D1': lst(gen.f(0., 20.)),
            'H2': lst(gen.f(5., 200.)), 'D2': lst(gen.f(0., 20.)),
            'alpha': draw(gen.alpha),
            'lts': draw(st.lists(gen.f(-8. if real else -2., 6.), min_size=1,
                                 max_size=3)),
            'approx': draw(st.booleans()), 'N': draw(st.integers(1, 24)),
            'real': real, 'image': draw(st.booleans()),
            'scalarH': draw(st.booleans()), 'tscalar': draw(st.booleans())}


@sub('C03', 'vectorized', bare(), 200, 6000, shards=2)
def check_vectorized(c, ctx):
    """Broadcasting: the vectorised entry points are elementwise."""
    sh = tuple(c['shape'])
    dis = np.array(c['dis']).reshape(sh)
    g = lambda k: float(c[k][0]) if c['scalarH'] else \
        np.array(c[k]).reshape(sh)
    v = {k: g(k) for k in ('H1', 'D1', 'H2', 'D2')}
    t = np.array([gen.ts(150., c['alpha']) * math.exp(x) for x in c['lts']])
    arg = float(t[0]) if c['tscalar'] else t
    tsh = () if c['tscalar'] else (len(t),)
    kw = dict(reaSource=c['real'], imgSource=c['image'])
    if c['approx']:
        fn = lambda t_, d_, **k: ht.finite_line_source_approximation(
            t_, c['alpha'], d_, k['H1'], k['D1'], k['H2'], k['D2'],
            N=c['N'], **kw)
    else:
        fn = lambda t_, d_, **k: ht.finite_line_source_vectorized(
            t_, c['alpha'], d_, k['H1'], k['D1'], k['H2'], k['D2'], **kw)
    if sh == () and not c['approx']:
        dis = float(dis)
    h = finite(fn(arg, dis, **v), sh + tsh, 'vectorised')
    ctx.label('approximate' if c['approx'] else 'exact', f'shape={sh}')
    if not (c['real'] or c['image']):
        close(h, np.zeros(sh + tsh), what='no source', atol=0.)
        ctx.set_trivial('no source')
        return
    b = {k: np.broadcast_to(np.asarray(v[k]), sh) for k in v}
    for idx in np.ndindex(*sh):
        one = {k: np.array([b[k][idx]]) for k in b}
        e = finite(fn(arg, np.array([np.asarray(dis)[idx]]), **one),
                   (1,) + tsh, 'element')
        close(h[idx], e[0], rtol=1e-6, atol=2e-8, what=f'element {idx}')
    if np.max(np.abs(h)) < 1e-6:
        ctx.set_trivial('values below 1e-6')


@st.composite
def scalar_case(draw):
    c = draw(case())
    c['as'] = draw(st.sampled_from(['int', 'np.int64', 'np.float64', '0-d',
                                    'float("inf")', 'np.float64("inf")']))
    c['pair'] = draw(st.booleans())
    return c


@sub('C03', 'scalars', scalar_case(), 250, 6000, shards=2)
def check_scalars(c, ctx):
    """One time is one time, whatever the type of number."""
    S, R = [Borehole(*b) for b in c['src']], [Borehole(*b) for b in c['rec']]
    a, b = (S[0], R[0]) if c['pair'] else (S, R)
    t = float(round(max(times_of(c)[0], 100.)))
    kind = c['as']
    ctx.label(kind, 'pair' if c['pair'] else 'lists')
    kw = dict(reaSource=c['real'], imgSource=c['image'],
              approximation=c['approx'], N=c['N'], M=c['M'])
    if 'inf' in kind:
        x = float('inf') if kind[0] == 'f' else np.float64('inf')
        ref, tl = ht.finite_line_source(np.inf, c['alpha'], a, b, **kw), \
            dict(rtol=1e-12, atol=1e-14)
        # and it is the limit of late times
        vertical = all(b[5] == 0. for b in c['src'] + c['rec'])
        if vertical and c['real']:
            late = gen.ts(max(b[0] for b in c['src'] + c['rec']),
                          c['alpha']) * 1e9
            close(finite(ht.finite_line_source(
                late, c['alpha'], a, b, **dict(kw, approximation=False))),
                finite(ref), rtol=1e-4, atol=1e-4, what='steady state')
    else:
        x = {'int': int, 'np.int64': np.int64, 'np.float64': np.float64,
             '0-d': np.array}[kind](t)
        ref = np.asarray(ht.finite_line_source(
            np.array([t]), c['alpha'], a, b, **kw))[..., 0]
        tl = tol(c)
    h = finite(ht.finite_line_source(x, c['alpha'], a, b, **kw), np.shape(ref),
               kind)
    if np.max(np.abs(ref)) < 1e-6:
        ctx.set_trivial('values below 1e-6')
    close(h, ref, what=f'time given as {kind}', **tl)


@st.composite
def far_case(draw):
    d, a = draw(gen.logf(3., 300.)), draw(gen.angle)
    tilt = [draw(st.sampled_from([0., 0., 0.1, 0.3])) for _ in range(2)]
    src = [draw(gen.f(50., 200.)), draw(gen.f(0.5, 10.)), 0.075, 0., 0.,
           tilt[0], draw(gen.angle)]
    rec = [draw(gen.f(50., 200.)), draw(gen.f(0.5, 10.)), 0.075,
           d * math.cos(a), d * math.sin(a), tilt[1], draw(gen.angle)]
    return {'src': src, 'rec': rec,
            'lts': draw(st.lists(st.one_of(
                gen.f(0., 7.), gen.f(16., 25.), gen.f(0., 25.)), min_size=2,
                max_size=4)),
            'inf': draw(st.integers(0, 3)) == 0,
            'equivalent': draw(st.booleans())}


@sub('C03', 'far_times', far_case(), 240, 6000, shards=2)
def check_far(c, ctx):
    """Times far apart do not affect each other."""
    t = np.array([math.exp(x) for x in c['lts']] + [np.inf] * c['inf'])
    al = 1e-6
    S, R = Borehole(*c['src']), Borehole(*c['rec'])
    vertical = c['src'][5] == c['rec'][5] == 0.
    ctx.label('vertical' if vertical else 'inclined',
              'with infinity' if c['inf'] else 'finite')
    # infinite time belongs with arrays of lines only through the limit
    late = np.where(np.isinf(t), 1e17, t)
    one = np.array([float(ht.finite_line_source(float(x), al, S, R))
                    for x in late])
    tl = dict(rtol=1e-6, atol=1e-6) if vertical and not c['inf'] else \
        dict(rtol=5e-5, atol=2e-5)
    pair = finite(ht.finite_line_source(t, al, S, R), t.shape, 'pair')
    close(pair, one, what='pair: times together against one at a time', **tl)
    lists = finite(ht.finite_line_source(t, al, [S], [R]),
                   (1, 1, len(t)), 'lists')
    close(lists[0, 0], one, what='lists: times together against one at a '
          'time', **tl)
    if vertical and c['equivalent']:
        d = np.array([math.hypot(c['rec'][3], c['rec'][4])])
        x = finite(ht.finite_line_source_equivalent_boreholes_vectorized(
            t, al, d, np.ones(1), S.H, S.D, R.H, R.D, 1.), None,
            'equivalent').reshape(-1)
        close(x, one, what='equivalent boreholes', **tl)
    if np.ptp(np.log(late)) < 5. or np.max(one) < 1e-5:
        ctx.set_trivial('no far times or no response')
