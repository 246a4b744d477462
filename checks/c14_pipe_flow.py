"""C14: what direction, amount and arrangement of flow mean."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen, pipegen as pg
from pbt.harness import close, describe, finite, require, scalar, sub

describe('C14', (
    'Drawn pipes, flows, segments and temperatures; the same physical '
    'situation is described in two ways (reversed flow or exchanged legs, '
    'negative or positive flow when reversal is disabled, flow or heat '
    'capacity scaled, independent U-tubes connected by hand or declared as '
    'parallel or series, one U-tube of each kind) and results compared. A '
    'case is trivial when all temperatures are equal.'), [])

T = gen.nice(-10., 60., 5.)


@st.composite
def case(draw, kinds=pg.KINDS, nmax=3):
    c = draw(pg.pipe(kinds, nmax))
    n, r = draw(pg.ratios(1, 5))
    k = pg.n_in(c)
    return {'pipe': c, 'flow': draw(pg.flow(c, ntu=(0.02, 2.))), 'n': n,
            'ratios': r, 'T_in': [draw(T) for _ in range(k)],
            'T_b': [draw(T) for _ in range(n)],
            'turn': [draw(st.booleans()) for _ in range(k)],
            'z': draw(st.lists(gen.f(0., 1.), min_size=1, max_size=3)),
            'k': draw(gen.logf(0.2, 5.))}


def setup(c, ctx):
    Ts = c['T_in'] + c['T_b']
    if max(Ts) == min(Ts):
        ctx.set_trivial('uniform temperature')
    ctx.label(c['pipe']['kind'])
    kw = {} if c['ratios'] is None else \
        {'segment_ratios': np.array(c['ratios'])}
    ex = float(np.max(np.abs(np.linalg.eigvals(
        pg.Ref(c['pipe'], np.abs(c['flow']['m']), c['flow']['cp']).A)))) \
        * c['pipe']['H']
    rtol = 1e-9 if c['pipe']['kind'] in ('single', 'coaxial') else \
        1e-9 + 1e-14 * math.exp(min(2 * ex, 60.))
    if rtol > 1e-3:
        ctx.set_trivial('ill conditioned')
        return kw, None
    return kw, rtol


def answers(pipe, c, m, cp, kw, T_in=None):
    p = c['pipe']
    T_in = np.array(c['T_in'] if T_in is None else T_in)
    if p['kind'] != 'independent':
        T_in = float(T_in[0])
    T_b = np.array(c['T_b'])
    z = np.array(c['z']) * p['H']
    return {
        'outlet': finite(pipe.get_outlet_temperature(
            T_in, T_b, m, cp, **kw)).reshape(-1),
        'fluid': finite(pipe.get_temperature(z, T_in, T_b, m, cp, **kw)),
        'Qb': finite(pipe.get_borehole_heat_extraction_rate(
            T_in, T_b, m, cp, **kw)),
        'Qf': finite(pipe.get_fluid_heat_extraction_rate(
            T_in, T_b, m, cp, **kw)).reshape(-1),
        'Qt': finite(pipe.get_total_heat_extraction_rate(
            T_in, T_b, m, cp, **kw)).reshape(-1)}


def compare(a, b, rtol, C, what, cols=None):
    for k in a:
        x, y = a[k], b[k]
        if k == 'fluid' and cols is not None:
            y = y[:, cols]
        s = 100. * (C if k[0] == 'Q' else 1.)
        close(x, y, rtol=0., atol=10 * rtol * s, what=f'{what}: {k}')


@sub('C14', 'reversed', case(), 1000, 20000, shards=2)
def check_reversed(c, ctx):
    """Reversed flow is forward flow with the legs exchanged."""
    kw, rtol = setup(c, ctx)
    if rtol is None:
        return
    p = dict(c['pipe'], reversible=True)
    c = dict(c, pipe=p)
    n = p['n']
    ms = [-abs(x) for x in c['flow']['m']]
    if p['kind'] == 'independent':
        # every U-tube has its own direction
        ms = [x if c['turn'][i] else -x for i, x in enumerate(ms)]
        ctx.label('reversed' if max(ms) < 0 else
                  'forward' if min(ms) > 0 else 'both directions')
    fl = dict(c['flow'], m=ms)
    m, cp = pg.flow_args(p, fl)
    C = float(np.max(np.abs(m))) * cp * 2 * n
    a = answers(pg.build(p), c, m, cp, kw)
    if p['kind'] == 'coaxial':
        q = dict(p, r_in=p['r_in'][::-1], r_out=p['r_out'][::-1])
        cols = [1, 0]
        b = answers(pg.build(q), c, -m, cp, kw)
    else:
        # the leg that was the way up becomes the way down; in series the
        # U-tubes are visited from the last to the first
        if p['kind'] == 'series':
            o = [n + n - 1 - i for i in range(n)] + \
                [n - 1 - i for i in range(n)]
        elif p['kind'] == 'independent':
            o = [n + i if ms[i] < 0 else i for i in range(n)] + \
                [i if ms[i] < 0 else n + i for i in range(n)]
        else:
            o = [n + i for i in range(n)] + list(range(n))
        q = dict(p, pos=[p['pos'][i] for i in o])
        b = answers(pg.build(q), c, np.abs(m) if np.ndim(m) else -m, cp, kw)
        cols = [o.index(i) for i in range(2 * n)]
    compare(a, b, rtol, C, 'reversed flow', cols)


@sub('C14', 'not_reversible', case(), 700, 15000)
def check_not_reversible(c, ctx):
    """With reversal disabled only the absolute flow matters."""
    kw, rtol = setup(c, ctx)
    if rtol is None:
        return
    p = dict(c['pipe'], reversible=False)
    c = dict(c, pipe=p)
    if all(x > 0 for x in c['flow']['m']):
        c['flow'] = dict(c['flow'], m=[-x for x in c['flow']['m']])
    m, cp = pg.flow_args(p, c['flow'])
    C = float(np.max(np.abs(m))) * cp * 2 * p['n']
    one = pg.build(p)
    a = answers(one, c, m, cp, kw)
    b = answers(one, c, np.abs(m) if np.ndim(m) else abs(m), cp, kw)
    d = answers(pg.build(p), c, np.abs(m) if np.ndim(m) else abs(m), cp, kw)
    rev = answers(pg.build(dict(p, reversible=True)), c,
                  np.abs(m) if np.ndim(m) else abs(m), cp, kw)
    compare(a, b, rtol, C, 'same pipe, absolute flow')
    compare(a, d, rtol, C, 'new pipe, absolute flow')
    compare(a, rev, rtol, C, 'reversible pipe, absolute flow')
    if pg.n_in(p) == 1:
        R = [scalar(pg.build(p).effective_borehole_thermal_resistance(x, cp))
             for x in (m, abs(m))]
        close(R[:1], R[1:], rtol=1e-6, what='effective resistance')


@sub('C14', 'capacity_flow', case(), 700, 15000)
def check_capacity(c, ctx):
    """Only the product of flow and heat capacity matters."""
    kw, rtol = setup(c, ctx)
    if rtol is None:
        return
    p, k = c['pipe'], c['k']
    p = dict(p, reversible=True)
    m, cp = pg.flow_args(p, c['flow'])
    C = float(np.max(np.abs(m))) * cp * 2 * p['n']
    pipe = pg.build(p)
    a = answers(pipe, c, m, cp, kw)
    if k > 1.2:
        pipe = pg.build(p)
    compare(answers(pipe, c, m * k, cp / k, kw), a, rtol, C, 'm cp')
    if p['kind'] == 'independent':
        compare(answers(pg.build(p), c, m, np.full(p['n'], cp), kw), a,
                rtol, C, 'one heat capacity per inlet')


@sub('C14', 'connections', case(('independent',)), 1000, 20000, shards=2)
def check_connections(c, ctx):
    """Declared parallel and series connections are what connecting
    independent U-tubes by hand gives."""
    kw, rtol = setup(c, ctx)
    if rtol is None:
        return
    p = dict(c['pipe'], reversible=True)
    n = p['n']
    m0, cp = c['flow']['m'][0], c['flow']['cp']
    C = abs(m0) * cp * 2 * n
    ind = pg.build(p)
    ctx.label(f'n={n}', 'reversed' if m0 < 0 else 'forward')
    if n == 1:
        for kind in ('single', 'parallel', 'series'):
            q = dict(p, kind=kind)
            a = answers(pg.build(q), dict(c, pipe=q), m0, cp, kw)
            compare(a, answers(ind, dict(c, pipe=p), np.array([m0]), cp, kw),
                    rtol, C, kind)
    # parallel: equal shares, mixed outlets
    q = dict(p, kind='parallel')
    a = answers(pg.build(q), dict(c, pipe=q), m0, cp, kw)
    b = answers(ind, dict(c, pipe=p), np.full(n, m0 / n), cp, kw,
                T_in=[c['T_in'][0]] * n)
    b['outlet'] = np.array([np.mean(b['outlet'])])
    b['Qf'] = np.array([np.sum(b['Qf'])])
    compare(a, b, rtol, C, 'parallel')
    # series: every U-tube is fed by its predecessor
    q = dict(p, kind='series')
    a = answers(pg.build(q), dict(c, pipe=q), m0, cp, kw)
    mm = np.full(n, m0)
    A, B = ind.coefficients_outlet_temperature(mm, cp, c['n'], **kw)
    seq = list(range(n)) if m0 > 0 else list(range(n))[::-1]
    S = np.zeros((n, n))
    e = np.zeros(n)
    e[seq[0]] = c['T_in'][0]
    for i, j in zip(seq[:-1], seq[1:]):
        S[j, i] = 1.
    M = np.eye(n) - S @ A
    T_in = np.linalg.solve(M, e + S @ (B @ np.array(c['T_b'])))
    amp = np.linalg.cond(M)
    if amp > 1e4:
        ctx.set_trivial('ill conditioned chain')
        return
    b = answers(ind, dict(c, pipe=p), mm, cp, kw, T_in=T_in)
    b['outlet'] = b['outlet'][[seq[-1]]]
    b['Qf'] = np.array([np.sum(b['Qf'])])
    compare(a, b, rtol * amp, C, 'series')


@sub('C14', 'symmetric', case(('single', 'parallel')), 400, 8000)
def check_symmetric(c, ctx):
    """Concentric or diametrically symmetric sections do not see the
    direction of flow when the wall temperature is uniform."""
    kw, rtol = setup(c, ctx)
    if rtol is None:
        return
    p = dict(c['pipe'], reversible=True)
    n, r_b = p['n'], p['r_b']
    D = 0.5 * r_b
    r_out = 0.6 * min(D * math.sin(math.pi / (2 * n)), r_b - D)
    # leg i+n is opposite to leg i
    p['pos'] = [[D * math.cos(math.pi * i / n), D * math.sin(math.pi * i / n)]
                for i in range(2 * n)]
    p['r_out'], p['r_in'] = r_out, 0.8 * r_out
    c = dict(c, pipe=p, T_b=[c['T_b'][0]] * c['n'])
    m, cp = pg.flow_args(p, c['flow'])
    C = abs(m) * cp * 2 * n
    pipe = pg.build(p)
    a, b = (answers(pipe, c, x, cp, kw) for x in (m, -m))
    for k in ('outlet', 'Qf', 'Qb'):
        close(a[k], b[k], rtol=0.,
              atol=10 * rtol * 100. * (C if k[0] == 'Q' else 1.),
              what=f'direction of flow in a symmetric section: {k}')
